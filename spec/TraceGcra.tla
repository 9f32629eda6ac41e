------------------------------- MODULE TraceGcra -----------------------------
(* Is a recorded execution within the launch limit, and does it use it?        *)
EXTENDS Gcra, Json, IOUtils
CONSTANT Relaxed
VARIABLES tr, di, late
Traces == JsonDeserialize(IOEnv.TRACES)
D == Traces[tr].D
EP == Traces[tr].epochs     \* [lo, hi, r]: the limit in force from somewhere in lo..hi
GO == Traces[tr].go         \* times of launches
Slack == Traces[tr].slack
tv == <<gv, tr, di, late>>
G(g, P) == g \in Relaxed \/ P

TInit == tr \in 1..Len(Traces) /\ di = 1 /\ late = FALSE /\ Start(EP[1].lo, EP[1].r)

\* while somebody waits and there is work, launches keep coming; nobody waits for much longer than 30 s
EpAt(t) == CHOOSE e \in 1..Len(EP) : EP[e].hi <= t /\ \A f \in 1..Len(EP) : EP[f].hi <= t => f <= e
Launched(a, b) == Cardinality({i \in 1..Len(GO) : GO[i] >= a /\ GO[i] <= b})
Waited(w) ==
    LET e == EpAt(w.tm)
        from == Max2(w.lo, EP[e].hi + 1000)
    IN w.work => (IF EP[e].r = 0 THEN w.tm - from <= Slack + 1000
                  ELSE Launched(w.lo, w.tm) >= AtLeast(EP[e].r, w.tm - from - Slack) - 1)
Answered(w) ==
    /\ G("starved", Waited(w))
    /\ G("late", w.tm - w.lo <= 30000 + Slack + 1000)

TNext ==
    /\ di <= Len(D) /\ UNCHANGED tr
    /\ LET e == D[di] IN
       \/ e.k = "ask" /\ Ask(e.tm) /\ di' = di + 1 /\ UNCHANGED late
       \/ /\ e.k = "go" /\ G("rate", May(e.tm)) /\ Launch(e.tm) /\ Answered(e)
          /\ di' = di + 1 /\ UNCHANGED late
       \/ /\ e.k = "quit" /\ GiveUp(e.tm) /\ Answered(e) /\ G("late", e.code = 429 => e.tm - e.lo >= 29000)
          /\ di' = di + 1 /\ UNCHANGED late
       \* a change takes effect when it is asked for, or when that is answered
       \/ e.k = "rate1" /\ Change(e.tm, e.r) /\ late' = FALSE /\ di' = di + 1
       \/ e.k = "rate1" /\ late' = TRUE /\ di' = di + 1 /\ UNCHANGED gv
       \/ e.k = "rate2" /\ (IF late THEN Change(e.tm, e.r) ELSE UNCHANGED gv) /\ di' = di + 1 /\ UNCHANGED late
       \* the limit that is reported is the one in force
       \/ e.k = "status" /\ G("rate", e.limit = rate) /\ di' = di + 1 /\ UNCHANGED <<gv, late>>
Accepted == di > Len(D)
Note ==
    /\ (IF di > TLCGet(1000 + tr) THEN TLCSet(1000 + tr, di) /\ TLCSet(2000 + tr, <<di, 0>>) ELSE TRUE)
    /\ (IF Accepted THEN TLCSet(tr, 1) ELSE TRUE)
Setup == \A i \in 1..Len(Traces) : TLCSet(i, 0) /\ TLCSet(1000 + i, 0) /\ TLCSet(2000 + i, <<0, 0>>)
ASSUME Setup
Report ==
    /\ PrintT(<<"ACC", {i \in 1..Len(Traces) : TLCGet(i) = 1}>>)
    /\ \A i \in 1..Len(Traces) : TLCGet(i) = 1 \/ PrintT(<<"REJ", i, TLCGet(2000 + i)>>)
TSpec == TInit /\ [][TNext]_tv
=============================================================================
