------------------------------ MODULE TraceExec ------------------------------
(* Is a recorded execution of the real code a behaviour of ExecGraph?          *)
(*                                                                             *)
(* A trace consists of two sequences: D, what the driver and the task          *)
(* processes saw, and L, the records of the log.  Each is ordered; how they    *)
(* interleave is not recorded (the scheduler buffers the log), and TLC searches *)
(* for an interleaving.  The effect of a request happens somewhere between the *)
(* request and its reply.                                                      *)
EXTENDS ExecGraph, Json, IOUtils

VARIABLES tr, di, li, pend

tvars == <<vars, tr, di, li, pend>>

Traces == JsonDeserialize(IOEnv.TRACES)
R(s) == {s[i] : i \in 1..Len(s)}

D == Traces[tr].D
L == Traces[tr].L
Item == D[di]
Rec == L[li]
Now == IF di = 1 THEN 0 ELSE D[di - 1].tm

Cfg(c) == [n |-> c.n, dep |-> [t \in 1..c.n |-> R(c.dep[t])], aff |-> [t \in 1..c.n |-> R(c.aff[t])],
           anc |-> [t \in 1..c.n |-> R(c.anc[t])], depth |-> c.depth, emp |-> R(c.emp), mask |-> c.mask,
           root |-> c.root, hooks |-> c.hooks, lst |-> [t \in 1..c.n |-> R(c.lst[t])],
           nostart |-> c.nostart, host |-> c.host, slack |-> c.slack, grace |-> c.grace,
           queues |-> UNION {R(c.aff[t]) : t \in 1..c.n}]

TInit ==
    /\ tr \in 1..Len(Traces)
    /\ di = 1 /\ li = 1 /\ pend = {}
    /\ cfg = Cfg(Traces[tr].cfg)
    /\ InitVars

UB == UNCHANGED vars

-----------------------------------------------------------------------------
(* Requests.  pend holds the indices of calls whose effect is outstanding.     *)

\* the call has an effect that needs a step of its own
HasEffect(c) ==
    CASE c.k = "start" -> c.code = 200
      [] c.k = "begun" -> c.code = 200
      [] c.k = "end" -> c.code \in {200, 410, 429} \/ c.code = -1
      [] OTHER -> FALSE

\* effects of a call: "e" ends the transaction, "c" claims a task, "b" begins
Effects(c) ==
    CASE c.k = "start" /\ c.code = 200 -> {"c"}
      [] c.k = "begun" /\ c.code = 200 -> {"b"}
      [] c.k = "end" /\ c.code = 200 /\ c.q >= 0 -> {"e", "c"}
      [] c.k = "end" /\ c.code \in {200, 410, 429} -> {"e"}
      [] c.k \in {"mark"} -> {"m"}
      [] c.k = "status" -> {"q"}
      [] OTHER -> {}

Optional(c) ==
    CASE c.k = "end" /\ c.code = -1 -> {"e"}
      [] c.k = "begun" /\ c.code = -1 -> {"b"}
      [] OTHER -> {}

RunningJobs == {tx[x].jid : x \in {y \in DOMAIN tx : tx[y].live}}

Mark(c) ==
    /\ G("slurm", R(c.rep) = R(c.jids) \ RunningJobs)
    /\ canc' = canc \cup R(c.rep)
    /\ UNCHANGED <<cfg, hist, wk, S, X, T, tx, polls>>

(* /status                                                                    *)

Count(P(_), m) == Cardinality({t \in X.sel : cfg.mask[t] = m /\ P(t)})
IsReady(t) == T[t].p = "ready"
IsOut(t) == T[t].p \in {"given", "end"}
AdminSoft == X.mode = "soft" /\ ~X.cut

StatusOk(e) ==
    LET masks == {cfg.mask[t] : t \in X.sel} \cup {e.qs[i].m : i \in 1..Len(e.qs)} IN
    /\ \A m \in masks :
         LET got == {i \in 1..Len(e.qs) : e.qs[i].m = m}
             r == IF got = {} THEN 0 ELSE e.qs[CHOOSE i \in got : TRUE].r
             f == IF got = {} THEN 0 ELSE e.qs[CHOOSE i \in got : TRUE].f
         IN /\ Cardinality(got) <= 1
            /\ G("status", f = Count(IsOut, m))
            /\ (X.mode = "norm" /\ ~X.over) => G("status", r = Count(IsReady, m))
            /\ AdminSoft => G("soft", r = 0)
    /\ G("status", e.unready = Cardinality({t \in X.sel : T[t].p = "wait"}) \/ X.mode # "norm")
    /\ G("status", e.total = Cardinality(X.sel))
    /\ G("etag", e.etag = X.batch)
    /\ G("rate", e.limit = X.rate)
    /\ e.soft => G("soft", X.mode # "norm")
    /\ li > e.li

\* the effect e of call number i takes place
Effect(i, e) ==
    LET c == D[i] IN
    /\ <<i, e>> \in pend
    /\ CASE e = "c" -> /\ <<i, "e">> \notin pend
                       /\ (c.k = "end" => T[c.endt].p \in {"ok", "fail", "out"} \/ X.mode = "hard" \/ X.proc = c.endt \/ T[c.endt].post = 1)
                       /\ Claim(c.t, c.q, "tx", c.ntx, c.jid, Now)
         [] e = "b" -> G("tx", c.auth /\ c.jid # "none") /\ Begin(c.tx, c.host, c.pid, c.jid, Now)
         [] e = "e" -> G("tx", c.auth /\ c.jid # "none") /\ End(c.tx, c.jid, c.s, c.v, c.quick, Now)
         [] e = "m" -> G("tx", c.auth) /\ Mark(c)
         [] e = "q" -> StatusOk(c) /\ UB
    /\ pend' = pend \ {<<i, e>>}
    /\ UNCHANGED <<tr, di, li>>

\* a claim by a local runner, ahead of the first sign of it in D
LocalAhead ==
    /\ X.on
    /\ \E i \in di..(IF di + 12 <= Len(D) THEN di + 12 ELSE Len(D)) :
         /\ D[i].k = "lclaim"
         /\ D[i].sess = D[di].sess
         /\ T[D[i].t].p = "ready"
         /\ \E q \in R(D[i].qs) : Claim(D[i].t, q, "loc", 0, "", Now)
    /\ UNCHANGED <<tr, di, li, pend>>

\* ... or, for a task that leaves no other sign, ahead of its Started record
LocalL ==
    /\ li <= Len(L) /\ X.on
    /\ \E i \in li..(IF li + 8 <= Len(L) THEN li + 8 ELSE Len(L)) :
         LET r == L[i] IN
         /\ r.k = "S" /\ r.t # 0
         /\ ~cfg.hooks[r.t] /\ r.host = cfg.host /\ T[r.t].p = "ready"
         /\ \E q \in {0, 1} : Claim(r.t, q, "loc", 0, "", Now)
    /\ UNCHANGED <<tr, di, li, pend>>

\* a transaction that has been ended by the reaper is refused before its end shows elsewhere
SettleAhead ==
    /\ di <= Len(D) /\ X.on
    /\ D[di].k = "sret" /\ D[D[di].i].k \in {"end", "begun"} /\ D[D[di].i].code = 404
    /\ LET x == D[D[di].i].tx IN
       /\ Live(x)
       /\ \E i \in di..(IF di + 20 <= Len(D) THEN di + 20 ELSE Len(D)) :
            /\ D[i].k = "settle" /\ D[i].t = tx[x].t /\ D[i].s = -1
            /\ Settle(D[i].t, -1, D[i].v, D[i].quick, Now, D[i].tm, FALSE)
    /\ UNCHANGED <<tr, di, li, pend>>

-----------------------------------------------------------------------------
(* Refusals                                                                   *)

GoneOk(jid) == X.over \/ X.mode # "norm" \/ X.req # {} \/ jid \in canc

StartCode(c, now) ==
    CASE ~c.auth -> c.code \in {400, 401}
      [] c.jid = "none" -> c.code = 400
      [] c.q >= 64 -> c.code \in {404, 410}
      [] c.code = 200 -> TRUE
      [] c.code = 410 -> GoneOk(c.jid)
      [] c.code = 429 -> now - c.tm >= 29000
      [] c.code = -1 -> X.over \/ X.req # {} \/ X.mode = "hard"
      [] OTHER -> FALSE

NotLive(c) == ~Live(c.tx)

BegunCode(c) ==
    CASE ~c.auth -> c.code \in {400, 401}
      [] c.code = 404 -> NotLive(c)
      [] c.code = 400 -> c.jid = "none"
      [] c.code = 200 -> c.jid # "none"
      [] c.code = -1 -> X.over \/ X.req # {} \/ X.mode = "hard"
      [] OTHER -> FALSE

EndCode(c, now) ==
    CASE ~c.auth -> c.code \in {400, 401}
      [] c.jid = "none" -> c.code = 400
      [] c.code = 404 /\ c.q >= 64 -> TRUE
      [] c.code = 404 -> NotLive(c) \/ (c.tx \in DOMAIN tx /\ tx[c.tx].jid # c.jid)
      [] c.code = 200 -> TRUE
      [] c.code = 410 -> c.q >= 0 /\ GoneOk(c.jid)
      [] c.code = 429 -> c.q >= 0 /\ now - c.tm >= 29000
      [] c.code = -1 -> X.over \/ X.req # {} \/ X.mode = "hard"
      [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Long polls                                                                 *)

\* a pending long poll is answered when the etag has moved, or at its time-out, not before its minimum
PollOk(i, now, etag) ==
    LET c == D[i] IN
    /\ G("status", etag <= X.batch)
    /\ G("status", now - c.tm >= c.mn - 20 \/ X.mode # "norm" \/ X.req # {} \/ X.over)
    /\ G("status", etag > c.etag \/ now - c.tm >= c.to - 20 \/ X.mode # "norm" \/ X.req # {} \/ X.over)
    /\ G("late", now - c.tm <= Max(c.mn, c.to) + cfg.slack + 1000)
    /\ G("late", polls[i] >= 0 => now <= Max(polls[i], c.tm + c.mn) + cfg.slack + 1000)

-----------------------------------------------------------------------------
(* Consuming D                                                                *)

Adv == di' = di + 1 /\ UNCHANGED <<tr, li>>
NoPend == UNCHANGED pend

\* long polls whose etag has moved by the time of this item
Seen(now) == [p \in DOMAIN polls |-> IF polls[p] < 0 /\ X.batch > D[p].etag THEN now ELSE polls[p]]

DStep ==
    /\ di <= Len(D)
    /\ LET e == Item IN
       CASE e.k = "open" ->
              /\ OpenSession(e.fa, e.rerun, e.par, e.key)
              /\ \A t \in Tasks : G("resume", e.rc[t] = S'.rc[t])
              /\ \A t \in Tasks :
                   IF hist[t].s = "ok"
                   THEN G("ident", hist[t].r \in R(e.dirs[t].all) /\ e.dirs[t].rc = hist[t].rc)
                   ELSE G("ident", e.dirs[t].r = -1)
              /\ G("ident", e.rootsok)
              /\ G("ident", wk = "" => e.key = e.nk)
              /\ NoPend /\ Adv
         [] e.k = "add" -> AddUpto(e.n) /\ G("graph", e.ok) /\ NoPend /\ Adv
         [] e.k = "exec" -> Exec(e.tgt, e.rate) /\ NoPend /\ Adv
         [] e.k = "close" -> CloseSession /\ G("lock", ~e.lock) /\ li = e.li + 1 /\ NoPend /\ Adv
         [] e.k = "xret" ->
              /\ X.on /\ li = e.li + 1
              /\ \A <<i, f>> \in pend : FALSE
              /\ Return(e.order, e.nf)
              /\ G("late", X.mode = "hard" => (e.tm - X.treq <= e.prompt))
              /\ NoPend /\ Adv
         [] e.k \in {"start", "begun", "end", "mark", "status"} ->
              /\ X.on
              /\ pend' = pend \cup {<<di, f>> : f \in Effects(e) \cup Optional(e)}
              /\ UB /\ Adv
         [] e.k = "ping" ->
              /\ X.on
              /\ (IF e.auth THEN Ping(e.tx, e.tm) ELSE UB) /\ NoPend /\ Adv
         [] e.k = "sret" ->
              /\ X.on
              /\ \A f \in Effects(D[e.i]) : <<e.i, f>> \notin pend
              /\ pend' = {p \in pend : p[1] # e.i}
              /\ G(IF ~D[e.i].auth \/ D[e.i].jid = "none" THEN "tx" ELSE "code",
                   CASE D[e.i].k = "start" -> StartCode(D[e.i], e.tm)
                     [] D[e.i].k = "begun" -> BegunCode(D[e.i])
                     [] D[e.i].k = "end" -> EndCode(D[e.i], e.tm)
                     [] D[e.i].k = "mark" -> IF D[e.i].auth THEN D[e.i].code = 200 \/ (D[e.i].code = -1 /\ (X.over \/ X.req # {}))
                                             ELSE D[e.i].code \in {400, 401})
              /\ UB /\ Adv
         [] e.k = "pre" ->
              /\ X.on
              /\ T[e.t].p = "given"
              /\ G("hooks", T[e.t].pre = 0 /\ ~T[e.t].ls)
              /\ T' = [T EXCEPT ![e.t].pre = 1]
              /\ UNCHANGED <<cfg, hist, wk, S, X, tx, canc, polls>> /\ NoPend /\ Adv
         [] e.k = "lclaim" ->
              /\ X.on
              /\ (IF T[e.t].p = "ready" \/ T[e.t].by # "loc" THEN \E q \in R(e.qs) : Claim(e.t, q, "loc", 0, "", e.tm) ELSE UB)
              /\ NoPend /\ Adv
         [] e.k = "pstart" ->   \* a local task process runs
              /\ X.on
              /\ G("hooks", T[e.t].pre = 1 \/ ~cfg.hooks[e.t])
              /\ LocalStart(e.t) /\ NoPend /\ Adv
         [] e.k = "pexit" ->
              /\ X.on
              /\ LocalExit(e.t, e.s) /\ NoPend /\ Adv
         [] e.k = "settle" ->   \* the latest moment at which an unreported end can have happened
              /\ X.on
              /\ \/ /\ T[e.t].p = "given"
                    /\ \E dr \in {FALSE} \cup (IF e.s = -1 THEN {X.mode = "hard"} ELSE {}) : Settle(e.t, e.s, e.v, e.quick, e.tm, e.tm, dr)
                 \/ /\ T[e.t].p = "end" /\ UB
              /\ NoPend /\ Adv
         [] e.k = "post" ->
              /\ X.on
              /\ T[e.t].p = "end"
              /\ G("hooks", T[e.t].post = 0 /\ T[e.t].pre = 1)
              /\ G("hooks", (e.ok = 1) = (T[e.t].s = 0))
              /\ G("hooks", e.rc = S.rc[e.t] /\ e.n = Cardinality(X.sel))
              /\ T' = [T EXCEPT ![e.t].post = 1]
              /\ UNCHANGED <<cfg, hist, wk, S, X, tx, canc, polls>> /\ NoPend /\ Adv
         [] e.k = "req" -> Request(e.what, e.tm) /\ NoPend /\ Adv
         [] e.k = "qret" ->
              /\ <<e.i, "q">> \notin pend
              /\ UB /\ NoPend /\ Adv
         [] e.k = "rate" -> X' = [X EXCEPT !.rate = e.n] /\ NoPend /\ Adv
                            /\ UNCHANGED <<cfg, hist, wk, S, T, tx, canc, polls>>
         [] e.k = "poll" -> X.on /\ polls' = (di :> -1) @@ Seen(e.tm) /\ NoPend /\ Adv
                            /\ UNCHANGED <<cfg, hist, wk, S, X, T, tx, canc>>
         [] e.k = "pollret" ->
              /\ X.on
              /\ e.code = 200 => PollOk(e.i, e.tm, e.etag)
              /\ e.code # 200 => (X.over \/ X.req # {})
              /\ polls' = [p \in DOMAIN polls \ {e.i} |-> Seen(e.tm)[p]]
              /\ NoPend /\ Adv
              /\ UNCHANGED <<cfg, hist, wk, S, X, T, tx, canc>>
         [] e.k = "bad" -> G(e.g, FALSE) /\ UB /\ NoPend /\ Adv
         [] e.k = "crash" -> Crash /\ pend' = {} /\ li = e.li + 1 /\ Adv
                             /\ \A i \in 1..Len(e.must) : G("crash", hist[e.must[i]].s \in {"ok", "fail"})

-----------------------------------------------------------------------------
(* Consuming L                                                                *)

LAdv == li' = li + 1 /\ UNCHANGED <<tr, di, pend>>

Quick(t) == CASE T[t].by # "loc" /\ T[t].bi = <<>> -> {FALSE}
              [] T[t].q = "y" -> {TRUE}
              [] T[t].q = "n" -> {FALSE}
              [] OTHER -> {TRUE, FALSE}

LStep ==
    /\ li <= Len(L)
    /\ LET r == Rec IN
       CASE r.k = "H" -> LHeader(r.wk) /\ G("ident", r.ok) /\ LAdv
         [] r.k = "B" -> r.t # 0 /\ LBackref(r.t) /\ LAdv
         [] r.k = "R" -> r.t # 0 /\ LReady(r.t, r.rc, r.r, r.cmd) /\ LAdv
         [] r.k = "S" -> r.t # 0 /\ LStarted(r.t, r.host, r.pid, r.jid) /\ LAdv
         [] r.k = "F" -> r.t # 0 /\ (\E qk \in (IF r.s = 0 THEN {FALSE} ELSE Quick(r.t)) : LFinished(r.t, r.s, r.v, qk, Now)) /\ LAdv
         [] OTHER -> FALSE

\* A task without hooks: an end that no runner reported shows in the log only
\* (the tasks it enables are recorded as ready before its own Finished record)
SettleL ==
    /\ li <= Len(L) /\ X.on
    /\ \E i \in li..(IF li + 12 <= Len(L) THEN li + 12 ELSE Len(L)) :
         /\ \A j \in li..(i - 1) : L[j].k = "R"
         /\ "set" \in DOMAIN L[i]
         /\ LET r == L[i] IN
            /\ T[r.t].p = "given"
            /\ \E dr \in {FALSE} \cup (IF r.set.s = -1 THEN {X.mode = "hard"} ELSE {}) :
                  Settle(r.t, r.set.s, r.set.v, r.set.quick, Now, IF di <= Len(D) THEN D[di].tm ELSE Now, dr)
    /\ UNCHANGED <<tr, di, li, pend>>

\* Records of a session that was cut off: D is not compared, the records have to be well-formed
LLoose ==
    /\ li <= Len(L)
    /\ LET r == Rec
           upd(h, p) == hist' = [hist EXCEPT ![r.t] = h] /\ T' = [T EXCEPT ![r.t].p = p] /\ UNCHANGED <<wk, S>>
       IN
       /\ r.k \notin {"H", "X"} => r.t # 0
       /\ CASE r.k = "H" -> /\ G("ident", r.ok /\ (wk = "" \/ r.wk = wk))
                            /\ hist' = hist /\ wk' = r.wk
                            /\ S' = [NoSession EXCEPT !.rc = [t \in Tasks |-> RunCount(hist[t])]]
                            /\ T' = [t \in Tasks |-> Fresh("out")]
            [] r.k = "B" -> G("resume", LogOk(r.t) \/ (~Item.rerun /\ LogFail(r.t))) /\ UNCHANGED <<hist, wk, S, T>>
            [] r.k = "R" -> /\ G("log", T[r.t].p \in {"out", "ready"} \/ (~NonE(r.t) /\ T[r.t].p # "given"))
                            /\ G("resume", ~LogOk(r.t) /\ r.rc = S.rc[r.t])
                            /\ G("ident", r.r = cfg.root[r.t])
                            /\ upd([s |-> "ready", rc |-> r.rc, r |-> r.r], "ready")
            [] r.k = "S" -> /\ G("log", T[r.t].p = "ready")
                            /\ G("dep", \A d \in cfg.dep[r.t] : hist[d].s = "ok")
                            /\ upd([hist[r.t] EXCEPT !.s = "started"], "given")
            [] r.k = "F" -> /\ G("log", T[r.t].p = "given")
                            /\ G("crash", (r.s = 0 /\ "real" \in DOMAIN r) => r.real)
                            /\ upd([hist[r.t] EXCEPT !.s = IF r.s = 0 THEN "ok" ELSE "fail"], "ok")
            [] OTHER -> FALSE
    /\ LAdv
    /\ UNCHANGED <<cfg, X, tx, canc, polls>>

Loose == di <= Len(D) /\ Item.k = "crash"

-----------------------------------------------------------------------------
Accepted == di > Len(D) /\ li > Len(L)

\* Stop exploring a trace as soon as it is accepted: register tr is 1 then.
TNext ==
    /\ TLCGet(tr) = 0
    /\ \/ TakeHard /\ UNCHANGED <<tr, di, li, pend>>
       \/ TakeSoft /\ UNCHANGED <<tr, di, li, pend>>
       \/ LocalAhead
       \/ LocalL
       \/ SettleAhead
       \/ SettleL
       \/ \E p \in pend : Effect(p[1], p[2])
       \/ IF Loose THEN LLoose \/ DStep ELSE DStep \/ LStep

\* remember how far each trace got, for the report
Note ==
    /\ (IF di + li > TLCGet(1000 + tr) THEN TLCSet(1000 + tr, di + li) /\ TLCSet(2000 + tr, <<di, li>>) ELSE TRUE)
    /\ (IF Accepted /\ TLCGet(tr) = 0 THEN TLCSet(tr, 1) ELSE TRUE)

Setup == \A i \in 1..Len(Traces) : TLCSet(i, 0) /\ TLCSet(1000 + i, 0) /\ TLCSet(2000 + i, <<0, 0>>)
ASSUME Setup

Report ==
    /\ PrintT(<<"ACC", {i \in 1..Len(Traces) : TLCGet(i) = 1}>>)
    /\ \A i \in 1..Len(Traces) : TLCGet(i) = 1 \/ PrintT(<<"REJ", i, TLCGet(2000 + i)>>)

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
