----------------------------- MODULE TraceTaskIO -----------------------------
(* What became of the tasks of an execution, against TaskIO.                   *)
(* D[i]: task i = [start, p, n, starts, reads, status, maps, out, err, fins]   *)
EXTENDS TaskIO, Json, IOUtils
CONSTANT Relaxed
VARIABLES tr, di
Traces == JsonDeserialize(IOEnv.TRACES)
D == Traces[tr].D
tv == <<tr, di>>
G(g, P) == g \in Relaxed \/ P
\* a map as it was recorded: a sequence of [k, v]
AsMap(m) == {<<m[i].k, m[i].v>> : i \in 1..Len(m)}
AsMaps(ms) == [i \in 1..Len(ms) |-> AsMap(ms[i])]

Fine(e) ==
    IF ~e.start THEN
        /\ G("ends", e.fins = 1) /\ G("status", e.status # 0) /\ G("values", e.maps = <<>>)
    ELSE
        /\ G("ends", e.starts = 1 /\ e.fins = 1)
        /\ G("status", e.status = Status(e.p))
        /\ G("input", /\ [i \in 1..Len(e.reads) |-> [n |-> e.reads[i].n, eof |-> e.reads[i].eof]] = Reads(e.p, e.n)
                      /\ \A i \in 1..Len(e.reads) : e.reads[i].ok = 1)
        /\ G("values", AsMaps(e.maps) = Maps(Text(e.p)))
        /\ G("output", e.out = Total(e.p, "out") /\ e.err = Total(e.p, "err"))
TInit == tr \in 1..Len(Traces) /\ di = 1
TNext == di <= Len(D) /\ Fine(D[di]) /\ di' = di + 1 /\ UNCHANGED tr
Accepted == di > Len(D)
Note ==
    /\ (IF di > TLCGet(1000 + tr) THEN TLCSet(1000 + tr, di) /\ TLCSet(2000 + tr, <<di, 0>>) ELSE TRUE)
    /\ (IF Accepted THEN TLCSet(tr, 1) ELSE TRUE)
Setup == \A i \in 1..Len(Traces) : TLCSet(i, 0) /\ TLCSet(1000 + i, 0) /\ TLCSet(2000 + i, <<0, 0>>)
ASSUME Setup
Report ==
    /\ PrintT(<<"ACC", {i \in 1..Len(Traces) : TLCGet(i) = 1}>>)
    /\ \A i \in 1..Len(Traces) : TLCGet(i) = 1 \/ PrintT(<<"REJ", i, TLCGet(2000 + i)>>)
TSpec == TInit /\ [][TNext]_tv
=============================================================================
