------------------------------ MODULE TraceGraph -----------------------------
(* Do recorded add_task calls, with everything visible after each, agree with  *)
(* Graph?                                                                      *)
EXTENDS Graph, Json, IOUtils
CONSTANT Relaxed
VARIABLES tr, di
Traces == JsonDeserialize(IOEnv.TRACES)
D == Traces[tr].D
TInit == GInit /\ tr \in 1..Len(Traces) /\ di = 1
TNext ==
    /\ di <= Len(D)
    /\ LET e == D[di] IN
       CASE e.k = "open" -> g' = <<>> /\ res' = NoRes
         [] e.k = "add" ->
              /\ Add(e.key, e.cmd, e.empty, e.deps)
              /\ e.id = res'.id
              /\ (e.err # "") = res'.err
              /\ e.n = Len(g')
              /\ e.keys = [i \in 1..Len(g') |-> g'[i].key]
              /\ e.cmds = [i \in 1..Len(g') |-> g'[i].cmd]
              /\ e.oob
    /\ di' = di + 1 /\ UNCHANGED tr
li == 0
Accepted == di > Len(D)
Note ==
    /\ (IF di > TLCGet(1000 + tr) THEN TLCSet(1000 + tr, di) /\ TLCSet(2000 + tr, <<di, 0>>) ELSE TRUE)
    /\ (IF Accepted THEN TLCSet(tr, 1) ELSE TRUE)
Setup == \A i \in 1..Len(Traces) : TLCSet(i, 0) /\ TLCSet(1000 + i, 0) /\ TLCSet(2000 + i, <<0, 0>>)
ASSUME Setup
Report ==
    /\ PrintT(<<"ACC", {i \in 1..Len(Traces) : TLCGet(i) = 1}>>)
    /\ \A i \in 1..Len(Traces) : TLCGet(i) = 1 \/ PrintT(<<"REJ", i, TLCGet(2000 + i)>>)
TSpec == TInit /\ [][TNext]_<<g, res, tr, di>>
=============================================================================
