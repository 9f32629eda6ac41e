----------------------------- MODULE TraceLogView ----------------------------
(* Is every answer of load_logfile() the view of the log it was asked about?   *)
EXTENDS LogView, Json, IOUtils
CONSTANT Relaxed
VARIABLES tr, di
Traces == JsonDeserialize(IOEnv.TRACES)
D == Traces[tr].D
TInit == LInit /\ tr \in 1..Len(Traces) /\ di = 1
TNext ==
    /\ di <= Len(D)
    /\ LET e == D[di] IN View(e.log, e.all, e.cur, e.old)
    /\ di' = di + 1 /\ UNCHANGED <<tr, log, done, ok, bad, st>>
Accepted == di > Len(D)
Note ==
    /\ (IF di > TLCGet(1000 + tr) THEN TLCSet(1000 + tr, di) /\ TLCSet(2000 + tr, <<di, 0>>) ELSE TRUE)
    /\ (IF Accepted THEN TLCSet(tr, 1) ELSE TRUE)
Setup == \A i \in 1..Len(Traces) : TLCSet(i, 0) /\ TLCSet(1000 + i, 0) /\ TLCSet(2000 + i, <<0, 0>>)
ASSUME Setup
Report ==
    /\ PrintT(<<"ACC", {i \in 1..Len(Traces) : TLCGet(i) = 1}>>)
    /\ \A i \in 1..Len(Traces) : TLCGet(i) = 1 \/ PrintT(<<"REJ", i, TLCGet(2000 + i)>>)
TSpec == TInit /\ [][TNext]_<<log, done, ok, bad, st, tr, di>>
=============================================================================
