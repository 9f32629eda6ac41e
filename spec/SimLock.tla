------------------------------- MODULE SimLock -------------------------------
(* Schedules: which process makes the next step, and who gets killed when.     *)
EXTENDS LockFile, Json, Randomization
VARIABLE done
Quiet == \A p \in Procs : pc[p] = "dead" \/ (pc[p] = "idle" /\ nopen[p] = Opens)
SNext == \/ ~Quiet /\ UNCHANGED done /\ \E p \in Procs :
              \/ Act(p) /\ trail' = Append(trail, p)
              \/ RandomElement(1..12) = 1 /\ Kill(p) /\ trail' = Append(trail, -p)
         \/ Quiet /\ ~done /\ done' = TRUE /\ PrintT("SCN " \o ToJson([trail |-> trail])) /\ UNCHANGED vars
SSpec == Init /\ done = FALSE /\ [][SNext]_<<vars, done>>
\* all of them: as a breadth-first search, trail makes every path a state of its own
ANext == \/ ~Quiet /\ UNCHANGED done /\ \E p \in Procs :
              \/ Act(p) /\ trail' = Append(trail, p)
              \/ Kill(p) /\ trail' = Append(trail, -p)
         \/ Quiet /\ ~done /\ done' = TRUE /\ PrintT("SCN " \o ToJson([trail |-> trail])) /\ UNCHANGED vars
ASpec == Init /\ done = FALSE /\ [][ANext]_<<vars, done>>
=============================================================================
