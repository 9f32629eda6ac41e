------------------------------- MODULE LockFile ------------------------------
(* Who holds a log: the hand-over of the lock file between processes, one      *)
(* system call per step.                                                       *)
(*                                                                             *)
(* path: the inode that .wrk.lock names (0: none).  own[i]: who has flock()ed  *)
(* inode i (0: nobody).  A process opens or creates the file, locks it, checks *)
(* that the file it locked is still the one the path names, marks it, opens    *)
(* the log, and holds.  Closing it writes the log, removes the lock file, and  *)
(* closes.  A process can be killed at any moment.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Opens, Kills, Verify, Last
VARIABLES pc, ino, path, own, fresh, nopen, kills, dirty, lost, failed, trail
vars == <<pc, ino, path, own, fresh, nopen, kills, dirty, lost, failed, trail>>
Procs == 1..N
Init ==
    /\ pc = [p \in Procs |-> "idle"] /\ ino = [p \in Procs |-> 0] /\ path = 0 /\ own = <<>> /\ fresh = 1
    /\ nopen = [p \in Procs |-> 0] /\ kills = 0 /\ trail = <<>>
    /\ dirty = [p \in Procs |-> FALSE]  \* has records that are not in the log yet
    /\ lost = FALSE                     \* two processes held the log, or one wrote it without holding it
    /\ failed = [p \in Procs |-> FALSE] \* an attempt failed although nobody else was around
Go(p, s) == pc' = [pc EXCEPT ![p] = s]
Around(p) == \E q \in Procs \ {p} : pc[q] \notin {"idle", "dead"}

Holding == {"hold", "leave", "close"}
Call(p) == pc[p] = "idle" /\ nopen[p] < Opens /\ Go(p, "open") /\ nopen' = [nopen EXCEPT ![p] = @ + 1]
           /\ UNCHANGED <<ino, path, own, fresh, kills, dirty, lost, failed>>
OpenLock(p) ==
    /\ pc[p] = "open" /\ Go(p, "flock")
    /\ IF path = 0 THEN path' = fresh /\ fresh' = fresh + 1 /\ own' = Append(own, 0) /\ ino' = [ino EXCEPT ![p] = fresh]
       ELSE ino' = [ino EXCEPT ![p] = path] /\ UNCHANGED <<path, fresh, own>>
    /\ UNCHANGED <<nopen, kills, dirty, lost, failed>>
Flock(p) ==
    /\ pc[p] = "flock"
    /\ IF own[ino[p]] = 0
       THEN own' = [own EXCEPT ![ino[p]] = p] /\ Go(p, IF Verify THEN "stat" ELSE "mark") /\ UNCHANGED failed
       ELSE Go(p, "idle") /\ failed' = [failed EXCEPT ![p] = @ \/ ~Around(p)] /\ UNCHANGED own
    /\ UNCHANGED <<ino, path, fresh, nopen, kills, dirty, lost>>
Stat(p) == pc[p] = "stat" /\ Go(p, "verify") /\ UNCHANGED <<ino, path, own, fresh, nopen, kills, dirty, lost, failed>>
\* the file that was locked must still be the one that the path names
Check(p) ==
    /\ pc[p] = "verify"
    /\ IF path = ino[p] THEN Go(p, "mark") /\ UNCHANGED own
       ELSE Go(p, "open") /\ own' = [own EXCEPT ![ino[p]] = 0]
    /\ UNCHANGED <<ino, path, fresh, nopen, kills, dirty, lost, failed>>
Mark(p) == pc[p] = "mark" /\ Go(p, "openlog") /\ UNCHANGED <<ino, path, own, fresh, nopen, kills, dirty, lost, failed>>
Hold(p) ==
    /\ pc[p] = "openlog" /\ Go(p, "hold") /\ dirty' = [dirty EXCEPT ![p] = TRUE]
    /\ lost' = (lost \/ \E q \in Procs \ {p} : pc[q] \in Holding)
    /\ UNCHANGED <<ino, path, own, fresh, nopen, kills, failed>>
CallClose(p) == pc[p] = "hold" /\ Go(p, "leave") /\ UNCHANGED <<ino, path, own, fresh, nopen, kills, dirty, lost, failed>>
\* closing: Last says whether the log is written before the lock file goes away
WriteLog(p) ==
    /\ pc[p] = (IF Last THEN "leave" ELSE "unlinked") /\ dirty[p]
    /\ dirty' = [dirty EXCEPT ![p] = FALSE] /\ Go(p, IF Last THEN "close" ELSE "closed")
    /\ lost' = (lost \/ \E q \in Procs \ {p} : pc[q] \in Holding \/ dirty[q])
    /\ UNCHANGED <<ino, path, own, fresh, nopen, kills, failed>>
Unlink(p) ==
    /\ pc[p] = (IF Last THEN "close" ELSE "leave")
    /\ path' = 0 /\ Go(p, IF Last THEN "closed" ELSE "unlinked")
    /\ UNCHANGED <<ino, own, fresh, nopen, kills, dirty, lost, failed>>
CloseLog(p) == pc[p] = "closed" /\ Go(p, "closelock") /\ UNCHANGED <<ino, path, own, fresh, nopen, kills, dirty, lost, failed>>
Close(p) ==
    /\ pc[p] = "closelock" /\ Go(p, "idle") /\ own' = [own EXCEPT ![ino[p]] = 0]
    /\ UNCHANGED <<ino, path, fresh, nopen, kills, dirty, lost, failed>>
\* killed: the kernel releases the lock, the lock file stays
Kill(p) ==
    /\ kills < Kills /\ pc[p] \notin {"idle", "dead"} /\ kills' = kills + 1
    /\ Go(p, "dead") /\ dirty' = [dirty EXCEPT ![p] = FALSE]
    /\ own' = [i \in DOMAIN own |-> IF own[i] = p THEN 0 ELSE own[i]]
    /\ UNCHANGED <<ino, path, fresh, nopen, lost, failed>>
Act(p) == Call(p) \/ OpenLock(p) \/ Flock(p) \/ Stat(p) \/ Check(p) \/ Mark(p) \/ Hold(p) \/ CallClose(p) \/ CloseLog(p) \/ WriteLog(p) \/ Unlink(p) \/ Close(p)
Next == \E p \in Procs : \/ Act(p) /\ trail' = trail
                         \/ Kill(p) /\ trail' = trail
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Act(p) /\ trail' = trail)

\* C09
Mutex == ~lost /\ Cardinality({p \in Procs : pc[p] \in Holding}) <= 1
\* no attempt fails if nobody else has the log or is opening or closing it
Available == \A p \in Procs : ~failed[p]
Inv == Mutex /\ Available
\* every attempt ends, and every holder gets rid of the log
Ends == \A p \in Procs : pc[p] # "idle" ~> pc[p] \in {"idle", "dead"}
=============================================================================
