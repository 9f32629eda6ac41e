-------------------------------- MODULE Worker -------------------------------
(* execgraph-remote: the worker as its controller and its tasks see it.        *)
(*                                                                             *)
(* A worker asks for work once.  Each assignment is announced with one begun   *)
(* after its process has been created, and concluded with one end after the    *)
(* process is gone; the answer to end brings the next assignment, if the       *)
(* worker asked for it.  A worker that gives up (refused, silence, scheduler)  *)
(* sends nothing more and exits when all its processes are gone.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
    ph,     \* fresh asking got ready telling running reporting over gone
    cur,    \* the current assignment (0: none)
    kid,    \* [pid, st, code]: the process of the assignment; st: none alive dead never
    told,   \* assignments announced
    rep     \* assignments concluded
wvars == <<ph, cur, kid, told, rep>>
NoKid == [pid |-> 0, st |-> "none", code |-> 0]
NotStartable == 13   \* status of a command that cannot be started
Active == {"got", "ready", "telling", "running", "reporting"}

WInit == ph = "fresh" /\ cur = 0 /\ kid = NoKid /\ told = {} /\ rep = {}

Ask == ph = "fresh" /\ ph' = "asking" /\ UNCHANGED <<cur, kid, told, rep>>
\* the answer to start, or to an end that asked for more
Assign(n) == ph \in {"asking", "reporting"} /\ ph' = "got" /\ cur' = n /\ kid' = NoKid /\ UNCHANGED <<told, rep>>
Spawn(p) == ph = "got" /\ ph' = "ready" /\ kid' = [pid |-> p, st |-> "alive", code |-> 0] /\ UNCHANGED <<cur, told, rep>>
CannotSpawn == ph = "got" /\ ph' = "ready" /\ kid' = [pid |-> 0, st |-> "never", code |-> NotStartable] /\ UNCHANGED <<cur, told, rep>>
KidEnds(c) == kid.st = "alive" /\ kid' = [kid EXCEPT !.st = "dead", !.code = c] /\ UNCHANGED <<ph, cur, told, rep>>
Tell == ph = "ready" /\ cur \notin told /\ ph' = "telling" /\ told' = told \cup {cur} /\ UNCHANGED <<cur, kid, rep>>
Told == ph = "telling" /\ ph' = "running" /\ UNCHANGED <<cur, kid, told, rep>>
Conclude(c) ==
    /\ ph = "running" /\ cur \notin rep /\ kid.st \in {"dead", "never"} /\ c = kid.code
    /\ ph' = "reporting" /\ rep' = rep \cup {cur} /\ UNCHANGED <<cur, kid, told>>
\* the scheduler has announced the end of the job: the task is told, and so is the controller
LastWords == ph = "running" /\ kid.st # "never" /\ cur \notin rep /\ ph' = "over" /\ rep' = rep \cup {cur} /\ UNCHANGED <<cur, kid, told>>
NoMore == ph = "reporting" /\ ph' = "over" /\ UNCHANGED <<cur, kid, told, rep>>
GiveUp == ph \notin {"over", "gone"} /\ ph' = "over" /\ UNCHANGED <<cur, kid, told, rep>>
Exit == ph = "over" /\ ph' = "gone" /\ UNCHANGED <<cur, kid, told, rep>>
=============================================================================
