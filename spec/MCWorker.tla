------------------------------- MODULE MCWorker ------------------------------
(* The worker with every controller, every task and every moment of a signal   *)
(* or scheduler message.  Broken: a worker that does something wrong.          *)
EXTENDS Worker
CONSTANTS MaxTasks, MaxBg, Broken
VARIABLES
    seq,      \* assignments made
    ping,     \* what the pings of the assignment meet: ok, bad (refused), none (silence)
    req,      \* what the request under way meets: none, wait, bad
    usr, msg, \* SIGUSR1 received; the scheduler has spoken
    more,     \* the end request asks for more
    bg,       \* background processes left by the tasks: pid -> "soft" | "hard" (does not heed SIGTERM)
    kidhard,  \* the task does not heed SIGTERM
    termed,   \* processes that have been sent SIGTERM while the worker is leaving
    silent    \* nothing more will ever be answered
vs == <<wvars, seq, ping, req, usr, msg, more, bg, kidhard, termed, silent>>
ovars == <<seq, ping, req, usr, msg, more, bg, kidhard, termed, silent>>
Init ==
    /\ WInit /\ seq = 0 /\ ping = "ok" /\ req = "none" /\ usr = FALSE /\ msg = FALSE /\ more = FALSE
    /\ bg = {} /\ kidhard = FALSE /\ termed = {} /\ silent = FALSE
Procs == (IF kid.st = "alive" THEN {<<0, "kid">>} ELSE {}) \cup bg
\* ---- the worker
W_Ask == Ask /\ req' = "wait" /\ UNCHANGED <<seq, ping, usr, msg, more, bg, kidhard, termed, silent>>
W_Spawn == \/ Spawn(cur) /\ \E h \in BOOLEAN : kidhard' = h /\ UNCHANGED <<seq, ping, req, usr, msg, more, bg, termed, silent>>
           \/ CannotSpawn /\ UNCHANGED ovars
W_Tell == Tell /\ req' = "wait" /\ UNCHANGED <<seq, ping, usr, msg, more, bg, kidhard, termed, silent>>
W_Report ==
    /\ \/ Conclude(kid.code)
       \/ Broken = "early" /\ ph = "running" /\ kid.st = "alive" /\ ph' = "reporting" /\ rep' = rep \cup {cur} /\ UNCHANGED <<cur, kid, told>>
    /\ req' = "wait" /\ more' = (~usr \/ Broken = "greedy") /\ UNCHANGED <<seq, ping, usr, msg, bg, kidhard, termed, silent>>
W_Last == msg /\ LastWords /\ UNCHANGED ovars
W_GiveUp == (req = "bad" \/ ping # "ok") /\ Broken # "deaf" /\ GiveUp /\ req' = "none" /\ UNCHANGED <<seq, ping, usr, msg, more, bg, kidhard, termed, silent>>
\* the way out: SIGTERM to all children, SIGKILL to those that do not heed it
W_Term(p) ==
    /\ ph = "over" /\ p \in Procs \ termed /\ termed' = termed \cup {p}
    /\ UNCHANGED <<wvars, seq, ping, req, usr, msg, more, bg, kidhard, silent>>
Hard(p) == IF p = <<0, "kid">> THEN kidhard ELSE p[2] = "hard"
Dies(p) ==
    /\ p \in termed /\ p \in Procs
    /\ (IF p = <<0, "kid">> THEN KidEnds(-15) /\ UNCHANGED bg ELSE bg' = bg \ {p} /\ UNCHANGED wvars)
    /\ UNCHANGED <<seq, ping, req, usr, msg, more, kidhard, termed, silent>>
W_Kill(p) == ph = "over" /\ Hard(p) /\ Dies(p)
W_Exit == Exit /\ (Procs = {} \/ Broken = "leave") /\ UNCHANGED ovars
Worker == W_Ask \/ W_Spawn \/ W_Tell \/ W_Report \/ W_Last \/ W_GiveUp \/ (\E p \in Procs : W_Term(p) \/ W_Kill(p)) \/ W_Exit
\* ---- the controller
AnsTask == ~silent /\ req = "wait" /\ (ph = "asking" \/ (ph = "reporting" /\ more)) /\ seq < MaxTasks
           /\ Assign(seq + 1) /\ seq' = seq + 1 /\ req' = "none" /\ UNCHANGED <<ping, usr, msg, more, bg, kidhard, termed, silent>>
AnsTold == ~silent /\ req = "wait" /\ Told /\ req' = "none" /\ UNCHANGED <<seq, ping, usr, msg, more, bg, kidhard, termed, silent>>
AnsNone == ~silent /\ req = "wait" /\ NoMore /\ req' = "none" /\ UNCHANGED <<seq, ping, usr, msg, more, bg, kidhard, termed, silent>>
AnsBad == req = "wait" /\ req' = "bad" /\ UNCHANGED <<wvars, seq, ping, usr, msg, more, bg, kidhard, termed, silent>>
PingBad == ph \in Active /\ ping = "ok" /\ ping' = "bad" /\ UNCHANGED <<wvars, seq, req, usr, msg, more, bg, kidhard, termed, silent>>
Silence == ~silent /\ silent' = TRUE /\ UNCHANGED <<wvars, seq, ping, req, usr, msg, more, bg, kidhard, termed>>
\* time runs out: a ping or a request has not been answered for too long
TooLong == silent /\ ((ph \in Active /\ ping = "ok" /\ ping' = "none" /\ UNCHANGED req) \/ (req = "wait" /\ req' = "bad" /\ UNCHANGED ping))
           /\ UNCHANGED <<wvars, seq, usr, msg, more, bg, kidhard, termed, silent>>
\* ---- tasks, signals, scheduler
KidDone == \E c \in {0, 3, -9} : KidEnds(c) /\ UNCHANGED ovars
Daemon == kid.st = "alive" /\ Cardinality(bg) < MaxBg /\ \E h \in {"soft", "hard"} : bg' = bg \cup {<<seq, h>>}
          /\ UNCHANGED <<wvars, seq, ping, req, usr, msg, more, kidhard, termed, silent>>
Heeds == \E p \in Procs : ~Hard(p) /\ Dies(p)
Usr == ~usr /\ usr' = TRUE /\ UNCHANGED <<wvars, seq, ping, req, msg, more, bg, kidhard, termed, silent>>
Msg == ~msg /\ msg' = TRUE /\ UNCHANGED <<wvars, seq, ping, req, usr, more, bg, kidhard, termed, silent>>
Env == AnsTask \/ AnsTold \/ AnsNone \/ AnsBad \/ PingBad \/ Silence \/ TooLong \/ KidDone \/ Daemon \/ Heeds \/ Usr \/ Msg
Next == (ph # "gone" /\ (Worker \/ Env)) \/ (ph = "gone" /\ UNCHANGED vs)
Spec == Init /\ [][Next]_vs /\ WF_vs(Worker) /\ WF_vs(Heeds) /\ WF_vs(TooLong) /\ WF_vs(KidDone)
        /\ WF_vs(\E p \in Procs : W_Term(p)) /\ WF_vs(\E p \in Procs : W_Kill(p)) /\ WF_vs(W_GiveUp) /\ WF_vs(W_Exit)
        /\ WF_vs(AnsTask \/ AnsTold \/ AnsNone \/ AnsBad)
\* ---- properties
Once == rep \subseteq told /\ told \subseteq 1..seq /\ (ph \in {"running", "reporting"} => cur \in told)
True_ == ph = "reporting" => kid.st \in {"dead", "never"}
AllConcluded == \A n \in 1..(cur - 1) : n \in rep /\ n \in told
Clean == ph = "gone" => Procs = {}
Asked == [][(ph' = "reporting" /\ ph = "running" /\ usr) => ~more']_vs
Gone == <>(ph = "gone")
=============================================================================
