------------------------------ MODULE TraceWorker ----------------------------
(* Recorded sessions of execgraph-remote with a scripted controller, against   *)
(* Worker.  Times are milliseconds since the worker was started.               *)
EXTENDS Worker, Json, IOUtils
CONSTANT Relaxed
VARIABLES tr, di,
    at,       \* when the assignment was made, begun answered, the task ended
    lastp,    \* last ping received; last pong sent
    why,      \* since when there has been a definite reason to give up (-1: none)
    due,      \* by when the worker has to do something next
    usr, msg, \* when SIGUSR1 was sent, when the scheduler announced the end (-1)
    more,     \* what the end under way asked for
    terms,    \* SIGTERMs the current process has noticed
    gone,     \* when the controller disappeared
    seen      \* assignments whose process has reported itself
tvars == <<wvars, tr, di, at, lastp, why, due, usr, msg, more, terms, gone, seen>>
xvars == <<at, lastp, why, due, usr, msg, more, terms, gone, seen>>
Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
D == T.D
C == T.cfg
Slack == C.slack
M == C.margin
e == D[di]
Req == 60000               \* how long a request may go unanswered
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Far == 2000000000
Task(n) == C.tasks[n]

TInit ==
    /\ WInit /\ tr \in 1..Len(Traces) /\ di = 1
    /\ at = [got |-> 0, run |-> 0, dead |-> 0, req |-> 0] /\ lastp = [ping |-> 0, pong |-> 0] /\ why = -1 /\ due = Slack
    /\ usr = -1 /\ msg = -1 /\ more = FALSE /\ terms = 0 /\ gone = -1 /\ seen = {}

Adv == di' = di + 1 /\ UNCHANGED tr
\* ---- time
Pinging == ph \in Active /\ gone < 0
\* silence counts as a reason as soon as two intervals have passed
Since == LET a == IF why < 0 THEN Far ELSE why
             b == IF ph \in Active THEN lastp.pong + 2 * C.iv ELSE Far
             c == IF ph \in {"asking", "telling", "reporting"} THEN at.req + Req ELSE Far
             d == IF gone < 0 THEN Far ELSE gone + C.iv IN
         Min(Min(a, b), Min(c, d))
MayQuit == why >= 0 \/ gone >= 0 \/ e.t >= Since - M
\* a worker that has had a reason for long says nothing any more; one that has none is not late
Timely ==
    /\ e.t <= (IF ph = "over" THEN due ELSE Min(due, Since + Slack)) + (IF ph = "over" \/ MayQuit THEN C.kill ELSE 0)
    /\ Pinging /\ Since > e.t => e.t <= Max(lastp.ping, at.got) + C.iv + Max(C.iv, 700)
Speaks == e.t <= Since + Slack
Setdue(x) == due' = x
KidDue ==
    LET d == Task(cur).dur IN
    Slack + (IF kid.st \in {"dead", "never"} \/ msg >= 0 THEN e.t
             ELSE IF C.limit >= 0 /\ Task(cur).term \in {"die", "h"} THEN Min(e.t + d, Max(e.t, C.limit) + Task(cur).hw)
             ELSE e.t + d)

\* ---- what the worker says
Sane == e.auth /\ e.jid
Started == e.k = "start" /\ Sane /\ e.faithful /\ Ask /\ at' = [at EXCEPT !.req = e.t] /\ Setdue(Far) /\ UNCHANGED <<lastp, why, usr, msg, more, terms, gone, seen>>
Begun ==
    /\ e.k = "begun" /\ Sane /\ e.i = cur /\ Speaks /\ e.host
    /\ ph = "ready" /\ Tell /\ e.pid = kid.pid /\ at' = [at EXCEPT !.req = e.t] /\ Setdue(Far)
    /\ UNCHANGED <<lastp, why, usr, msg, more, terms, gone, seen>>
\* the process has been created before the worker says so
Create ==
    /\ ph = "got"
    /\ \/ e.k = "begun" /\ e.i = cur /\ (IF Task(cur).startable THEN e.pid > 0 /\ Spawn(e.pid) ELSE CannotSpawn)
       \/ e.k = "S" /\ e.i = cur /\ Task(cur).startable /\ Spawn(e.pid)
    /\ terms' = 0
    /\ UNCHANGED <<tr, di, at, lastp, why, due, usr, msg, more, gone, seen>>
Ping ==
    /\ e.k = "ping" /\ Sane
    /\ \/ ph \in Active /\ e.i = cur
       \/ e.i \in 1..cur /\ e.t <= at.req + Slack      \* on its way when the assignment ended
       \/ ph \in {"over"} /\ e.i = cur /\ e.t <= Since + Slack
    /\ lastp' = [lastp EXCEPT !.ping = IF e.i = cur THEN e.t ELSE @]
    /\ UNCHANGED <<wvars, at, why, due, usr, msg, more, terms, gone, seen>>
\* whether the worker may, must or must not ask for more with the end of a task
MoreOk ==
    /\ ((usr >= 0 /\ usr + M < e.t) \/ (C.accept >= 0 /\ C.accept + M < e.t)) => ~e.more
    /\ ((usr < 0) /\ (C.accept < 0 \/ e.t < C.accept - M)) => e.more
\* the message about the time limit is there if the task was told
LimitOk ==
    /\ e.lim => C.limit >= 0 /\ e.t >= C.limit - M
    /\ (~e.lim /\ C.limit >= 0 /\ kid.st = "dead") => at.dead <= Max(C.limit, at.run) + M
End ==
    /\ e.k = "end" /\ Sane /\ e.i = cur /\ ~e.last /\ e.faithful /\ LimitOk /\ MoreOk /\ Speaks
    /\ Conclude(e.status) /\ more' = e.more /\ at' = [at EXCEPT !.req = e.t] /\ Setdue(Far)
    /\ UNCHANGED <<lastp, why, usr, msg, terms, gone, seen>>
\* the scheduler's message instead of the task's own end
Last ==
    /\ e.k = "end" /\ Sane /\ e.i = cur /\ e.last /\ e.status = -15 /\ ~e.more /\ msg >= 0 /\ Speaks
    /\ LastWords /\ at' = [at EXCEPT !.req = e.t] /\ Setdue(e.t + Req + Slack) /\ more' = FALSE
    /\ UNCHANGED <<lastp, why, usr, msg, terms, gone, seen>>
\* ---- what the controller says
AnsOk ==
    /\ e.k = "ans" /\ e.r = "ok"
    /\ CASE e.to = "start" -> Assign(e.next) /\ lastp' = [ping |-> e.t, pong |-> e.t] /\ at' = [at EXCEPT !.got = e.t] /\ Setdue(e.t + Slack)
         [] e.to = "begun" -> /\ IF ph = "telling" THEN Told ELSE UNCHANGED wvars
                              /\ at' = [at EXCEPT !.run = e.t] /\ Setdue(KidDue) /\ UNCHANGED lastp
         [] e.to = "end" /\ e.next > 0 -> Assign(e.next) /\ more /\ lastp' = [ping |-> e.t, pong |-> e.t] /\ at' = [at EXCEPT !.got = e.t] /\ Setdue(e.t + Slack)
         [] e.to = "end" /\ e.next = 0 -> (IF ph = "reporting" THEN NoMore ELSE UNCHANGED wvars) /\ Setdue(e.t + Slack + C.kill) /\ UNCHANGED <<lastp, at>>
         [] OTHER -> lastp' = [lastp EXCEPT !.pong = IF e.i = cur THEN e.t ELSE @] /\ UNCHANGED <<wvars, at, due>>
    /\ UNCHANGED <<why, usr, msg, more, terms, gone, seen>>
\* an answer that a worker that had a reason to give up has not waited for
AnsLost == e.k = "ans" /\ MayQuit /\ GiveUp /\ due' = Min(due, Since + Slack) /\ UNCHANGED <<at, lastp, why, usr, msg, more, terms, gone, seen>>
\* a refusal or a broken connection: the worker gives up (an answer to a ping of an earlier assignment means nothing)
AnsBad ==
    /\ e.k = "ans" /\ e.r # "ok"
    /\ IF e.to = "ping" /\ (e.i # cur \/ ph \notin Active) THEN UNCHANGED <<why, due>>
       ELSE /\ why' = (IF why < 0 THEN e.t ELSE why) /\ Setdue(Min(due, e.t + Slack + C.kill))
    /\ UNCHANGED <<wvars, at, lastp, usr, msg, more, terms, gone, seen>>
Env ==
    /\ \/ e.k = "usr1" /\ usr' = (IF usr < 0 THEN e.t ELSE usr) /\ UNCHANGED <<msg, gone>>
       \/ e.k = "slurm" /\ msg' = (IF msg < 0 THEN e.t ELSE msg) /\ UNCHANGED <<usr, gone>>
       \/ e.k = "note" /\ UNCHANGED <<usr, msg, gone>>
       \/ e.k = "gone" /\ gone' = (IF gone < 0 THEN e.t ELSE gone) /\ UNCHANGED <<usr, msg>>
    /\ due' = (IF e.k = "slurm" /\ ph = "running" /\ kid.st # "never" THEN Min(due, e.t + Slack) ELSE due)
    /\ UNCHANGED <<wvars, at, lastp, why, more, terms, seen>>
\* ---- the tasks
Born ==
    /\ e.k = "S" /\ e.i = cur /\ e.i \notin seen /\ kid.st = "alive" /\ kid.pid = e.pid /\ ~e.token
    /\ seen' = seen \cup {e.i} /\ UNCHANGED <<wvars, at, lastp, why, due, usr, msg, more, terms, gone>>
Ends ==
    /\ e.k = "E" /\ e.i = cur /\ e.pid = kid.pid /\ KidEnds(e.a)
    /\ at' = [at EXCEPT !.dead = e.t] /\ Setdue(IF ph = "running" THEN e.t + Slack ELSE due)
    /\ UNCHANGED <<lastp, why, usr, msg, more, terms, gone, seen>>
\* without a word: SIGTERM at the time limit
Dies ==
    /\ e.k = "end" /\ e.i = cur /\ ~e.last /\ e.status = -15 /\ kid.st = "alive" /\ (Task(cur).term = "die" \/ cur \notin seen) /\ C.limit >= 0 /\ e.t >= C.limit - M /\ e.lim
    /\ KidEnds(-15) /\ at' = [at EXCEPT !.dead = Max(C.limit, at.run)] /\ UNCHANGED <<tr, di, lastp, why, due, usr, msg, more, terms, gone, seen>>
\* the reasons to send a task SIGTERM, each of which does so once
Allowed == (IF C.limit >= 0 /\ e.t >= C.limit - M THEN 1 ELSE 0) + (IF msg >= 0 THEN 1 ELSE 0) + (IF ph = "over" \/ MayQuit THEN 1 ELSE 0)
Term == e.k = "T" /\ e.pid = kid.pid /\ terms < Allowed /\ terms' = terms + 1 /\ UNCHANGED <<wvars, at, lastp, why, due, usr, msg, more, gone, seen>>
Bg == e.k \in {"P", "Q"} /\ UNCHANGED <<wvars, xvars>>
\* ---- the end
Leave == e.k = "exit" /\ ph # "over" /\ MayQuit /\ GiveUp /\ UNCHANGED <<tr, di, xvars>>
Out == e.k = "exit" /\ Exit /\ e.left = 0 /\ e.code >= 0 /\ UNCHANGED xvars
Silent == Create \/ Dies \/ Leave
Visible == Started \/ Begun \/ Ping \/ End \/ Last \/ AnsOk \/ AnsLost \/ AnsBad \/ Env \/ Born \/ Ends \/ Term \/ Bg \/ Out
TNext == di <= Len(D) /\ (("time" \in Relaxed) \/ Timely) /\ (Silent \/ (Visible /\ Adv))
Accepted == di > Len(D) /\ ph = "gone"
Note ==
    /\ (IF di > TLCGet(1000 + tr) THEN TLCSet(1000 + tr, di) /\ TLCSet(2000 + tr, <<di, 0>>) ELSE TRUE)
    /\ (IF Accepted THEN TLCSet(tr, 1) ELSE TRUE)
Setup == \A i \in 1..Len(Traces) : TLCSet(i, 0) /\ TLCSet(1000 + i, 0) /\ TLCSet(2000 + i, <<0, 0>>)
ASSUME Setup
Report ==
    /\ PrintT(<<"ACC", {i \in 1..Len(Traces) : TLCGet(i) = 1}>>)
    /\ \A i \in 1..Len(Traces) : TLCGet(i) = 1 \/ PrintT(<<"REJ", i, TLCGet(2000 + i)>>)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
