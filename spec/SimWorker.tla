------------------------------- MODULE SimWorker -----------------------------
(* Random behaviours of Worker, each written out as the script of a controller *)
(* (answers and moments of faults) and the programs of the tasks.              *)
EXTENDS Worker, Json, Randomization
VARIABLES cfg, tasks, t, fin
sv == <<wvars, cfg, tasks, t, fin>>
Pick(S) == RandomElement(S)
Codes == {400, 401, 404, 410, 429, 500, 503}
Init == WInit /\ cfg = [iv |-> 0] /\ tasks = <<>> /\ t = [x |-> 0] /\ fin = FALSE
Bad == IF Pick(1..3) = 1 THEN "drop" ELSE IF Pick(1..4) = 1 THEN "garbage" ELSE "refuse"
Ans(r, c) == [r |-> r, c |-> c, d |-> 0]
Configure ==
    /\ cfg.iv = 0
    /\ \E v \in {Pick(1..3)}, a \in {Pick(1..100)}, l \in {Pick(1..100)}, q \in {Pick({0, 2, 63})}, b \in {Pick(1..100)}, c \in {Pick(Codes)}, r \in {Bad}, dl \in {Pick({0, 0, 50, 300})} :
         /\ cfg' = [iv |-> <<300, 500, 5000>>[v], q |-> q, accept |-> (IF a <= 8 THEN 0 ELSE IF a <= 20 THEN Pick({1, 2}) ELSE IF a <= 25 THEN 100 ELSE -1),
                    limit |-> (IF l <= 15 THEN 1 ELSE IF l <= 20 THEN 2 ELSE IF l <= 25 THEN 100 ELSE -1),
                    start |-> (IF b <= 6 THEN Ans(r, c) ELSE IF b = 7 THEN Ans("silent", 0) ELSE [r |-> "ok", c |-> 0, d |-> dl]),
                    usr |-> (IF b >= 94 /\ dl > 0 THEN dl \div 2 ELSE -1)]
    /\ UNCHANGED <<wvars, tasks, t, fin>>
Start == cfg.iv > 0 /\ Ask /\ UNCHANGED <<cfg, tasks, t, fin>>
First == ph = "asking" /\ (IF cfg.start.r = "ok" THEN Assign(1) ELSE GiveUp) /\ UNCHANGED <<cfg, tasks, t, fin>>
\* the program of the assignment and what will happen to it
Program ==
    /\ ph = "got" /\ t.x = 0
    /\ \E f \in {Pick(1..100)}, st \in {Pick({0, 0, 0, 1, 3, 255, -9, -11, -15})}, tm \in {Pick({"die", "die", "h", "H", "i"})}, hs \in {Pick({0, 7, 143})},
         bg \in {Pick(1..100)}, dp \in {Pick(0..1)}, at \in {Pick({0, 50, 150, 400})}, d \in {Pick({0, 0, 20, 400, 900})}, pok \in {Pick(0..2)},
         c \in {Pick(Codes)}, r \in {Bad}, s \in {Pick(1..100)}, out \in {Pick({0, 0, 10, 300, 100000})}, anchor \in {Pick({"begun", "begun", "assign", "end"})},
         dl \in {Pick({0, 0, 0, 100, 700})}, hw \in {Pick({0, 100, 600})} :
         LET fault == CASE f <= 8 -> "pings" [] f <= 14 -> "pingbad" [] f <= 24 -> "slurm" [] f <= 30 -> "gone" [] f <= 36 -> "begun" [] f <= 38 -> "begunsilent"
                        [] f <= 46 -> "end" [] f <= 48 -> "endsilent" [] f <= 60 -> "usr1" [] f <= 64 -> "note" [] OTHER -> "no"
             \* a task may only be long if something is going to end it
             long == (fault \in {"pings", "pingbad", "slurm", "gone", "begun", "begunsilent"} /\ anchor # "end") \/ (cfg.limit \in {1, 2} /\ tm \in {"die", "h"} /\ fault = "no" /\ s <= 60)
             startable == s > 6 IN
         t' = [x |-> 1, startable |-> startable, fault |-> fault, dur |-> (IF long THEN (IF cfg.iv = 5000 THEN 60000 ELSE 20000) ELSE IF cfg.accept \in {1, 2} /\ d <= 20 THEN 850 + 1000 * cfg.accept ELSE d), status |-> (IF st = -15 /\ tm # "die" THEN 0 ELSE st), term |-> tm, hs |-> hs, hw |-> hw,
               bg |-> (IF bg <= 12 THEN "s" ELSE IF bg <= 20 THEN "si" ELSE IF bg <= 26 THEN "n" ELSE "-"), depth |-> dp, at |-> at, out |-> out, anchor |-> anchor,
               pok |-> pok, bad |-> Ans(r, c), dl |-> dl]
    /\ UNCHANGED <<wvars, cfg, tasks, fin>>
Born == t.x = 1 /\ (IF t.startable THEN Spawn(1) ELSE CannotSpawn) /\ UNCHANGED <<cfg, tasks, t, fin>>
SayBegun == Tell /\ UNCHANGED <<cfg, tasks, t, fin>>
BegunAns == ph = "telling" /\ (IF t.fault \in {"begun", "begunsilent"} THEN GiveUp ELSE Told) /\ UNCHANGED <<cfg, tasks, t, fin>>
Run ==
    /\ ph = "running"
    /\ IF t.startable /\ t.fault \in {"pings", "pingbad", "gone"} /\ t.dur > 10000 THEN GiveUp
       ELSE IF t.startable /\ t.fault = "slurm" /\ t.dur > 10000 THEN LastWords
       ELSE IF kid.st = "alive" THEN KidEnds(t.status) ELSE Conclude(kid.code)
    /\ UNCHANGED <<cfg, tasks, t, fin>>
Answer ==
    /\ ph = "reporting"
    /\ IF t.fault \in {"end", "endsilent", "usr1", "slurm", "gone", "pings", "pingbad"} \/ cfg.accept = 0 \/ cur = 3 THEN NoMore /\ UNCHANGED <<tasks, t>>
       ELSE \E m \in {Pick(1..3)} : IF m = 1 THEN NoMore /\ UNCHANGED <<tasks, t>> ELSE Assign(cur + 1) /\ tasks' = Append(tasks, t) /\ t' = [x |-> 0]
    /\ UNCHANGED <<cfg, fin>>
Done ==
    /\ ph = "over" /\ ~fin /\ fin' = TRUE
    /\ PrintT("SCN " \o ToJson([cfg |-> cfg, tasks |-> (IF t.x = 1 THEN Append(tasks, t) ELSE tasks)]))
    /\ UNCHANGED <<wvars, cfg, tasks, t>>
Next == Configure \/ Start \/ First \/ Program \/ Born \/ SayBegun \/ BegunAns \/ Run \/ Answer \/ Done
SSpec == Init /\ [][Next]_sv
=============================================================================
