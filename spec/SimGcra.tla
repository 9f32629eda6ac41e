------------------------------- MODULE SimGcra -------------------------------
(* Random patterns of requests, idle times and changes of the limit.           *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
VARIABLES mode, rate, steps, left, done
sv == <<mode, rate, steps, left, done>>
Pick(S) == RandomElement(S)
Some == {1, 2, 3, 4, 5, 7, 10, 13, 20}
Init == mode = "" /\ rate = 0 /\ steps = <<>> /\ left = 0 /\ done = FALSE
Begin == mode = "" /\ mode' = Pick({"remote", "remote", "remote", "local", "mixed"}) /\ rate' = Pick(Some) /\ left' = Pick(2..7) /\ UNCHANGED <<steps, done>>
Step ==
    /\ mode # "" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<mode, rate, done>>
    /\ \E r \in {Pick(1..10)}, n \in {Pick(1..12)}, m \in {Pick({300, 1000, 1500, 3000, 8000})}, z \in {Pick({0} \cup Some)} :
         steps' = Append(steps, CASE r <= 5 -> [op |-> "burst", n |-> n]
                                  [] r <= 8 -> [op |-> "idle", n |-> m]
                                  [] OTHER -> [op |-> "rate", n |-> z])
Emit == mode # "" /\ left = 0 /\ ~done /\ done' = TRUE /\ PrintT("SCN " \o ToJson([mode |-> mode, rate |-> rate, steps |-> steps])) /\ UNCHANGED <<mode, rate, steps, left>>
Next == Begin \/ Step \/ Emit
SSpec == Init /\ [][Next]_sv
=============================================================================
