------------------------------ MODULE SimTaskIO ------------------------------
(* Random programs with random inputs and random texts for descriptor 3.       *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
VARIABLES mode, tasks, cur, left, done
sv == <<mode, tasks, cur, left, done>>
Pick(S) == RandomElement(S)
Sizes == {0, 1, 2, 7, 100, 4095, 4096, 65535, 65536, 65537, 131073, 300000}
Outs == {1, 10, 65536, 65537, 200000}
Big == 2500000
Chars == {"a", "b", "=", "=", "sp", "tab", "'", "\"", "\\", "#", "$", "`", ";", "u", "nl", "cr", "*", "x"}
None == [n |-> -2]
Word(i) == <<Pick({"a", "b", "k", "u"}), "=", Pick({"a", "b", "1", "big1", "big2", "big3"})>>
Rand(i) == [j \in 1..Pick(1..12) |-> Pick(Chars)]
Text(k) ==
    CASE k <= 3 -> Word(1) \o <<"sp">> \o Word(2) \o <<"nl">>
      [] k = 4 -> Word(1) \o <<"nl">> \o Word(2)
      [] k = 5 -> <<"nl", "cr", "nl">> \o Word(1) \o <<"cr", "nl">>
      [] k = 6 -> Rand(1)
      [] k = 7 -> Word(1) \o <<"nl">> \o Rand(1) \o <<"nl">> \o Word(2) \o <<"nl">>
      [] k = 8 -> Rand(1) \o <<"bad">> \o Rand(2)
      [] k = 9 -> <<"k", "=", "'">> \o Rand(1)
      [] k = 10 -> <<"k", "=", "\"">> \o Rand(1) \o <<"\"">> \o Rand(2)
      [] OTHER -> Rand(1) \o <<"nl">> \o Rand(2) \o <<"nl">> \o Rand(3)
Init == mode = "" /\ tasks = <<>> /\ cur = None /\ left = 0 /\ done = FALSE
Begin == mode = "" /\ mode' \in {Pick({"local", "remote"})} /\ left' = Pick(5..9) /\ UNCHANGED <<tasks, cur, done>>
New ==
    /\ mode # "" /\ cur = None /\ left > 0 /\ left' = left - 1
    /\ \E a \in {Pick(1..14)}, fd \in {Pick({0, 4, 5, 8})}, s \in {Pick(Sizes)}, len \in {Pick(0..5)} :
         CASE a = 1 -> /\ tasks' = Append(tasks, [n |-> 10, fd |-> Pick({3, -1, 1000000}), start |-> FALSE, p |-> <<>>]) /\ UNCHANGED cur
           [] a = 2 -> /\ tasks' = Append(tasks, [n |-> -1, fd |-> 0, start |-> FALSE, p |-> <<>>]) /\ UNCHANGED cur
           [] a \in 3..6 -> /\ cur' = [n |-> -1, fd |-> 0, left |-> len, p |-> <<>>] /\ UNCHANGED tasks
           [] OTHER -> /\ cur' = [n |-> s, fd |-> fd, left |-> len, p |-> <<>>] /\ UNCHANGED tasks
    /\ UNCHANGED <<mode, done>>
Grow ==
    /\ cur # None /\ cur.left > 0
    /\ \E a \in {Pick(1..15)}, s \in {Pick(Sizes)}, o \in {Pick(Outs)}, k \in {Pick(1..12)} :
       \E x \in {Text(k)} :
         cur' = [cur EXCEPT !.left = @ - 1, !.p = Append(@,
             CASE a \in 1..2 /\ cur.n >= 0 -> [o |-> "rd", n |-> s]
               [] a \in 3..5 /\ cur.n >= 0 -> [o |-> "ra"]
               [] a = 6 /\ cur.n >= 0 -> [o |-> "ci"]
               [] a = 7 -> [o |-> "out", n |-> o]
               [] a = 8 -> [o |-> "err", n |-> o]
               [] a = 9 -> [o |-> "nap"]
               [] a = 10 /\ k = 1 -> [o |-> "c3"]
               [] a = 11 /\ k = 1 -> [o |-> "out", n |-> Big]
               [] OTHER -> [o |-> "val", x |-> x])]
    /\ UNCHANGED <<mode, tasks, left, done>>
Finish ==
    /\ cur # None /\ cur.left = 0
    /\ \E a \in {Pick(1..10)}, k \in {Pick(1..12)}, st \in {Pick({0, 0, 0, 0, 1, 3, 127, 255, -9, -15, -2})} :
       \E x \in {Text(k)} :
         tasks' = Append(tasks, [n |-> cur.n, fd |-> cur.fd, start |-> TRUE,
                                 p |-> (IF a = 1 THEN Append(cur.p, [o |-> "bg", x |-> x]) ELSE cur.p) \o <<[o |-> "exit", s |-> st]>>])
    /\ cur' = None /\ UNCHANGED <<mode, left, done>>
Emit == mode # "" /\ cur = None /\ left = 0 /\ ~done /\ done' = TRUE /\ PrintT("SCN " \o ToJson([mode |-> mode, tasks |-> tasks])) /\ UNCHANGED <<mode, tasks, cur, left>>
Next == Begin \/ New \/ Grow \/ Finish \/ Emit
SSpec == Init /\ [][Next]_sv
=============================================================================
