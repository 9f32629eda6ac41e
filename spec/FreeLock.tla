------------------------------ MODULE FreeLock -------------------------------
(* Schedules that do not depend on what the steps are: process 1 makes a       *)
(* steps, 2 makes b, 1 makes c, then (or 3) d, and then everybody finishes.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS A, B, C, Third
VARIABLES t, done
Rep(p, n) == [i \in 1..n |-> p]
Init == /\ done = FALSE
        /\ \E a \in 0..A, b \in 1..B, c \in 0..C : t = Rep(1, a) \o Rep(2, b) \o (IF Third THEN Rep(3, c) ELSE Rep(1, c))
Next == ~done /\ done' = TRUE /\ UNCHANGED t /\ PrintT("SCN " \o ToJson([trail |-> t]))
ASpec == Init /\ [][Next]_<<t, done>>
=============================================================================
