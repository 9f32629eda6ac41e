------------------------------- MODULE SimGraph ------------------------------
(* Random sequences of add_task calls with the graph they must build.          *)
EXTENDS Graph, Json, Randomization
VARIABLES calls, done
sv == <<g, res, calls, done>>
Keys == {"a", "b", "c", "d", "e", "f", "", "a b", "ä", "k\n1", "h", "i"}
Pick(S) == RandomElement(S)
Init == GInit /\ calls = <<>> /\ done = FALSE
Dep == IF Len(g) = 0 \/ Pick(1..10) = 1 THEN Pick({Len(g), Len(g) + 1, 1000, 2147483647}) ELSE Pick(0..(Len(g) - 1))
Step ==
    /\ Len(calls) < 14 /\ ~done
    /\ \E k \in {Pick(Keys)}, e \in {Pick(1..8) = 1}, d \in {[i \in 1..Pick(0..3) |-> Dep]} :
          /\ Add(k, Len(calls), e, d)
          /\ calls' = Append(calls, [key |-> k, empty |-> e, deps |-> d, acc |-> Len(g') > Len(g), n |-> Len(g')])
    /\ UNCHANGED done
Emit == Len(calls) = 14 /\ ~done /\ done' = TRUE /\ PrintT("SCN " \o ToJson([calls |-> calls,
          graph |-> [i \in 1..Len(g) |-> [key |-> g[i].key, deps |-> g[i].deps]]])) /\ UNCHANGED <<g, res, calls>>
Next == Step \/ Emit
SSpec == Init /\ [][Next]_sv
=============================================================================
