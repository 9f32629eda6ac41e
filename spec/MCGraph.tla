------------------------------- MODULE MCGraph -------------------------------
(* Every sequence of up to Len calls over a few keys and dependency lists.     *)
EXTENDS Graph
CONSTANTS Calls, Keys
VARIABLE n
Lists == {<<>>} \cup {<<a>> : a \in 0..3} \cup {<<a, b>> : a \in 0..3, b \in 0..3}
Init == GInit /\ n = 0
Next == n < Calls /\ n' = n + 1 /\ \E k \in Keys, e \in BOOLEAN, d \in Lists : Add(k, n, e, d)
Spec == Init /\ [][Next]_<<g, res, n>>
Inv == Acyclic /\ Unique /\ (res.err => res.id = -1)
\* a rejected key can be added correctly afterwards
Retry == \A k \in Keys : (IdOf(k) < 0 /\ n < Calls) => ENABLED (\E d \in {<<>>} : n < Calls /\ n' = n + 1 /\ Add(k, n, FALSE, d) /\ Len(g') = Len(g) + 1)
Stays == [][\A i \in 1..Len(g) : i <= Len(g') /\ g'[i] = g[i]]_<<g, res, n>>
=============================================================================
