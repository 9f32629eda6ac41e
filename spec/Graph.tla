-------------------------------- MODULE Graph --------------------------------
(* Building the task graph: add_task(cmd, key, deps).                          *)
(*                                                                             *)
(* g is the sequence of accepted tasks; task ids count from 0.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES g, res

NoRes == [id |-> -1, err |-> FALSE]
GInit == g = <<>> /\ res = NoRes

IdOf(key) == IF \E i \in 1..Len(g) : g[i].key = key THEN (CHOOSE i \in 1..Len(g) : g[i].key = key) - 1 ELSE -1

Known(deps) == \A i \in 1..Len(deps) : deps[i] \in 0..(Len(g) - 1)

\* an existing key wins over everything else; the new definition is not even looked at
Add(key, cmd, empty, deps) ==
    CASE IdOf(key) >= 0 -> g' = g /\ res' = [id |-> IdOf(key), err |-> FALSE]
      [] IdOf(key) < 0 /\ (empty \/ ~Known(deps)) -> g' = g /\ res' = [id |-> -1, err |-> TRUE]
      [] OTHER -> g' = Append(g, [key |-> key, cmd |-> cmd, deps |-> {deps[i] : i \in 1..Len(deps)}])
                  /\ res' = [id |-> Len(g), err |-> FALSE]

Acyclic == \A i \in 1..Len(g) : \A d \in g[i].deps : d < i - 1
Unique == \A i, j \in 1..Len(g) : g[i].key = g[j].key => i = j
IdsStay == [][\A i \in 1..Len(g) : i <= Len(g') /\ g'[i] = g[i]]_<<g, res>>
=============================================================================
