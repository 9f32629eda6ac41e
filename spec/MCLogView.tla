------------------------------ MODULE MCLogView ------------------------------
(* Every log of up to MaxLen records, with any number of sessions: the views   *)
(* lose nothing, and one backward scan computes them.                          *)
EXTENDS LogView
CONSTANTS Keys, MaxLen
Spec == LInit /\ [][Len(log) < MaxLen /\ LNext(Keys)]_lv

RECURSIVE Scan(_, _, _, _)
\* phase 1: the latest session; phase 2: looking for backreferences; phase 3: the rest
Scan(l, i, ph, a) ==
    IF i = 0 THEN a
    ELSE CASE ph = 1 /\ l[i].k = "H" -> Scan(l, i - 1, IF a.pend = {} THEN 3 ELSE 2, [a EXCEPT !.cur = @ \cup {i}])
           [] ph = 1 /\ l[i].k = "B" -> Scan(l, i - 1, 1, [a EXCEPT !.pend = @ \cup {l[i].key}])
           [] ph = 1 -> Scan(l, i - 1, 1, [a EXCEPT !.cur = @ \cup {i}])
           [] ph = 2 /\ Task(l, i) /\ l[i].key \in a.pend ->
                LET p == IF l[i].k = "R" THEN a.pend \ {l[i].key} ELSE a.pend IN
                Scan(l, i - 1, IF p = {} THEN 3 ELSE 2, [a EXCEPT !.cur = @ \cup {i}, !.pend = p])
           [] OTHER -> Scan(l, i - 1, ph, [a EXCEPT !.old = @ \cup {i}])

Algorithm ==
    LET a == Scan(log, Len(log), 1, [cur |-> {}, old |-> {}, pend |-> {}])
        keys == {log[i].key : i \in {j \in a.cur : Task(log, j)}}
        old == {i \in a.old : Task(log, i) /\ log[i].key \notin keys}
    IN a.cur = Current(log) /\ old = Outdated(log)

\* no task record is lost, none is on both sides, and no key is
Complete == \A i \in 1..Len(log) : Task(log, i) =>
              (i \in Current(log)) \/ (i \in Outdated(log)) \/ log[i].key \in CurrentKeys(log)
Apart == \A i \in Outdated(log) : \A j \in Current(log) : Task(log, j) => log[i].key # log[j].key
\* a backreferenced key is in the current view with one whole run: R S F
Whole == \A k \in Backrefs(log) : [i \in 1..3 |-> <<"R", "S", "F">>[i]] =
           LET p == {i \in Current(log) : Task(log, i) /\ log[i].key = k}
               s == CHOOSE f \in [1..Cardinality(p) -> p] : \A x, y \in DOMAIN f : x < y => f[x] < f[y]
           IN [i \in 1..Cardinality(p) |-> log[s[i]].k]
\* what succeeded last stays protected as long as a session refers to it
Keep == \A k \in Backrefs(log) : k \in CurrentKeys(log)
Inv == Algorithm /\ Complete /\ Apart /\ Whole /\ Keep
=============================================================================
