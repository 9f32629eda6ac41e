------------------------------ MODULE SimLogView -----------------------------
(* Random logs.                                                                *)
EXTENDS LogView, Json, Randomization
VARIABLES len, fin
sv == <<log, done, ok, bad, st, len, fin>>
Pick(S) == RandomElement(S)
AllKeys == {"a", "b", "c", "d", "e", "f"}
Init == LInit /\ len = 0 /\ fin = FALSE
Begin == len = 0 /\ len' = Pick({3, 6, 10, 15, 25, 40}) /\ UNCHANGED <<log, done, ok, bad, st, fin>>
Step ==
    /\ len > 0 /\ Len(log) < len
    /\ \E r \in {Pick(1..100)}, k \in {Pick(AllKeys)} :
         IF Len(log) = 0 \/ r <= 8 THEN Header
         ELSE IF r <= 30 /\ (ok \cup bad) \ (done \cup DOMAIN st) # {} THEN \E q \in {Pick((ok \cup bad) \ (done \cup DOMAIN st))} : Backref(q)
         ELSE IF r <= 60 /\ \E q \in DOMAIN st : st[q] # "F"
              THEN \E q \in {Pick({x \in DOMAIN st : st[x] # "F"})}, g \in {Pick(1..3) > 1} :
                     IF st[q] = "R" THEN Started(q) ELSE Finished(q, g)
         ELSE IF ENABLED Ready(k) THEN Ready(k) ELSE Header
    /\ UNCHANGED <<len, fin>>
Emit == len > 0 /\ Len(log) = len /\ ~fin /\ fin' = TRUE /\ PrintT("SCN " \o ToJson([log |-> log])) /\ UNCHANGED <<log, done, ok, bad, st, len>>
Next == Begin \/ Step \/ Emit
SSpec == Init /\ [][Next]_sv
=============================================================================
