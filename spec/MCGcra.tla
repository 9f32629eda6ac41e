-------------------------------- MODULE MCGcra -------------------------------
(* The implementation's algorithm: one atomic tat, requests that compute how   *)
(* long to sleep, a limit that can be changed, requests that got their permit  *)
(* but find no work (Parking).  Time in units of 1/Unit second.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Unit, Rates, Reqs, Horizon, Resets, Parking
VARIABLES now, tau, tat, wake, st, launches, nreset, work
vars == <<now, tau, tat, wake, st, launches, nreset, work>>
Max2(a, b) == IF a >= b THEN a ELSE b
TauOf(r) == IF r = 0 THEN 0 ELSE Unit \div r
Rate(t) == IF t = 0 THEN 0 ELSE Unit \div t
Init == \E r \in Rates :
    /\ now = 0 /\ tau = TauOf(r) /\ tat = TauOf(r) * r
    /\ wake = [q \in Reqs |-> 0] /\ st = [q \in Reqs |-> "idle"]
    /\ launches = <<>> /\ nreset = 0 /\ work = TRUE
Ask(q) == st[q] = "idle" /\ st' = [st EXCEPT ![q] = "wait"] /\ wake' = [wake EXCEPT ![q] = now]
          /\ UNCHANGED <<now, tau, tat, launches, nreset, work>>
\* one round of the loop: either the permit, or sleep
Try(q) ==
    /\ st[q] = "wait" /\ wake[q] <= now
    /\ LET b == Max2(tat, now)
           at == b + tau - Unit IN
       IF tau = 0 \/ at <= now
       THEN /\ tat' = IF tau = 0 THEN tat ELSE b + tau
            /\ st' = [st EXCEPT ![q] = IF Parking THEN "permit" ELSE "idle"] /\ UNCHANGED wake
            /\ launches' = IF Parking \/ tau = 0 THEN launches ELSE Append(launches, now)
       ELSE /\ tat' = b /\ wake' = [wake EXCEPT ![q] = at] /\ UNCHANGED <<st, launches>>
    /\ UNCHANGED <<now, tau, nreset, work>>
Launch(q) ==
    /\ st[q] = "permit" /\ work
    /\ st' = [st EXCEPT ![q] = "idle"] /\ launches' = IF tau = 0 THEN launches ELSE Append(launches, now)
    /\ UNCHANGED <<now, tau, tat, wake, nreset, work>>
Reset == \E r \in Rates :
    /\ nreset < Resets /\ nreset' = nreset + 1
    /\ tau' = TauOf(r) /\ tat' = now + TauOf(r) * r /\ launches' = <<>>
    /\ UNCHANGED <<now, wake, st, work>>
\* tasks run out, or become available
Work == Parking /\ work' = ~work /\ UNCHANGED <<now, tau, tat, wake, st, launches, nreset>>
\* timers fire on time, permits are used at once
Tick == /\ now < Horizon
        /\ \A q \in Reqs : ~(st[q] = "wait" /\ wake[q] <= now) /\ ~(st[q] = "permit" /\ work)
        /\ now' = now + 1 /\ UNCHANGED <<tau, tat, wake, st, launches, nreset, work>>
Next == (\E q \in Reqs : Ask(q) \/ Try(q) \/ Launch(q)) \/ Reset \/ Work \/ Tick
Spec == Init /\ [][Next]_vars

\* C17: windows.  Launches i..j lie within w = (t_j - t_i) / Unit seconds
Window == tau > 0 => \A i \in 1..Len(launches) : \A j \in i..Len(launches) :
            (j - i + 1) * Unit <= Rate(tau) * (launches[j] - launches[i]) + Rate(tau) * Unit + Unit
\* ... the bound is (w+1)r: with the permits taken at t_i..t_j at most r + floor(w r) of them
Exact == tau > 0 => \A i \in 1..Len(launches) : \A j \in i..Len(launches) :
            (j - i + 1) * tau <= (launches[j] - launches[i]) + Unit
\* nobody sleeps for longer than it takes to get one permit
Awake == \A q \in Reqs : st[q] = "wait" => wake[q] - now <= Unit
\* while somebody waits, permits keep coming: never more than tau without one (since the last change of the limit)
Progress == \A q \in Reqs : (st[q] = "wait" /\ wake[q] > now /\ nreset = 0) => wake[q] - now <= tau
Inv == Exact /\ Window /\ Awake /\ Progress
=============================================================================
