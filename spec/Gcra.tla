--------------------------------- MODULE Gcra --------------------------------
(* The limit on how many tasks are launched per second.                        *)
(*                                                                             *)
(* "At most (w+1)*r launches in every window of w seconds" is a token bucket   *)
(* with r tokens that refills at r tokens per second; a permit costs a token.  *)
(* Time is in ms, the bucket in 1/1000 tokens.  A request takes its permit at  *)
(* some moment between asking and launching.  If it has to wait for work it    *)
(* may hold its permit meanwhile (a recorded finding), so the tokens that are  *)
(* around are those in the bucket and at most one for each pending request.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES now, rate, level, pending
gv == <<now, rate, level, pending>>

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Cap(r, p) == 1000 * (r + p)
\* refilling; a long time fills any bucket
Fill(t) == IF rate = 0 THEN 1000 * pending
           ELSE Min2(Cap(rate, pending), level + Min2(t - now, 100000) * rate)

Start(t, r) == now = t /\ rate = r /\ level = 1000 * r /\ pending = 0
Ask(t) == now' = t /\ level' = Fill(t) /\ pending' = pending + 1 /\ UNCHANGED rate
\* one more ms, because times are rounded down
May(t) == rate = 0 \/ Fill(t + 1) >= 1000
Launch(t) ==
    /\ now' = t /\ pending' = pending - 1 /\ UNCHANGED rate
    /\ level' = IF rate = 0 THEN 0 ELSE Max2(0, Min2(Cap(rate, pending), Fill(t)) - 1000)
GiveUp(t) == now' = t /\ pending' = pending - 1 /\ level' = Min2(Fill(t), Cap(rate, pending - 1)) /\ UNCHANGED rate
\* the limit is changed: windows that begin later are judged by the new limit
Change(t, r) == now' = t /\ rate' = r /\ level' = 1000 * r + 1000 * Min2(pending, Fill(t) \div 1000) /\ UNCHANGED pending

\* at least so many launches while somebody waits for ms milliseconds
AtLeast(r, ms) == IF ms <= 0 THEN 0 ELSE (Min2(ms, 100000) * r) \div 1000
=============================================================================
