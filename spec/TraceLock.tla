------------------------------ MODULE TraceLock ------------------------------
(* Observed attempts of several processes to open and close one log.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Relaxed
VARIABLES tr, di, st, met, wrote
Traces == JsonDeserialize(IOEnv.TRACES)
D == Traces[tr].D
Procs == 1..Traces[tr].n
tv == <<tr, di, st, met, wrote>>
G(g, P) == g \in Relaxed \/ P
TInit == /\ tr \in 1..Len(Traces) /\ di = 1
         /\ st = [p \in Procs |-> "idle"] /\ met = [p \in Procs |-> FALSE] /\ wrote = [p \in Procs |-> FALSE]
Busy(p) == st[p] # "idle"
Others(p) == {q \in Procs \ {p} : Busy(q)}
Holders(p) == {q \in Procs \ {p} : st[q] = "hold"}
\* whoever is about meets everybody else who is
Meet(s) == [p \in Procs |-> IF s[p] = "idle" THEN FALSE ELSE met[p] \/ \E q \in Procs \ {p} : s[q] # "idle"]
Now(p, s) == st' = [st EXCEPT ![p] = s]
TNext ==
    /\ di <= Len(D) /\ di' = di + 1 /\ UNCHANGED tr
    /\ LET e == D[di]
           p == e.p IN
       CASE e.k = "ocall" ->
              /\ st[p] = "idle" /\ Now(p, "opening")
              /\ met' = [Meet(st') EXCEPT ![p] = Others(p) # {}]
              /\ wrote' = [wrote EXCEPT ![p] = FALSE]
         [] e.k = "oret" /\ e.ok ->
              /\ st[p] = "opening" /\ Now(p, "hold")
              \* nobody else holds the log
              /\ G("lock", Holders(p) = {})
              \* and this session has read all that is in it
              /\ G("lock", e.logkey # "" => e.key = e.logkey)
              /\ met' = Meet(st') /\ UNCHANGED wrote
         [] e.k = "oret" /\ ~e.ok ->
              /\ st[p] = "opening" /\ Now(p, "idle")
              \* somebody else was about; nothing has been changed
              /\ G("lock", e.locked /\ met[p])
              /\ G("lock", ~wrote[p])
              /\ met' = Meet(st') /\ UNCHANGED wrote
         \* a system call that changed the log: by its holder only
         [] e.k = "change" ->
              /\ G("lock", Holders(p) = {})
              /\ wrote' = [wrote EXCEPT ![p] = TRUE] /\ UNCHANGED <<st, met>>
         [] e.k = "ccall" -> st[p] = "hold" /\ Now(p, "closing") /\ UNCHANGED <<met, wrote>>
         [] e.k = "cret" -> st[p] = "closing" /\ Now(p, "idle") /\ met' = Meet(st') /\ UNCHANGED wrote
         [] e.k = "die" -> Now(p, "idle") /\ met' = Meet(st') /\ UNCHANGED wrote
         \* a holder dies or closes: the log can be opened again; it is well formed and of one workflow
         [] e.k = "end" -> /\ G("lock", e.ok) /\ G("lock", e.oneKey) /\ UNCHANGED <<st, met, wrote>>
         \* blocked instead of failing
         [] OTHER -> FALSE
Accepted == di > Len(D)
Note ==
    /\ (IF di > TLCGet(1000 + tr) THEN TLCSet(1000 + tr, di) /\ TLCSet(2000 + tr, <<di, 0>>) ELSE TRUE)
    /\ (IF Accepted THEN TLCSet(tr, 1) ELSE TRUE)
Setup == \A i \in 1..Len(Traces) : TLCSet(i, 0) /\ TLCSet(1000 + i, 0) /\ TLCSet(2000 + i, <<0, 0>>)
ASSUME Setup
Report ==
    /\ PrintT(<<"ACC", {i \in 1..Len(Traces) : TLCGet(i) = 1}>>)
    /\ \A i \in 1..Len(Traces) : TLCGet(i) = 1 \/ PrintT(<<"REJ", i, TLCGet(2000 + i)>>)
TSpec == TInit /\ [][TNext]_tv
=============================================================================
