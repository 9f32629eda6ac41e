------------------------------- MODULE LogView -------------------------------
(* What load_logfile() says about a log.                                       *)
(*                                                                             *)
(* A log is a sequence of records [k, key]: H(eader), R(eady), S(tarted),      *)
(* F(inished), B(ackref).  The views are sets of positions in it, which are    *)
(* reported in log order.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LastHeader(log) == LET h == {i \in 1..Len(log) : log[i].k = "H"} IN
                   IF h = {} THEN 0 ELSE CHOOSE i \in h : \A j \in h : j <= i
Task(log, i) == log[i].k \in {"R", "S", "F"}

\* the last run of key before position h: its last Ready record and what follows it
RunOf(log, key, h) ==
    LET r == {i \in 1..(h - 1) : log[i].k = "R" /\ log[i].key = key} IN
    IF r = {} THEN {}
    ELSE LET a == CHOOSE i \in r : \A j \in r : j <= i IN
         {i \in a..(h - 1) : Task(log, i) /\ log[i].key = key}

Backrefs(log) == {log[i].key : i \in {j \in (LastHeader(log) + 1)..Len(log) : log[j].k = "B"}}

\* the current view
Current(log) ==
    LET h == LastHeader(log) IN
    (IF h = 0 THEN {} ELSE {h})
    \cup {i \in (h + 1)..Len(log) : Task(log, i)}
    \cup UNION {RunOf(log, k, h) : k \in Backrefs(log)}
CurrentKeys(log) == {log[i].key : i \in {j \in Current(log) : Task(log, j)}}

\* the task records that the outdated view consists of
Outdated(log) == {i \in 1..Len(log) \ Current(log) : Task(log, i) /\ log[i].key \notin CurrentKeys(log)}

InOrder(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Range(s) == {s[i] : i \in 1..Len(s)}

\* what a reader may be given: the outdated view may mention old headers, and backreferences to outdated keys
View(log, all, cur, old) ==
    /\ all = [i \in 1..Len(log) |-> i]
    /\ Range(cur) = Current(log)
    \* the header comes first, then everything in log order
    /\ IF LastHeader(log) > 0 THEN cur[1] = LastHeader(log) /\ InOrder(Tail(cur)) ELSE InOrder(cur)
    /\ InOrder(old)
    /\ {i \in Range(old) : Task(log, i)} = Outdated(log)
    /\ \A i \in Range(old) : log[i].k = "H" => i < LastHeader(log)
    /\ \A i \in Range(old) : log[i].k = "B" => log[i].key \notin CurrentKeys(log)

-----------------------------------------------------------------------------
(* The logs that sessions write.  done: keys the session has dealt with;       *)
(* open: keys ready or started; ok / bad: keys whose last run ended well/badly *)

VARIABLES log, done, ok, bad, st
lv == <<log, done, ok, bad, st>>
Rec(k, key) == [k |-> k, key |-> key]
LInit == log = <<>> /\ done = {} /\ ok = {} /\ bad = {} /\ st = <<>>
St(key) == IF key \in DOMAIN st THEN st[key] ELSE "none"
Set(key, v) == [x \in DOMAIN st \cup {key} |-> IF x = key THEN v ELSE st[x]]
Header == log' = Append(log, Rec("H", "")) /\ done' = {} /\ st' = <<>> /\ UNCHANGED <<ok, bad>>
Backref(key) ==
    /\ key \in ok \cup bad /\ key \notin done /\ St(key) = "none"
    /\ log' = Append(log, Rec("B", key)) /\ done' = done \cup {key} /\ UNCHANGED <<ok, bad, st>>
Ready(key) ==
    /\ key \notin done /\ key \notin ok /\ St(key) \in {"none", "R", "S"}
    /\ log' = Append(log, Rec("R", key)) /\ st' = Set(key, "R") /\ ok' = ok \ {key} /\ bad' = bad \ {key} /\ UNCHANGED done
Started(key) ==
    /\ St(key) = "R" /\ log' = Append(log, Rec("S", key)) /\ st' = Set(key, "S") /\ UNCHANGED <<done, ok, bad>>
Finished(key, good) ==
    /\ St(key) = "S" /\ log' = Append(log, Rec("F", key)) /\ st' = Set(key, "F") /\ done' = done \cup {key}
    /\ IF good THEN ok' = ok \cup {key} /\ UNCHANGED bad ELSE bad' = bad \cup {key} /\ UNCHANGED ok
LNext(Keys) == Header \/ (Len(log) > 0 /\ \E key \in Keys : Backref(key) \/ Ready(key) \/ Started(key) \/ \E g \in BOOLEAN : Finished(key, g))
=============================================================================
