------------------------------- MODULE MCExec -------------------------------
(* Exhaustive exploration of ExecGraph for small workflows.                    *)
(*                                                                             *)
(* The properties are stated here over ghost variables, independently of the   *)
(* guards G(..) of ExecGraph: what really happened to each task (`real`), how   *)
(* often it was launched, what its records were.  With Relaxed = {} they hold;  *)
(* for every guard group some property breaks once the group is switched off,  *)
(* which shows that the guards trace validation relies on are the ones that     *)
(* matter.                                                                     *)
EXTENDS ExecGraph

CONSTANTS N,        \* tasks
          Sessions, \* sessions that may be opened
          Execs,    \* execute() calls per session
          Queues,   \* queue numbers
          Fail,     \* may tasks fail
          Budget,   \* values of failures_allowed
          Stops,    \* shutdown requests that may occur
          Crashes,  \* number of crashes
          Targets,  \* may execute() be given a target
          Partial,  \* may tasks be added between execute() calls
          Lost,     \* may time pass (silent workers time out)
          Jids,     \* slurm job ids
          Par,      \* local runners (0: remote workers only)
          DAGs      \* "all" or "one"

VARIABLES g, left, clock

mvars == <<vars, g, left, clock>>

NoG == [launched |-> [t \in 1..N |-> 0],      \* launches within this execute() call
        real |-> [t \in 1..N |-> "no"],        \* real outcome of the last launch: no, ok, bad
        did |-> [t \in 1..N |-> FALSE],        \* finished successfully in this session or according to the log
        failed |-> [t \in 1..N |-> FALSE],     \* failed in this session
        recs |-> [t \in 1..N |-> ""],          \* records of this execute() call
        early |-> FALSE,                       \* something was launched that must not have been
        why |-> "",
        over |-> FALSE,                        \* nothing may be launched any more
        ended |-> {},                          \* transactions ended
        fin |-> <<>>,                          \* order of Finished records
        ret |-> "",                            \* what was wrong with the return value
        procs |-> {},                          \* local processes running
        told |-> {},                           \* slurm jobs told to stop
        runs |-> [t \in 1..N |-> 0],           \* runs that began and did not succeed
        twice |-> [t \in 1..N |-> FALSE],     \* killed by a hard stop, so that it may be started twice in one session
        runs0 |-> [t \in 1..N |-> 0]]          \* the same when the session was opened

MaxDepth(dep) == LET d[t \in 1..N] == IF dep[t] = {} THEN 0 ELSE 1 + (CHOOSE m \in {d[u] : u \in dep[t]} : \A u \in dep[t] : d[u] <= m) IN d
Ancs(dep) == LET a[t \in 1..N] == dep[t] \cup UNION {a[u] : u \in dep[t]} IN a
AllDags == IF DAGs = "all" THEN {d \in [1..N -> SUBSET (1..N)] : \A t \in 1..N : d[t] \subseteq 1..(t - 1)}
           ELSE {[t \in 1..N |-> IF t = N THEN 1..(t - 1) ELSE {}], [t \in 1..N |-> IF t = 1 THEN {} ELSE {t - 1}],
                 [t \in 1..N |-> IF t = 1 THEN {} ELSE {1}]}
Affs == IF Cardinality(Queues) = 1 THEN {[t \in 1..N |-> Queues]}
        ELSE {[t \in 1..N |-> IF t % 2 = 0 THEN Queues ELSE {CHOOSE q \in Queues : TRUE}], [t \in 1..N |-> Queues]}

MInit ==
    /\ \E dep \in AllDags : \E aff \in Affs :
         cfg = [n |-> N, dep |-> dep, aff |-> aff, anc |-> Ancs(dep), depth |-> MaxDepth(dep), emp |-> {},
                mask |-> [t \in 1..N |-> 1], root |-> [t \in 1..N |-> 0], hooks |-> [t \in 1..N |-> TRUE],
                lst |-> [t \in 1..N |-> {}], nostart |-> [t \in 1..N |-> FALSE], host |-> "h", slack |-> 0, grace |-> 0,
                queues |-> Queues]
    /\ InitVars
    /\ g = NoG
    /\ left = [se |-> Sessions, ex |-> Execs, cr |-> Crashes, x |-> 1]
    /\ clock = 0

Bad(w) == [g EXCEPT !.early = TRUE, !.why = w]
UG == UNCHANGED <<g, left, clock>>

-----------------------------------------------------------------------------
MOpen ==
    /\ left.se > 0 /\ ~X.on
    /\ \E fa \in Budget : \E rr \in {TRUE, FALSE} : \E key \in {"k", "other"} :
         /\ (key = "other" => wk # "")
         /\ OpenSession(fa, rr, Par, key)
    /\ left' = [left EXCEPT !.se = @ - 1, !.ex = Execs]
    /\ g' = [g EXCEPT !.did = [t \in 1..N |-> hist[t].s = "ok"], !.failed = [t \in 1..N |-> FALSE], !.runs0 = g.runs,
                      !.early = @ \/ S.open \/ (wk # "" /\ S'.wk # wk), !.why = IF S.open THEN "lock" ELSE IF wk # "" /\ S'.wk # wk THEN "ident" ELSE @]
    /\ UNCHANGED clock

MHeader == LHeader(S.wk) /\ UG
MAdd == \E k \in (IF Partial THEN 1..N ELSE {N}) : k > S.n /\ AddUpto(k) /\ UG
MClose == S.open /\ S.hdr /\ CloseSession /\ UG

MExec ==
    /\ left.ex > 0 /\ S.open /\ S.n >= 1 /\ S.hdr
    /\ \E k \in {0} \cup (IF Targets THEN 1..S.n ELSE {}) : Exec(k, 0)
    /\ left' = [left EXCEPT !.ex = @ - 1, !.x = 1]
    /\ g' = [g EXCEPT !.launched = NoG.launched, !.recs = NoG.recs, !.over = FALSE, !.ended = {}, !.fin = <<>>, !.told = {}, !.procs = {}]
    /\ UNCHANGED clock

MBackref == \E t \in Tasks : LBackref(t) /\ UG
             
MReady ==
    \E t \in Tasks : \E rc \in {S.rc[t], S.rc[t] + 1} :
      /\ LReady(t, rc, 0, TRUE)
      /\ (rc # S.rc[t] => rc <= 3)
      /\ g' = [g EXCEPT !.recs[t] = @ \o "R",
                        !.early = @ \/ (rc # g.runs0[t] /\ ~g.twice[t]) \/ (g.over /\ X.mode = "soft"), !.why = IF rc # g.runs0[t] /\ ~g.twice[t] THEN "runcount" ELSE IF g.over /\ X.mode = "soft" THEN "ready after stop" ELSE @]
      /\ UNCHANGED <<left, clock>>

\* what a launch of t must respect
LaunchOk(t, q, jid) ==
    CASE g.launched[t] > 0 -> "twice"
      [] g.did[t] -> "done"
      [] g.failed[t] -> "failed before"
      [] \E d \in cfg.dep[t] : ~g.did[d] /\ ~(T[d].p = "end" /\ g.real[d] = "ok") -> "dep"
      [] t \notin Closure(X.tgt) -> "target"
      [] q \notin cfg.aff[t] -> "queue"
      [] g.over -> "over"
      [] jid \in g.told -> "slurm"
      [] \E u \in X.sel : T[u].p = "ready" /\ q \in cfg.aff[u] /\ cfg.depth[u] > cfg.depth[t] /\ ~X.inb -> "prio"
      [] T[t].post # 0 -> "hooks"
      [] OTHER -> ""

Local(q) == Par > 0 /\ q \in {0, 1}

MClaim ==
    \E t \in Tasks, q \in Queues, jid \in Jids :
      /\ left.x <= 2 * N
      /\ (IF Local(q) THEN Claim(t, q, "loc", 0, "", clock) ELSE Claim(t, q, "tx", left.x, jid, clock))
      /\ g' = [g EXCEPT !.launched[t] = @ + 1, !.early = @ \/ LaunchOk(t, q, jid) # "", !.why = IF LaunchOk(t, q, jid) # "" THEN LaunchOk(t, q, jid) ELSE @]
      /\ left' = [left EXCEPT !.x = @ + 1]
      /\ UNCHANGED clock

MPre == \E t \in Tasks : T[t].p = "given" /\ T[t].pre = 0 /\ T' = [T EXCEPT ![t].pre = 1]
                         /\ UNCHANGED <<cfg, hist, wk, S, X, tx, canc, polls>> /\ UG

MBegin == \E x \in DOMAIN tx : T[tx[x].t].bi = <<>> /\ T[tx[x].t].pre = 1 /\ Begin(x, "h", 1, tx[x].jid, clock) /\ UG

MEnd ==
    \E x \in DOMAIN tx, s \in (IF Fail THEN {0, 1} ELSE {0}), jid \in Jids :
      /\ T[tx[x].t].pre = 1
      /\ End(x, jid, s, "[]", "?", clock)
      /\ g' = [g EXCEPT !.real[tx[x].t] = IF s = 0 THEN "ok" ELSE "bad", !.ended = @ \cup {x},
                        !.early = @ \/ x \in g.ended \/ tx[x].jid # jid, !.why = IF tx[x].jid # jid THEN "foreign end" ELSE @]
      /\ UNCHANGED <<left, clock>>

MLocStart ==
    \E t \in Tasks :
      /\ T[t].pre = 1 /\ LocalStart(t)
      /\ LET n == Cardinality({u \in g.procs : T[u].qu = T[t].qu}) IN
         g' = [g EXCEPT !.procs = @ \cup {t}, !.early = @ \/ n >= (IF T[t].qu = 0 THEN Par ELSE 1),
                        !.why = IF n >= (IF T[t].qu = 0 THEN Par ELSE 1) THEN "slots" ELSE @]
      /\ UNCHANGED <<left, clock>>

MLocExit ==
    \E t \in g.procs, s \in (IF Fail THEN {0, 1} ELSE {0}) :
      /\ T[t].st /\ T[t].p = "given" /\ T[t].le = None
      /\ LocalExit(t, s)
      /\ g' = [g EXCEPT !.procs = @ \ {t}, !.real[t] = IF s = 0 THEN "ok" ELSE "bad"]
      /\ UNCHANGED <<left, clock>>

\* what a local runner reports: the status of the process, or that it was cancelled
MLocSettle ==
    \E t \in Tasks : \E s \in {0, 1, -1, -10} : \E dr \in {FALSE, X.mode = "hard" /\ s = -1} :
      /\ T[t].by = "loc" /\ T[t].pre = 1 /\ T[t].st
      /\ Settle(t, s, "[]", "?", clock, clock, dr)
      /\ g' = [g EXCEPT !.real[t] = IF s < 0 THEN "bad" ELSE @, !.procs = @ \ {t}]
      /\ UNCHANGED <<left, clock>>

\* a worker that is not heard of; cancelled young tasks; a hard stop
MSettle ==
    \E t \in Tasks : \E dr \in {FALSE, X.mode = "hard"} :
      /\ T[t].pre = 1 /\ T[t].by = "tx"
      /\ Settle(t, -1, "[]", "?", clock, clock, dr)
      /\ g' = [g EXCEPT !.real[t] = "bad",
                        !.early = @ \/ (X.mode = "norm" /\ clock - tx[T[t].x].life < 34400), !.why = IF X.mode = "norm" /\ clock - tx[T[t].x].life < 34400 THEN "lost early" ELSE @]
      /\ UNCHANGED <<left, clock>>

MPost == \E t \in Tasks : T[t].p = "end" /\ T[t].post = 0 /\ T[t].ls /\ T' = [T EXCEPT ![t].post = 1]
                         /\ UNCHANGED <<cfg, hist, wk, S, X, tx, canc, polls>> /\ UG

MStarted ==
    \E t \in Tasks :
      /\ \/ T[t].bi # <<>> /\ LStarted(t, "h", 1, T[t].jid)
         \/ T[t].bi = <<>> /\ T[t].by = "tx" /\ LStarted(t, "", 0, "")
         \/ T[t].by = "loc" /\ T[t].st /\ LStarted(t, "h", 1, "")
      /\ g' = [g EXCEPT !.recs[t] = @ \o "S", !.runs[t] = g.runs0[t] + 1]
      /\ UNCHANGED <<left, clock>>

MFinished ==
    \E t \in Tasks, s \in {-10, -1, 0, 1} :
      /\ LFinished(t, s, "[]", s # 0 /\ (T[t].bi # <<>> \/ T[t].by = "loc") /\ clock - T[t].tc < 5000, clock)
      /\ LET bad == IF (s = 0) # (g.real[t] = "ok") THEN "status"
                    ELSE IF \E c \in Tasks : t \in cfg.dep[c] /\ g.launched[c] > 0 /\ s # 0 THEN "child of a failed task" ELSE "" IN
         g' = [g EXCEPT !.recs[t] = @ \o "F", !.fin = Append(@, t), !.twice[t] = @ \/ T[t].dr,
                        !.did[t] = @ \/ s = 0, !.failed[t] = @ \/ (s # 0 /\ ~T[t].dr), !.runs[t] = IF s = 0 THEN g.runs0[t] ELSE @,
                        !.over = @ \/ X'.cut,
                        !.early = @ \/ bad # "", !.why = IF bad # "" THEN bad ELSE @]
      /\ UNCHANGED <<left, clock>>

MStop == \E w \in Stops : w \notin X.req /\ Request(w, clock) /\ UG
MTake == (TakeSoft \/ TakeHard) /\ g' = [g EXCEPT !.over = TRUE] /\ UNCHANGED <<left, clock>>

MMark == \E j \in Jids \ {"none"} :
    /\ X.on /\ Cardinality(Jids) > 1 /\ j \notin canc
    /\ ~\E x \in DOMAIN tx : tx[x].live /\ tx[x].jid = j
    /\ canc' = canc \cup {j}
    /\ g' = [g EXCEPT !.told = @ \cup {j}]
    /\ UNCHANGED <<cfg, hist, wk, S, X, T, tx, polls, left, clock>>

MTime == Lost /\ X.on /\ clock < 72000 /\ clock' = clock + 36000 /\ UNCHANGED <<vars, g, left>>

RetBad(o, nf) ==
    LET ran == {t \in X.sel : g.recs[t] = "RSF"} IN
    CASE \E t \in X.sel : g.recs[t] \in {"RS"} -> "open record"
      [] Cardinality({t \in ran : g.real[t] # "ok"}) # nf -> "nf"
      [] X.mode # "hard" /\ o # g.fin -> "order"
      [] X.mode = "norm" /\ \E t \in Closure(X.tgt) : ~g.did[t] /\ ~g.failed[t] /\ (\A d \in cfg.anc[t] : g.did[d])
            /\ (S.rerun \/ t \in X.sel) -> "incomplete"
      [] X.mode # "hard" /\ \E t \in X.sel : T[t].p \in {"given", "end"} -> "in flight"
      [] OTHER -> ""

MReturn ==
    /\ \E o \in {X.order, <<>>}, nf \in 0..N :
         /\ Return(o, nf)
         /\ g' = [g EXCEPT !.ret = IF RetBad(o, nf) # "" THEN RetBad(o, nf) ELSE @]
    /\ UNCHANGED <<left, clock>>

MCrash == left.cr > 0 /\ S.open /\ Crash /\ left' = [left EXCEPT !.cr = @ - 1] /\ UNCHANGED <<g, clock>>

Sched == MHeader \/ MBackref \/ MReady \/ MStarted \/ MFinished \/ MTake \/ MReturn \/ MPre \/ MPost
MNext == MOpen \/ MAdd \/ MClose \/ MExec \/ Sched \/ MClaim \/ MBegin \/ MEnd \/ MLocStart \/ MLocExit \/ MLocSettle \/ MSettle \/ MStop \/ MMark \/ MTime \/ MCrash

Fair == /\ WF_mvars(Sched) /\ WF_mvars(MClaim) /\ WF_mvars(MBegin) /\ WF_mvars(MEnd) /\ WF_mvars(MLocStart) /\ WF_mvars(MLocExit) /\ WF_mvars(MLocSettle)
MSpec == MInit /\ [][MNext]_mvars
MLive == MInit /\ [][MNext]_mvars /\ Fair

-----------------------------------------------------------------------------
(* Properties                                                                 *)

NothingEarly == ~g.early
OnceEach == \A t \in 1..N : g.launched[t] <= 1
Records == \A t \in 1..N : g.recs[t] \in {"", "R", "RS", "RSF"}
StartedAfterDeps == \A t \in Tasks : T[t].ls => \A d \in cfg.dep[t] : g.did[d]
ReturnOk == g.ret = ""
SuccessIsReal == \A t \in Tasks : hist[t].s = "ok" => g.real[t] = "ok"
PostBeforeChild == \A t \in Tasks : g.launched[t] > 0 => \A d \in cfg.dep[t] : T[d].p # "out" => T[d].post = 1
OneSession == X.on => S.open
InvAll == NothingEarly /\ OnceEach /\ Records /\ StartedAfterDeps /\ ReturnOk /\ SuccessIsReal /\ PostBeforeChild /\ OneSession

\* every execute() call returns
Returns == X.on ~> ~X.on
=============================================================================
