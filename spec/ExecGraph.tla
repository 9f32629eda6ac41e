------------------------------ MODULE ExecGraph ------------------------------
(* The scheduler of execgraph: sessions on a log, execute() calls, tasks, the  *)
(* log records they produce, remote transactions, shutdowns.                   *)
(*                                                                             *)
(* Every action is one step of the system that somebody can observe: a task is *)
(* handed out, a runner reports, a record appears in the log.  The module is   *)
(* used in three ways: it is model checked (MCExec), it generates schedules    *)
(* for the real code (SimExec), and recorded executions of the real code are   *)
(* checked to be behaviours of it (TraceExec).                                 *)
(*                                                                             *)
(* The conditions that make up the properties are wrapped in G(group, cond).   *)
(* CONSTANT Relaxed switches groups off: that is how we check that each group  *)
(* is needed (some invariant of MCExec breaks without it) and how we find out  *)
(* which guarantee a rejected trace of the real code violates.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Relaxed

VARIABLES
    cfg,    \* the workflow: n, dep, aff, anc, depth, emp, mask, ... (never changes)
    hist,   \* what the log says about each key: [s: none/ready/started/ok/fail, rc, r]
    wk,     \* workflow key in the log ("" if there is no header yet)
    S,      \* the session
    X,      \* the execute() call
    T,      \* tasks within the execute() call
    tx,     \* remote transactions of the execute() call
    canc,   \* slurm jobs reported as cancelable
    polls   \* pending long polls of /status

vars == <<cfg, hist, wk, S, X, T, tx, canc, polls>>

G(g, P) == g \in Relaxed \/ P

Tasks == 1..cfg.n
None == -99999
Max(a, b) == IF a >= b THEN a ELSE b

-----------------------------------------------------------------------------
(* The log's memory of a key                                                  *)

NoHist == [s |-> "none", rc |-> 0, r |-> 0]
RunCount(h) == IF h.s \in {"started", "fail"} THEN h.rc + 1 ELSE h.rc

NoSession == [open |-> FALSE, hdr |-> FALSE, n |-> 0, fin |-> {}, rc |-> [t \in Tasks |-> 0],
              fa |-> 0, rerun |-> TRUE, par |-> 0, wk |-> "", slots |-> 0]
Idle == [on |-> FALSE, tgt |-> 0, sel |-> {}, back |-> {}, order |-> <<>>, nf |-> 0, nz |-> 0,
         mode |-> "norm", cut |-> FALSE, tcut |-> 0, over |-> FALSE, proc |-> 0, batch |-> 0,
         inb |-> FALSE, req |-> {}, pub |-> [q \in cfg.queues |-> 0], rate |-> 0, treq |-> 0]
Fresh(ph) == [p |-> ph, s |-> None, v |-> "", b |-> 0, ls |-> FALSE, bi |-> <<>>, by |-> "",
              x |-> 0, jid |-> "", pre |-> 0, post |-> 0, q |-> "?", le |-> None, tc |-> 0, dr |-> FALSE, st |-> FALSE,
              qu |-> -1]

InitVars ==
    /\ hist = [t \in Tasks |-> NoHist]
    /\ wk = ""
    /\ S = NoSession
    /\ X = Idle
    /\ T = [t \in Tasks |-> Fresh("out")]
    /\ tx = <<>>
    /\ canc = {}
    /\ polls = <<>>

-----------------------------------------------------------------------------
(* Sessions                                                                   *)

OpenSession(fa, rerun, par, key) ==
    /\ ~X.on
    /\ G("lock", ~S.open)
    /\ G("ident", key = wk \/ wk = "")
    /\ S' = [open |-> TRUE, hdr |-> FALSE, n |-> 0, fin |-> {}, rc |-> [t \in Tasks |-> RunCount(hist[t])],
             fa |-> fa, rerun |-> rerun, par |-> par, wk |-> key, slots |-> 0]
    /\ UNCHANGED <<cfg, hist, wk, X, T, tx, canc, polls>>

\* the header record of the session reaches the log
LHeader(key) ==
    /\ S.open /\ ~S.hdr
    /\ G("ident", key = S.wk)
    /\ S' = [S EXCEPT !.hdr = TRUE]
    /\ wk' = key
    /\ UNCHANGED <<cfg, hist, X, T, tx, canc, polls>>

AddUpto(k) ==
    /\ S.open /\ ~X.on /\ k >= S.n /\ k <= cfg.n
    /\ S' = [S EXCEPT !.n = k]
    /\ UNCHANGED <<cfg, hist, wk, X, T, tx, canc, polls>>

CloseSession ==
    /\ S.open /\ ~X.on
    /\ G("log", S.hdr)
    /\ S' = NoSession
    /\ UNCHANGED <<cfg, hist, wk, X, T, tx, canc, polls>>

-----------------------------------------------------------------------------
(* execute(): which tasks take part                                           *)

NonE(t) == t \notin cfg.emp
LogOk(t) == NonE(t) /\ hist[t].s = "ok"
LogFail(t) == NonE(t) /\ hist[t].s = "fail"
Done(t) == NonE(t) /\ t \in S.fin

Closure(k) == IF k = 0 THEN 1..S.n ELSE cfg.anc[k] \cup {k}

\* cannot run in this session any more: it failed in it, or waits for a task that did
Dead == LET f[t \in 1..cfg.n] ==
              IF LogOk(t) THEN FALSE ELSE Done(t) \/ \E d \in cfg.dep[t] : f[d]
        IN f

Cand(k) == LET dead == Dead IN {t \in Closure(k) : ~Done(t) /\ ~LogOk(t) /\ ~dead[t]}
KnownBad(k) == IF S.rerun THEN {} ELSE {t \in Cand(k) : LogFail(t)}
Select(k) ==
    LET c == Cand(k)
        bad == KnownBad(k)
        below[t \in 1..cfg.n] == t \in c /\ (t \in bad \/ \E d \in cfg.dep[t] : below[d])
    IN {t \in c : ~below[t]}
Backrefs(k) == {t \in Closure(k) : ~Done(t) /\ LogOk(t)} \cup KnownBad(k)

Exec(k, rate) ==
    LET sel == Select(k) IN
    /\ S.open /\ ~X.on
    /\ k <= S.n
    /\ X' = [Idle EXCEPT !.on = TRUE, !.tgt = k, !.sel = sel, !.back = Backrefs(k), !.rate = rate,
                         !.over = (sel = {})]
    /\ T' = [t \in Tasks |-> Fresh(IF t \in sel THEN "wait" ELSE "out")]
    /\ tx' = <<>>
    /\ canc' = {}
    /\ polls' = <<>>
    /\ UNCHANGED <<cfg, hist, wk, S>>

LBackref(t) ==
    /\ X.on /\ X.batch = 0
    /\ G("resume", t \in X.back)
    /\ X' = [X EXCEPT !.back = @ \ {t}]
    /\ S' = [S EXCEPT !.fin = @ \cup {t}]
    /\ UNCHANGED <<cfg, hist, wk, T, tx, canc, polls>>

-----------------------------------------------------------------------------
(* The scheduler makes tasks ready                                            *)

OkNow(d) == IF T[d].p = "out" THEN hist[d].s = "ok" ELSE T[d].p = "ok"
Unmet(t) == {d \in cfg.dep[t] : ~OkNow(d)}

AllPub == [q \in cfg.queues |-> X.batch]

\* the Ready record of t; `r` is the storage root it names, `cmd` whether it shows t's own command
LReady(t, rc, r, cmd) ==
    LET un == Unmet(t)
        par == IF Cardinality(un) = 1 THEN CHOOSE d \in un : TRUE ELSE 0
        \* the tasks that one completion enables form a batch of their own
        fresh == ~X.inb \/ (par # 0 /\ T[par].p = "end" /\ X.proc = 0)
        b == IF fresh THEN X.batch + 1 ELSE X.batch
    IN
    /\ X.on
    /\ S.hdr
    /\ G("resume", X.back = {})
    /\ T[t].p = "wait"
    /\ G("stop", X.mode # "soft")
    /\ \/ un = {} /\ G("complete", X.proc = 0 /\ (X.batch = 0 \/ (X.inb /\ X.batch = 1)))   \* nothing to wait for: ready from the start
       \/ par # 0 /\ T[par].p = "end" /\ T[par].s = 0 /\ X.proc \in {0, par}
            /\ G("hooks", T[par].post = 1 \/ ~cfg.hooks[par])
       \/ "dep" \in Relaxed
    /\ G("resume", rc = S.rc[t])
    /\ G("ident", r = cfg.root[t])
    /\ G("log", cmd)
    /\ T' = [T EXCEPT ![t].p = "ready", ![t].b = b]
    /\ X' = [X EXCEPT !.batch = b, !.inb = TRUE, !.pub = IF fresh THEN AllPub ELSE @, !.proc = IF par # 0 /\ T[par].p = "end" THEN par ELSE @]
    /\ hist' = [hist EXCEPT ![t] = [s |-> "ready", rc |-> rc, r |-> r]]
    /\ UNCHANGED <<cfg, wk, S, tx, canc, polls>>


-----------------------------------------------------------------------------
(* Handing out                                                                *)

MayGive == CASE X.mode = "norm" -> TRUE
             [] X.mode = "soft" /\ X.cut -> G("budget", FALSE)
             [] X.mode = "soft" -> G("soft", FALSE)
             [] X.mode = "hard" -> G("hard", FALSE)

\* within one batch tasks appear in queue 0 first, then in queue 1, ...
PubAfter(t, q) == [j \in cfg.queues |-> IF j <= q THEN Max(X.pub[j], T[t].b) ELSE Max(X.pub[j], T[t].b - 1)]
Deepest(t, q) ==
    \A u \in X.sel : (T[u].p = "ready" /\ q \in cfg.aff[u] /\ T[u].b <= Max(X.pub[q], T[t].b)) => cfg.depth[u] <= cfg.depth[t]

Claim(t, q, by, x, jid, now) ==
    /\ X.on /\ ~X.over
    /\ \/ T[t].p = "ready"
       \/ "once" \in Relaxed /\ T[t].p \in {"given", "end", "ok", "fail"}
       \/ "target" \in Relaxed /\ T[t].p = "out"
       \/ "dep" \in Relaxed /\ T[t].p = "wait"
    /\ G("dep", Unmet(t) = {} \/ X.proc \in Unmet(t))
    /\ G("queue", q \in cfg.aff[t])
    /\ G("prio", Deepest(t, q))
    /\ MayGive
    /\ G("slurm", jid \notin canc \/ by # "tx")
    /\ T' = [T EXCEPT ![t].p = "given", ![t].by = by, ![t].x = x, ![t].jid = jid, ![t].tc = now, ![t].qu = q]
    /\ X' = [X EXCEPT !.pub = PubAfter(t, q)]
    /\ tx' = IF by = "tx" /\ x # 0 THEN (x :> [t |-> t, jid |-> jid, live |-> TRUE, life |-> now]) @@ tx ELSE tx
    /\ UNCHANGED <<cfg, hist, wk, S, canc, polls>>

Live(x) == x \in DOMAIN tx /\ tx[x].live

\* /begun on a live transaction
Begin(x, host, pid, jid, now) ==
    /\ Live(x)
    /\ LET t == tx[x].t IN
       T' = [T EXCEPT ![t].bi = IF @ = <<>> THEN <<host, pid, jid>> ELSE @]
    /\ UNCHANGED <<cfg, hist, wk, S, X, tx, canc, polls>>

Ping(x, now) ==
    /\ tx' = IF Live(x) THEN [tx EXCEPT ![x].life = now] ELSE tx
    /\ UNCHANGED <<cfg, hist, wk, S, X, T, canc, polls>>

\* a transaction is timed out this long (ms) after its last sign of life
PingMin == 34400
PingMax == 37500

\* /end on a live transaction by its own slurm job
End(x, jid, s, v, q, now) ==
    /\ Live(x) /\ G("tx", tx[x].jid = jid)
    /\ G("ping", now - tx[x].life <= PingMax + cfg.slack)
    /\ LET t == tx[x].t IN
       /\ T' = [T EXCEPT ![t].p = "end", ![t].s = s, ![t].v = v, ![t].q = q]
       /\ tx' = [tx EXCEPT ![x].live = FALSE]
       \* a task that is younger than the cut-off when the failure budget is used up has been cancelled
       /\ G("budget", ~(X.cut /\ now > X.tcut + cfg.grace /\ X.tcut - T[t].tc < 5000 - cfg.grace))
    /\ UNCHANGED <<cfg, hist, wk, S, X, canc, polls>>

MaybeYoung(t) == X.cut /\ X.tcut - T[t].tc < 5000 + cfg.grace

\* how a task may end without a runner reporting it
\* (it happens at some time between lo and hi)
Unreported(t, s, lo, hi) ==
    \/ T[t].by # "loc" /\ s = -1 /\ Live(T[t].x)
         /\ \/ G("ping", hi - tx[T[t].x].life >= PingMin /\ lo - tx[T[t].x].life <= PingMax + cfg.slack)
            \/ G("budget", MaybeYoung(t))
    \/ T[t].by # "loc" /\ s = -1 /\ X.mode = "hard"
    \/ T[t].by = "loc" /\ s = -1 /\ X.mode = "hard"
    \/ T[t].by = "loc" /\ T[t].le # None /\ s = T[t].le
    \/ T[t].by = "loc" /\ T[t].le = None /\ s \in cfg.lst[t]
    \/ T[t].by = "loc" /\ s = -10 /\ G("budget", MaybeYoung(t))
    \/ T[t].by = "loc" /\ s = -10 /\ X.mode = "hard"

Settle(t, s, v, q, lo, hi, dr) ==
    /\ T[t].p = "given"
    /\ Unreported(t, s, lo, hi) \/ "log" \in Relaxed
    /\ T' = [T EXCEPT ![t].p = "end", ![t].s = s, ![t].q = q, ![t].dr = dr,
                      ![t].v = IF T[t].by = "loc" THEN v ELSE "[]"]
    /\ tx' = IF T[t].x \in DOMAIN tx THEN [tx EXCEPT ![T[t].x].live = FALSE] ELSE tx
    /\ UNCHANGED <<cfg, hist, wk, S, X, canc, polls>>

\* the local runners: num_parallel of them for queue 0 and one for the console queue
Slots(q) == IF q = 0 THEN S.par ELSE 1
Running(q) == {u \in X.sel : T[u].by = "loc" /\ T[u].qu = q /\ T[u].p = "given" /\ T[u].st /\ T[u].le = None}

\* the process of a local task runs
LocalStart(t) ==
    /\ T[t].p = "given" /\ T[t].by = "loc"
    /\ G("once", ~T[t].st)
    /\ G("slots", Cardinality(Running(T[t].qu)) < Slots(T[t].qu))
    /\ T' = [T EXCEPT ![t].st = TRUE]
    /\ UNCHANGED <<cfg, hist, wk, S, X, tx, canc, polls>>

\* a local task process says that it is about to exit with status s
LocalExit(t, s) ==
    /\ T[t].p = "given" /\ T[t].by = "loc"
    /\ T' = [T EXCEPT ![t].le = s]
    /\ UNCHANGED <<cfg, hist, wk, S, X, tx, canc, polls>>

-----------------------------------------------------------------------------
(* The scheduler processes what the runners report                            *)

LStarted(t, host, pid, jid) ==
    /\ X.on
    /\ T[t].p \in {"given", "end"}
    /\ G("log", ~T[t].ls)
    /\ G("log", X.proc \in {0, t})
    /\ \/ /\ T[t].by # "loc"
          /\ G("log", T[t].bi = <<host, pid, jid>>)
          /\ X' = [X EXCEPT !.inb = FALSE, !.pub = AllPub]
       \/ /\ T[t].by # "loc" /\ T[t].bi = <<>> /\ T[t].p = "end"
          /\ G("log", host = "" /\ pid = 0 /\ jid = "")
          /\ X' = [X EXCEPT !.inb = FALSE, !.pub = AllPub, !.proc = t]
       \/ /\ T[t].by = "loc"
          /\ G("log", host = cfg.host /\ jid = "" /\ (pid = 0) = cfg.nostart[t])
          /\ X' = [X EXCEPT !.inb = FALSE, !.pub = AllPub]
    /\ T' = [T EXCEPT ![t].ls = TRUE]
    /\ hist' = [hist EXCEPT ![t].s = "started"]
    /\ UNCHANGED <<cfg, wk, S, tx, canc, polls>>

\* the tasks that become ready because of t's success
Enabled(t) == {c \in X.sel : t \in cfg.dep[c] /\ T[c].p = "wait" /\ Unmet(c) = {t}}

Stuck(c, Tn) == \E d \in cfg.dep[c] : Tn[d].p = "fail" \/ (Tn[d].p = "wait")
Settled(Tn) == \A c \in X.sel : Tn[c].p \in {"ok", "fail", "wait"}

LFinished(t, s, v, quick, now) ==
    LET Tn == [T EXCEPT ![t].p = IF s = 0 THEN "ok" ELSE "fail"]
        nz == IF s # 0 /\ quick THEN X.nz + 1 ELSE X.nz
        gone == X.mode # "hard" /\ S.fa > 0 /\ nz >= S.fa
    IN
    /\ X.on
    /\ T[t].p = "end"
    /\ G("log", T[t].ls)
    /\ G("log", s = T[t].s)
    /\ G("vals", v = T[t].v)
    /\ X.proc \in {0, t}
    /\ G("hooks", T[t].post = 1 \/ ~cfg.hooks[t])
    /\ quick => T[t].bi # <<>> \/ T[t].by = "loc"
    /\ G("complete", (s = 0 /\ X.mode = "norm") => Enabled(t) = {})
    /\ T' = Tn
    /\ X' = [X EXCEPT !.order = IF T[t].dr THEN @ ELSE Append(@, t),
                      !.nf = IF s = 0 THEN @ ELSE @ + 1,
                      !.nz = nz,
                      !.proc = 0, !.inb = FALSE, !.pub = AllPub,
                      !.mode = IF gone /\ @ = "norm" THEN "soft" ELSE @,
                      !.cut = @ \/ gone,
                      !.tcut = IF gone /\ ~X.cut THEN now ELSE @,
                      !.over = @ \/ (X.mode # "hard" /\ (Settled(Tn) \/ ((gone \/ X.mode = "soft") /\ \A c \in X.sel : Tn[c].p \notin {"given", "end"})))]
    /\ hist' = [hist EXCEPT ![t].s = IF s = 0 THEN "ok" ELSE "fail"]
    /\ UNCHANGED <<cfg, wk, S, tx, canc, polls>>

-----------------------------------------------------------------------------
(* Shutdowns                                                                  *)

Request(what, now) ==
    /\ X.on
    /\ X' = [X EXCEPT !.req = @ \cup {what}, !.treq = now]
    /\ UNCHANGED <<cfg, hist, wk, S, T, tx, canc, polls>>

TakeSoft ==
    /\ X.on /\ "soft" \in X.req /\ X.mode = "norm" /\ X.proc = 0 /\ X.back = {}
    /\ X' = [X EXCEPT !.mode = "soft", !.inb = FALSE, !.pub = AllPub]
    /\ UNCHANGED <<cfg, hist, wk, S, T, tx, canc, polls>>

TakeHard ==
    /\ X.on /\ "hard" \in X.req /\ X.mode # "hard" /\ X.proc = 0 /\ X.back = {}
    /\ X' = [X EXCEPT !.mode = "hard", !.inb = FALSE, !.pub = AllPub]
    /\ UNCHANGED <<cfg, hist, wk, S, T, tx, canc, polls>>

-----------------------------------------------------------------------------
(* execute() returns                                                          *)

InFlight == {t \in X.sel : T[t].p \in {"given", "end"}}

MayReturn ==
    /\ X.back = {} /\ X.proc = 0
    /\ CASE X.mode = "norm" ->
              G("complete", \A t \in X.sel : T[t].p \in {"ok", "fail"} \/ (T[t].p = "wait" /\ Unmet(t) # {} /\ Stuck(t, T)))
         [] X.mode = "soft" ->
              /\ (IF X.cut THEN G("budget", InFlight = {}) ELSE G("soft", InFlight = {}))
         [] X.mode = "hard" ->
              G("hard", \A t \in InFlight : ~T[t].ls /\ T[t].bi = <<>> /\ T[t].p # "end")

Return(order, nf) ==
    /\ X.on
    /\ MayReturn
    /\ G("result", order = X.order)
    /\ G("result", nf = X.nf)
    /\ S' = [S EXCEPT !.fin = @ \cup {X.order[i] : i \in 1..Len(X.order)}]
    /\ X' = Idle
    /\ T' = [t \in Tasks |-> Fresh("out")]
    /\ tx' = <<>>
    /\ canc' = {}
    /\ polls' = <<>>
    /\ UNCHANGED <<cfg, hist, wk>>

\* The process dies. What the log holds at that moment is all that is left.
Crash ==
    /\ S' = NoSession
    /\ X' = Idle
    /\ T' = [t \in Tasks |-> Fresh("out")]
    /\ tx' = <<>>
    /\ canc' = {}
    /\ polls' = <<>>
    /\ UNCHANGED <<cfg, hist, wk>>

=============================================================================
