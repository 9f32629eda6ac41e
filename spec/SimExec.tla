------------------------------ MODULE SimExec ------------------------------
(* Generates schedules for the real code: random behaviours of ExecGraph in    *)
(* which the environment (remote workers, the administrator, crashes, time)    *)
(* picks commands at random and the scheduler reacts at once.  The commands    *)
(* are written out for the driver (harness/src/driver.rs); what the real       *)
(* system does with them is recorded and checked against TraceExec.            *)
(* Run with `tlc -simulate`; the PROFILE (a JSON file) says what may happen.    *)
EXTENDS ExecGraph, Json, IOUtils

VARIABLES W,      \* workers: [st: idle/parked/hold, t, x, q, jid, prev]
          steps,  \* the scenario so far
          ops,    \* commands of the current execute() call
          ph, left, outc, nx, now, bt, need

svars == <<vars, W, steps, ops, ph, left, outc, nx, now, bt, need>>

RECURSIVE SetToSeq1(_)
SetToSeq1(A) == IF A = {} THEN <<>> ELSE LET x == CHOOSE x \in A : TRUE IN <<x>> \o SetToSeq1(A \ {x})

P == JsonDeserialize(IOEnv.PROFILE)
Rnd(a, b) == RandomElement(a..b)
Coin(p) == RandomElement(1..100) <= p
Pick(s) == s[RandomElement(1..Len(s))]
R(s) == {s[i] : i \in 1..Len(s)}

NoW == [st |-> "idle", t |-> 0, x |-> 0, q |-> 0, jid |-> "", prev |-> FALSE]
Workers == 1..P.workers
Name(w) == "w" \o ToString(w)

Cfg0 == [n |-> 0, dep |-> <<>>, aff |-> <<>>, anc |-> <<>>, depth |-> <<>>, emp |-> {}, mask |-> <<>>, root |-> <<>>,
         hooks |-> <<>>, lst |-> <<>>, nostart |-> <<>>, host |-> "h", slack |-> 0, grace |-> 0, queues |-> {0}]

SInit ==
    /\ cfg = Cfg0
    /\ hist = <<>> /\ wk = "" /\ S = [open |-> FALSE] /\ X = [on |-> FALSE] /\ T = <<>> /\ tx = <<>> /\ canc = {} /\ polls = <<>>
    /\ W = [w \in Workers |-> NoW]
    /\ steps = <<>> /\ ops = <<>> /\ ph = "cfg" /\ left = [ops |-> 0, ex |-> 0, se |-> 0] /\ outc = <<>> /\ nx = 1 /\ now = 0 /\ bt = <<>> /\ need = FALSE

MkDep(n) == [t \in 1..n |-> LET a == {d \in 1..(t-1) : Coin(P.dens)} IN a]
MkAff(n) == [t \in 1..n |-> R(Pick(P.affs))]

Choose ==
    /\ ph = "cfg"
    /\ \E n \in {Rnd(P.minn, P.maxn)} :
       \E dep \in {MkDep(n)} : \E aff \in {MkAff(n)} :
       \E oc \in {[t \in 1..n |-> IF Coin(P.pfail) THEN Pick(P.stats) ELSE 0]} :
       LET anc[t \in 1..n] == dep[t] \cup UNION {anc[d] : d \in dep[t]}
           depth[t \in 1..n] == IF dep[t] = {} THEN 0 ELSE 1 + (CHOOSE m \in {depth[d] : d \in dep[t]} : \A d \in dep[t] : depth[d] <= m)
           c == [n |-> n, dep |-> dep, aff |-> aff, anc |-> anc, depth |-> depth, emp |-> {}, mask |-> [t \in 1..n |-> 0],
                 root |-> [t \in 1..n |-> 0], hooks |-> [t \in 1..n |-> FALSE], lst |-> [t \in 1..n |-> {}],
                 nostart |-> [t \in 1..n |-> FALSE], host |-> "h", slack |-> 0, grace |-> 0, queues |-> UNION {aff[t] : t \in 1..n}]
       IN /\ cfg' = c
          /\ hist' = [t \in 1..n |-> NoHist]
          /\ outc' = oc
          /\ T' = [t \in 1..n |-> Fresh("out")]
          /\ bt' = [t \in 1..n |-> 0]
          /\ X' = [on |-> FALSE]
          /\ S' = [open |-> FALSE]
    /\ ph' = "open"
    /\ \E k \in {Rnd(1, P.sessions)} : left' = [ops |-> 0, ex |-> 0, se |-> k]
    /\ UNCHANGED <<wk, tx, canc, polls, W, steps, ops, nx, now, need>>

Step(s) == steps' = Append(steps, s)

Open ==
    /\ ph = "open"
    /\ \E fa \in {Pick(P.fa)} : \E rr \in {Coin(P.prerun)} : \E par \in {Pick(P.par)} :
         /\ S' = [open |-> TRUE, hdr |-> TRUE, n |-> 0, fin |-> {}, rc |-> [t \in Tasks |-> RunCount(hist[t])],
                  fa |-> fa, rerun |-> rr, par |-> par, wk |-> "k", slots |-> 0]
         /\ Step([op |-> "open", failures |-> fa, rerun |-> rr, par |-> par])
    /\ ph' = "add"
    /\ \E k \in {Rnd(1, P.execs)} : left' = [left EXCEPT !.ex = k, !.se = @ - 1]
    /\ UNCHANGED <<cfg, hist, wk, X, T, tx, canc, polls, W, ops, outc, nx, now, bt, need>>

Add ==
    /\ ph = "add"
    /\ \E k \in {IF P.partial /\ Coin(40) THEN Rnd(Max(1, S.n), cfg.n) ELSE cfg.n} :
         /\ S' = [S EXCEPT !.n = Max(k, S.n)]
         /\ Step([op |-> "add", upto |-> Max(k, S.n)])
    /\ ph' = "exec"
    /\ UNCHANGED <<cfg, hist, wk, X, T, tx, canc, polls, W, ops, left, outc, nx, now, bt, need>>

StartExec ==
    /\ ph = "exec"
    /\ \E k \in {IF Coin(P.ptarget) THEN Rnd(1, S.n) ELSE 0} :
         /\ X.on = FALSE
         /\ LET sel == Select(k) IN
            /\ X' = [Idle EXCEPT !.on = TRUE, !.tgt = k, !.sel = sel, !.over = (sel = {})]
            /\ S' = [S EXCEPT !.fin = @ \cup Backrefs(k)]
            /\ T' = [t \in Tasks |-> Fresh(IF t \in sel THEN "wait" ELSE "out")]
    /\ tx' = <<>> /\ canc' = {} /\ W' = [w \in Workers |-> NoW] /\ nx' = 1
    /\ ops' = <<>> /\ ph' = "run"
    /\ \E m \in {Rnd(P.minops, P.maxops)} : left' = [left EXCEPT !.ops = m, !.ex = @ - 1]
    /\ UNCHANGED <<cfg, hist, wk, polls, steps, outc, now, bt, need>>

Rest == <<steps, ops, ph, left, outc, now, bt, need>>

-----------------------------------------------------------------------------
(* the scheduler, which reacts at once                                        *)

Given(t) == T[t].p = "given"
IsLocal(t) == cfg.aff[t] \cap {0, 1} # {} /\ S.par > 0
Quick(t) == now - bt[t] < 5000

CanReady(t) == T[t].p = "wait" /\ X.mode = "norm" /\ Unmet(t) = {}
Finish1 == {t \in X.sel : T[t].p = "end"}
Lost == {t \in X.sel : Given(t) /\ T[t].by = "tx" /\ Live(T[t].x) /\ now - tx[T[t].x].life > 36500}
Young == {t \in X.sel : X.cut /\ Given(t) /\ X.tcut - T[t].tc < 5000}
Killed == {t \in X.sel : X.mode = "hard" /\ Given(t)}
Parked(w) == W[w].st = "parked"
Avail(w) == {t \in X.sel : T[t].p = "ready" /\ W[w].q \in cfg.aff[t]}
MayHave == {w \in Workers : Parked(w) /\ X.mode = "norm" /\ ~X.over /\ W[w].jid \notin canc /\ Avail(w) # {}}
Refused == {w \in Workers : Parked(w) /\ (X.mode # "norm" \/ X.over \/ W[w].jid \in canc)}
LocalNow == {t \in X.sel : T[t].p = "ready" /\ IsLocal(t) /\ X.mode = "norm"}

Done1(t, Tn) == [X EXCEPT !.nf = IF T[t].s = 0 THEN @ ELSE @ + 1,
                     !.order = Append(@, t),
                     !.nz = IF T[t].s # 0 /\ Quick(t) THEN @ + 1 ELSE @]
Process(t) ==
    LET Tn == [T EXCEPT ![t].p = IF T[t].s = 0 THEN "ok" ELSE "fail"]
        X1 == Done1(t, Tn)
        gone == X.mode # "hard" /\ S.fa > 0 /\ X1.nz >= S.fa
    IN /\ T' = Tn
       /\ X' = [X1 EXCEPT !.mode = IF gone /\ @ = "norm" THEN "soft" ELSE @, !.cut = @ \/ gone,
                          !.tcut = IF gone /\ ~X.cut THEN now ELSE @]
       /\ hist' = [hist EXCEPT ![t].s = IF T[t].s = 0 THEN "ok" ELSE "fail"]
       /\ S' = [S EXCEPT !.fin = @ \cup {t}]
       /\ tx' = IF T[t].x \in DOMAIN tx THEN [tx EXCEPT ![T[t].x].live = FALSE] ELSE tx
       /\ W' = [w \in Workers |-> IF W[w].st = "hold" /\ W[w].t = t THEN [W[w] EXCEPT !.st = "idle", !.prev = TRUE] ELSE W[w]]
       /\ UNCHANGED <<cfg, wk, canc, polls, nx, Rest>>

SetEnd(t, s) == T' = [T EXCEPT ![t].p = "end", ![t].s = s] /\ UNCHANGED <<cfg, hist, wk, S, X, tx, canc, polls, W, nx, Rest>>

SysEnabled ==
    \/ \E t \in X.sel : CanReady(t)
    \/ Finish1 # {} \/ Lost # {} \/ Young # {} \/ Killed # {} \/ MayHave # {} \/ Refused # {} \/ LocalNow # {}
    \/ (X.req # {} /\ X.mode = "norm") \/ ("hard" \in X.req /\ X.mode = "soft")

Deep(A) == CHOOSE t \in A : \A u \in A : cfg.depth[u] <= cfg.depth[t]

Give(t, by, w) ==
    /\ T' = [T EXCEPT ![t].p = "given", ![t].by = by, ![t].x = nx, ![t].tc = now, ![t].ls = FALSE]
    /\ tx' = (nx :> [t |-> t, jid |-> IF w = 0 THEN "" ELSE W[w].jid, live |-> TRUE, life |-> now]) @@ tx
    /\ nx' = nx + 1
    /\ W' = IF w = 0 THEN W ELSE [W EXCEPT ![w].st = "hold", ![w].t = t, ![w].x = nx]
    /\ UNCHANGED <<cfg, hist, wk, S, X, canc, polls, steps, ops, ph, left, outc, now, need>>
    /\ bt' = [bt EXCEPT ![t] = now]

Sys ==
    IF \E t \in X.sel : CanReady(t)
    THEN LET t == CHOOSE t \in X.sel : CanReady(t) IN
         /\ T' = [T EXCEPT ![t].p = "ready"]
         /\ hist' = [hist EXCEPT ![t] = [s |-> "ready", rc |-> S.rc[t], r |-> 0]]
         /\ UNCHANGED <<cfg, wk, S, X, tx, canc, polls, W, nx, Rest>>
    ELSE IF Finish1 # {} THEN Process(CHOOSE t \in Finish1 : TRUE)
    ELSE IF X.req # {} /\ X.mode = "norm"
    THEN X' = [X EXCEPT !.mode = IF "hard" \in X.req THEN "hard" ELSE "soft"] /\ UNCHANGED <<cfg, hist, wk, S, T, tx, canc, polls, W, nx, Rest>>
    ELSE IF "hard" \in X.req /\ X.mode = "soft"
    THEN X' = [X EXCEPT !.mode = "hard"] /\ UNCHANGED <<cfg, hist, wk, S, T, tx, canc, polls, W, nx, Rest>>
    ELSE IF Killed # {} THEN SetEnd(CHOOSE t \in Killed : TRUE, -1)
    ELSE IF Young # {} THEN SetEnd(CHOOSE t \in Young : TRUE, -1)
    ELSE IF Lost # {} THEN SetEnd(CHOOSE t \in Lost : TRUE, -1)
    ELSE IF MayHave # {} THEN LET w == CHOOSE w \in MayHave : TRUE IN Give(Deep(Avail(w)), "tx", w)
    ELSE IF Refused # {} THEN /\ W' = [w \in Workers |-> IF w \in Refused THEN [W[w] EXCEPT !.st = "idle"] ELSE W[w]]
                              /\ UNCHANGED <<vars, nx, Rest>>
    ELSE LET t == CHOOSE t \in LocalNow : TRUE IN
         T' = [T EXCEPT ![t].p = "end", ![t].s = outc[t], ![t].by = "loc"] /\ UNCHANGED <<cfg, hist, wk, S, X, tx, canc, polls, W, nx, Rest>>

-----------------------------------------------------------------------------
(* commands                                                                   *)

Cmd(o) == ops' = ops \o o
Skip == UNCHANGED ops
KeepSys == UNCHANGED <<cfg, hist, wk, S, polls, steps, ph, outc, nx, need>>
Tick == left' = [left EXCEPT !.ops = @ - 1]
ReadyFor(q) == {t \in X.sel : T[t].p = "ready" /\ q \in cfg.aff[t]} # {}
Jid(w) == IF P.jobs = 0 THEN "job_" \o Name(w) ELSE "j" \o ToString(1 + (w % P.jobs))

Env ==
    \E c \in {Pick(P.bag)} : \E w \in {Rnd(1, P.workers)} : \E q \in {Pick(P.queues)} :
    LET h == W[w] nm == Name(w) IN
    CASE c = "start" /\ h.st = "idle" ->
           /\ Cmd((IF P.jobs = 0 THEN <<>> ELSE << <<"jid", nm, Jid(w)>> >>)
                  \o << <<"start", nm, q>> >> \o (IF ReadyFor(q) /\ Coin(70) THEN << <<"await", nm, 200>> >> ELSE IF Coin(P.psettle) THEN << <<"settle", nm, q>> >> ELSE <<>>))
           /\ W' = [W EXCEPT ![w].st = "parked", ![w].q = q, ![w].jid = Jid(w)]
           /\ UNCHANGED <<X, T, tx, canc, now, bt>>
      [] c = "begun" /\ h.st = "hold" ->
           /\ Cmd(<< <<"begun", nm>> >>)
           /\ T' = [T EXCEPT ![h.t].ls = TRUE]
           /\ bt' = [bt EXCEPT ![h.t] = now]
           /\ tx' = [tx EXCEPT ![h.x].life = now]
           /\ UNCHANGED <<X, W, canc, now>>
      [] c \in {"end", "chain"} /\ h.st = "hold" /\ (T[h.t].ls \/ Coin(P.pnobegun)) ->
           /\ Cmd(IF c = "end" THEN << <<"end", nm, outc[h.t]>> >> ELSE << <<"end", nm, outc[h.t], q>> >>)
           /\ T' = [T EXCEPT ![h.t].p = "end", ![h.t].s = outc[h.t]]
           /\ W' = [W EXCEPT ![w].st = IF c = "end" THEN "idle" ELSE "parked", ![w].q = q, ![w].t = 0, ![w].prev = TRUE]
           /\ tx' = [tx EXCEPT ![h.x].live = FALSE]
           /\ UNCHANGED <<X, canc, now, bt>>
      [] c = "badbegun" /\ h.st = "hold" ->
           /\ \E o \in {Pick(<<[auth |-> "none"], [auth |-> "wrong"], [jid |-> "none"], [tx |-> "bad"], [jid |-> "otherjob"]>>)} : Cmd(<< <<"begun", nm, o>> >>)
           /\ UNCHANGED <<X, T, W, tx, canc, now, bt>>
      [] c = "badend" /\ h.st = "hold" ->
           /\ \E o \in {Pick(<<[auth |-> "none"], [auth |-> "wrong"], [jid |-> "none"], [tx |-> "bad"], [jid |-> "otherjob"]>>)} :
              \E s \in {Pick(<<0, 1>>)} : Cmd(<< <<"end", nm, s, -1, o>> >>)
           /\ UNCHANGED <<X, T, W, tx, canc, now, bt>>
      [] c = "badstart" /\ h.st = "idle" ->
           /\ \E o \in {Pick(<<[auth |-> "none"], [auth |-> "wrong"], [jid |-> "none"]>>)} : Cmd(<< <<"startsync", nm, q, o>> >>)
           /\ UNCHANGED <<X, T, W, tx, canc, now, bt>>
      [] c = "late" /\ h.prev ->
           /\ \E o \in {Pick(<< << <<"end", nm, 0, -1, [tx |-> "prev"]>> >>, << <<"begun", nm, [tx |-> "prev"]>> >>, << <<"ping", nm, [tx |-> "prev"]>> >>, << <<"end", nm, 1, -1, [tx |-> "prev"]>> >> >>)} : Cmd(o)
           /\ UNCHANGED <<X, T, W, tx, canc, now, bt>>
      [] c = "ping" /\ h.st = "hold" ->
           /\ Cmd(<< <<"ping", nm>> >>)
           /\ tx' = [tx EXCEPT ![h.x].life = now]
           /\ UNCHANGED <<X, T, W, canc, now, bt>>
      [] c = "vsleep" ->
           \E d \in {Pick(P.times)} :
           /\ Cmd(<< <<"vsleep", d>> >>)
           /\ now' = now + d
           /\ UNCHANGED <<X, T, W, tx, canc, bt>>
      [] c = "statusq" -> Cmd(<< <<"statusq", X.mode # "norm">> >>) /\ UNCHANGED <<X, T, W, tx, canc, now, bt>>
      [] c = "poll" -> /\ \E o \in {Pick(P.polls)} : Cmd(<< <<"statusq", X.mode # "norm">>, <<"poll", "p", o[1], o[2], o[3]>> >>)
                       /\ UNCHANGED <<X, T, W, tx, canc, now, bt>>
      [] c = "mark" ->
           \E A \in {LET J == {"j" \o ToString(j) : j \in 1..P.jobs} IN {j \in J : Coin(50)}} :
           /\ Cmd(<< <<"mark", SetToSeq1(A)>> >>)
           /\ canc' = canc \cup {j \in A : ~\E x \in DOMAIN tx : tx[x].live /\ tx[x].jid = j}
           /\ UNCHANGED <<X, T, W, tx, now, bt>>
      [] c \in {"soft", "hard", "sigint"} /\ Coin(P.pstop) ->
           /\ Cmd(<< <<c>> >>)
           /\ X' = [X EXCEPT !.req = @ \cup {IF c = "soft" THEN "soft" ELSE "hard"}]
           /\ UNCHANGED <<T, W, tx, canc, now, bt>>
      [] OTHER -> Skip /\ UNCHANGED <<X, T, W, tx, canc, now, bt>>

ExecOver == Settled(T) \/ (X.mode # "norm" /\ {t \in X.sel : T[t].p \in {"given", "end"}} = {})

EndExec(kill) ==
    /\ Step([op |-> "exec", target |-> X.tgt - 1, remote |-> TRUE, ops |-> IF kill THEN Append(ops, <<"die">>) ELSE ops,
             finish |-> P.queues, outcome |-> outc, sel |-> SetToSeq1(X.sel)])
    /\ X' = [on |-> FALSE]
    /\ ops' = <<>>
    /\ ph' = IF kill THEN "kill" ELSE "next"
    /\ UNCHANGED <<cfg, hist, wk, S, T, tx, canc, polls, W, left, outc, nx, now, bt, need>>

\* out of commands: everything that is left runs to its end
Drain ==
    IF {t \in X.sel : Given(t)} # {}
    THEN LET t == CHOOSE t \in X.sel : Given(t) IN SetEnd(t, outc[t])
    ELSE IF {t \in X.sel : T[t].p = "ready"} # {} /\ X.mode = "norm"
    THEN LET t == Deep({t \in X.sel : T[t].p = "ready"}) IN Give(t, "tx", 0)
    ELSE EndExec(FALSE)

Run ==
    /\ ph = "run"
    /\ IF SysEnabled THEN Sys
       ELSE IF ExecOver THEN EndExec(FALSE)
       ELSE IF left.ops > 0
       THEN IF Coin(P.pkill) /\ left.se > 0 THEN EndExec(TRUE) ELSE Env /\ Tick /\ KeepSys
       ELSE Drain

Reset == /\ S' = [open |-> FALSE] /\ T' = [t \in Tasks |-> Fresh("out")]
         /\ UNCHANGED <<cfg, hist, wk, X, tx, canc, polls, W, ops, outc, nx, now, bt, need, left>>
Next1 ==
    \/ ph = "next" /\ left.ex > 0 /\ ph' = "add" /\ UNCHANGED <<vars, W, steps, ops, left, outc, nx, now, bt, need>>
    \/ /\ ph = "next" /\ left.ex <= 0
       /\ \E c \in {Coin(P.pcut)} : \E n \in {IF Coin(60) THEN Rnd(1, 400) ELSE Rnd(1, 2000)} :
            steps' = steps \o << [op |-> "close"] >> \o (IF c THEN << [op |-> "cut", n |-> 0 - n] >> ELSE <<>>)
       /\ ph' = IF left.se > 0 THEN "open" ELSE "out"
       /\ Reset
    \/ /\ ph = "kill" /\ Step([op |-> "kill"]) /\ ph' = IF left.se > 0 THEN "open" ELSE "out"
       /\ Reset
    \/ /\ ph = "out"
       /\ PrintT("SCN " \o ToJson([n |-> cfg.n, deps |-> [t \in 1..cfg.n |-> SetToSeq1(cfg.dep[t])],
                                    affs |-> [t \in 1..cfg.n |-> SetToSeq1(cfg.aff[t])], outcome |-> outc, steps |-> steps]))
       /\ ph' = "end"
       /\ UNCHANGED <<vars, W, steps, ops, left, outc, nx, now, bt, need>>

SNext == Choose \/ Open \/ Add \/ StartExec \/ Run \/ Next1
SSpec == SInit /\ [][SNext]_svars
=============================================================================
