"""Runs one check: scenarios against the real code, trace validation, exhaustive exploration, evidence."""
import json, os, re, subprocess, sys, threading, time, random, collections, concurrent.futures
import gen, plans, tlc, trace, xg

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "build", "replays")


def build():
    p = subprocess.run(["bash", os.path.join(VERIF, "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-3000:])
        print("the code does not build")
        sys.exit(2)


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier, seed, scratch):
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.plan = plans.PLANS[pid]
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s-%d" % (pid, seed))
        self.violations = []       # (what, replay dict)
        self.notes = []
        self.cov = collections.OrderedDict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.known = []
        self.t0 = time.time()

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)):
                self.cov[k] = self.cov.get(k, 0) + v
            elif isinstance(v, dict):
                d = self.cov.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            else:
                self.cov.setdefault(k, []).extend(v)

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def left(self, cap):
        return cap - (time.time() - self.t0)


# ---------------------------------------------------------------- traces of the real code

def explain(tr, scratch, own):
    """which guard groups a rejected trace violates -> (own?, description)"""
    others = [g for g in plans.GROUPS if g not in own]

    def allows(groups, limit):
        try:
            return tlc.check_traces([tr], scratch, relaxed=groups, timeout=limit)[0][0]
        except RuntimeError:
            return None
    if allows(own, 80):
        return True, "explained by " + "/".join(own)
    b = allows(others, 80)
    if not b:
        return True, "no behaviour of the specification" + (", whatever the other guarantees" if b is False else "")
    # for the report: a single group that explains it
    for g in others:
        if allows([g], 20):
            return False, g
    return False, "several groups"


def timing_only(tr, scratch):
    try:
        (a,), _, _ = tlc.check_traces([tr], scratch, relaxed=plans.TIMING, timeout=80)
    except RuntimeError:
        return False
    return a


def where(tr, far):
    di, li = far or (0, 0)
    d = tr["D"][di - 1] if 0 < di <= len(tr["D"]) else "end"
    l = tr["L"][li - 1] if 0 < li <= len(tr["L"]) else "end"
    return "next observation %s, next log record %s" % (json.dumps(d)[:200], json.dumps(l)[:120])


def attempt(scn, scratch, module="TraceExec"):
    """run one scenario alone -> (status, detail, result, trace); status ok / bad / rej"""
    (r,) = xg.run([scn], jobs=1, scratch=scratch)
    try:
        tr = trace.build(scn, r)
    except trace.Bad as e:
        return "bad", str(e), r, None
    try:
        (ok,), (far,), _ = tlc.check_traces([tr], scratch, module=module, timeout=100)
    except tlc.TooLong as e:
        return "ok", str(e), r, tr
    return ("ok" if ok else "rej"), (None if ok else where(tr, far)), r, tr


def validate(ctx, scns, jobs=6):
    """run scenarios and check that the specification explains what happened"""
    res = xg.run(scns, scratch=ctx.scratch, jobs=jobs, max_hang=8)
    ran = [(s, r) for s, r in zip(scns, res) if not r.get("skip")]
    if len(ran) < len(scns):
        ctx.notes.append("%d scenarios left out, because too many others came to no end" % (len(scns) - len(ran)))
    return judge(ctx, [s for s, _ in ran], [r for _, r in ran])


def judge(ctx, scns, results):
    own = list(ctx.plan["own"])
    good, bad = [], []
    for s, r in zip(scns, results):
        try:
            good.append((s, r, trace.build(s, r)))
        except trace.Bad as e:
            bad.append((s, r, str(e)))
    ok, far, st = tlc.check_many([t for _, _, t in good], ctx.scratch, jobs=6) if good else ([], [], {"generated": 0, "distinct": 0})
    ctx.add(states=st["distinct"], transitions=st["generated"], traces_validated_against_impl=sum(o is True for o in ok), scenarios_run=len(scns))
    ev, rec = collections.Counter(), collections.Counter()
    for (s, r, t), o in zip(good, ok):
        if o:
            ev.update(d["k"] + ("" if d["k"] not in ("end", "start", "begun") else ":%s" % d["code"]) for d in t["D"])
            rec.update(l["k"] for l in t["L"])
    ctx.add(observations=dict(ev), log_records=dict(rec))
    for s, r, why in bad:
        if len(ctx.violations) >= 3:
            break
        if "panic" not in why:
            # a time limit, or a crash of the process: does it happen again?
            hits = 0
            for _ in range(4):
                stt, d, r2, _t = attempt(s, ctx.scratch)
                if stt != "ok":
                    hits += 1
                    why = d or why
                    break
            if not hits:
                ctx.notes.append("%s: %s (not reproduced)" % (s["id"], why))
                continue
        ctx.violation(why, {"scenario": s, "result": r, "why": why})
    rej = [(g, f) for g, o, f in zip(good, ok, far) if o is False]
    ctx.add(rejected=len(rej), undecided=sum(o is None for o in ok))
    for (s, r, tr), f in rej[:40]:
        if len(ctx.violations) >= 3:
            break
        mine, how = explain(tr, ctx.scratch, own)
        if not mine:
            if os.environ.get("XG_KEEP"):
                json.dump({"scenario": s, "result": r}, open("/tmp/note-%s.json" % s["id"], "w"))
            ctx.notes.append("%s: rejected, but not because of %s: %s (%s)" % (s["id"], ctx.pid, how, where(tr, f)))
            continue
        if timing_only(tr, ctx.scratch):
            hits = 0
            for _ in range(4):
                st2, d2, r2, t2 = attempt(s, ctx.scratch)
                if st2 != "ok":
                    hits += 1
            if hits < 2:
                ctx.notes.append("%s: timing, not reproduced: %s" % (s["id"], where(tr, f)))
                continue
        ctx.violation(how + "; " + where(tr, f), {"scenario": s, "result": r, "trace": tr, "why": how, "where": where(tr, f)})
    return list(zip(good, ok))


def fixed_scenarios(pid):
    out = []
    d = os.path.join(VERIF, "scenarios")
    for f in sorted(os.listdir(d)):
        if f.endswith(".jsonl"):
            for l in open(os.path.join(d, f)):
                if l.strip() and not l.startswith("#"):
                    s = json.loads(l)
                    if pid in s.get("props", []):
                        for i in range(s.get("times", 1)):
                            out.append(dict(s, id=s["id"] + ("-%d" % i if i else "")))
    return out


def exec_part(ctx):
    plan = ctx.plan
    mult = 12 if ctx.thorough else 1
    jobs = []
    for name, num in plan["profiles"].items():
        total = num * mult
        k = 0
        while total > 0:
            jobs.append((name, min(total, 150), ctx.seed * 1000 + k))
            total -= 150
            k += 1
    scns = fixed_scenarios(ctx.pid)
    ctx.add(fixed_scenarios=len(scns))
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        futs = [(n, ex.submit(gen.scenarios, n, plans.PROFILES[n], k, sd, ctx.scratch)) for n, k, sd in jobs]
        for n, f in futs:
            s, st = f.result()
            ctx.add(generated_from_spec={n: len(s)}, generator_states=st)
            scns += s
    for s in scns[-1:] + scns[:1]:
        ctx.cov["samples"].append({"id": s["id"], "tasks": [{k: t[k] for k in ("key", "deps", "aff") if k in t} for t in s["tasks"]],
                                   "steps": s["steps"]})
    per = 400
    for a in range(0, len(scns), per):
        validate(ctx, scns[a:a + per])
        if len(ctx.violations) >= 3 or (ctx.thorough and ctx.left(3000) < 0):
            break


# ---------------------------------------------------------------- exhaustive exploration

MCCFG = """SPECIFICATION %(spec)s
CONSTANTS Relaxed = {%(relaxed)s}
N = %(N)s
Sessions = %(SE)s
Execs = %(EX)s
Queues = {%(Q)s}
Fail = %(FAIL)s
Budget = {%(B)s}
Stops = {%(ST)s}
Crashes = %(CR)s
Targets = %(TG)s
Partial = %(PA)s
Par = %(PR)s
Lost = %(LO)s
Jids = {%(J)s}
DAGs = "%(DG)s"
%(what)s
CHECK_DEADLOCK FALSE
"""


def mc(conf, scratch, relaxed="", what="INVARIANT InvAll", spec="MSpec", workers="2", timeout=300, module="MCExec"):
    d = dict(N=3, SE=1, EX=1, Q="2", FAIL="TRUE", B="0", ST="", CR=0, TG="FALSE", PA="FALSE", PR=0, LO="FALSE", J='"j"', DG="all")
    d.update({k: v for k, v in conf.items() if k != "TO"})
    d.update(relaxed=relaxed, what=what, spec=spec)
    rc, out = tlc.tlc(module, MCCFG % d, scratch, workers=workers, timeout=timeout, heap="6g")
    m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct", out)
    gen_, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    viol = "is violated" in out or "was violated" in out or "Temporal properties were violated" in out
    return {"rc": rc, "violated": viol, "complete": rc == 0, "generated": gen_, "distinct": dist, "out": out}


def mc_part(ctx):
    res = {}
    for name in ctx.plan["mc"] + (list(ctx.plan["tmc"]) if ctx.thorough else []):
        conf = plans.MC[name]
        r = mc(conf, ctx.scratch, timeout=conf.get("TO", 600) if ctx.thorough else 200, workers="4" if ctx.thorough else "2")
        ctx.add(states=r["distinct"], transitions=r["generated"])
        res[name] = {"distinct": r["distinct"], "complete": r["complete"]}
        if r["violated"]:
            ctx.violation("the specification itself breaks an invariant in configuration " + name, {"mc": name, "output": r["out"][-6000:]})
        elif not r["complete"] and r["rc"] is not None:
            raise RuntimeError("TLC failed on %s: %s" % (name, r["out"][-1500:]))
    ctx.cov["exhaustive_configurations"] = res
    if ctx.thorough:
        sens = {}
        for g in ctx.plan["own"]:
            if g in plans.NEEDED:
                r = mc(plans.NEEDED[g], ctx.scratch, relaxed='"%s"' % g, workers="4", timeout=600)
                sens[g] = r["violated"]
                if not r["violated"]:
                    raise RuntimeError("guard group %s is not needed by any invariant: %s" % (g, r["out"][-500:]))
        ctx.cov["relaxing_breaks_an_invariant"] = sens


# ---------------------------------------------------------------- main

def known_findings(pid):
    f = os.path.join(VERIF, "KNOWN-FINDINGS.md")
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def main(pid, replay=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    build()
    t0 = time.time()
    import extra
    with xg.Scratch() as d:
        ctx = Ctx(pid, tier, seed, d)
        if replay:
            return do_replay(ctx, replay)
        parts = []
        if ctx.plan["mc"]:
            parts.append(mc_part)
        if ctx.plan["profiles"] or fixed_scenarios(pid):
            parts.append(exec_part)
        parts += [getattr(extra, x) for x in ctx.plan["extra"]]
        errs = []

        def guard(f):
            try:
                f(ctx)
            except Exception as e:
                import traceback
                errs.append("%s: %s" % (f.__name__, traceback.format_exc()[-3000:]))
        bg = [threading.Thread(target=guard, args=(p,)) for p in parts if p is mc_part]
        for t in bg:
            t.start()
        for p in parts:
            if p is not mc_part:
                guard(p)
        for t in bg:
            t.join()
        for w in known_findings(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, w))
        for n in ctx.notes:
            print("note:", n)
        if not ctx.violations and errs:
            print("\n".join(errs))
            return 2
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if ctx.notes:
            ctx.cov["notes"] = ctx.notes[:20]
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": ctx.cov,
              "assumptions": ASSUME, "wall_s": round(time.time() - t0, 1), "violations": len(ctx.violations)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        if ctx.violations:
            os.makedirs(REPLAYS, exist_ok=True)
            for i, (what, rep) in enumerate(ctx.violations[:3]):
                p = os.path.join(REPLAYS, "%s-%d.json" % (pid, i))
                json.dump(dict(rep, property=pid), open(p, "w"))
                print("%s: %s" % (pid, what[:600]))
                print("VIOLATION property=%s replay=%s" % (pid, p))
            return 1
        print("%s: held; %s" % (pid, ", ".join("%s=%s" % (k, v) for k, v in ctx.cov.items() if isinstance(v, int))))
        return 0


ASSUME = ["the specification's reading of the documentation and code is right (see DESIGN.md)",
          "the harness reports faithfully what it sees (checked by corrupting recorded traces)"]


def do_replay(ctx, path):
    rep = json.load(open(path))
    if "scenario" in rep and "extra" not in rep:
        s = rep["scenario"]
        for i in range(10):
            st, det, r, tr = attempt(s, ctx.scratch, rep.get("module", "TraceExec"))
            if st != "ok":
                xg.show(r)
                print("attempt %d: %s: %s" % (i + 1, st, det))
                print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
                return 1
        print("not reproduced in 10 attempts")
        return 0
    import extra
    if "extra" in rep:
        return getattr(extra, "replay_" + rep["extra"])(ctx, rep, path)
    print(rep.get("output", "")[-6000:])
    return 1
