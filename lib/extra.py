"""Checks with a specification of their own (besides ExecGraph)."""
import json, os, random, re
import gen, plans, tlc, trace, xg
import runner

SIMCFG = "SPECIFICATION SSpec\nCHECK_DEADLOCK FALSE\n"


def simulate(module, num, seed, scratch, depth=60, env=None, cfg=SIMCFG):
    rc, out = tlc.tlc(module, cfg, scratch, env=env, args=("-simulate", "num=%d" % num, "-seed", str(seed), "-depth", str(depth), "-nowarning"), timeout=600)
    res = [json.loads(json.loads(l)[4:]) for l in out.splitlines() if l.startswith('"SCN ')]
    if rc != 0 or not res:
        raise RuntimeError("%s failed (%s): %s" % (module, rc, out[-1500:]))
    m = re.search(r"The number of states generated: ([\d,]+)", out)
    return res, int(m.group(1).replace(",", "")) if m else 0


def exhaustive(ctx, module, cfg, name=None, timeout=600, workers="2", expect=False):
    """explore module completely; a violated invariant is a violation unless expected"""
    rc, out = tlc.tlc(module, cfg, ctx.scratch, workers=workers, timeout=timeout, heap="6g")
    m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct", out)
    g, d = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    viol = "is violated" in out or "was violated" in out or "properties were violated" in out or "Deadlock reached" in out
    if rc != 0 and not viol:
        raise RuntimeError("TLC on %s: %s" % (module, out[-1500:]))
    ctx.add(states=d, transitions=g)
    ctx.cov.setdefault("exhaustive_configurations", {})[name or module] = {"distinct": d, "complete": rc == 0, "violated": viol}
    if viol != expect:
        if expect:
            raise RuntimeError("%s %s: an invariant should have been violated" % (module, name))
        ctx.violation("the specification %s breaks a property" % module, {"mc": module, "output": out[-6000:]})
    return out


def check_own(ctx, module, traces, kind, rerun=None):
    """traces: list of (scenario-ish dict, trace)"""
    if not traces:
        return
    ok, far, st = tlc.check_many([t for _, t in traces], ctx.scratch, jobs=4, module=module)
    ctx.add(states=st["distinct"], transitions=st["generated"], traces_validated_against_impl=sum(o is True for o in ok), undecided=sum(o is None for o in ok))
    for (s, t), o, f in zip(traces, ok, far):
        if o is False and len(ctx.violations) < 3:
            di = (f or (0, 0))[0]
            d = t["D"][di - 1] if 0 < di <= len(t["D"]) else "end"
            if rerun is not None and not rerun(s, t):
                ctx.notes.append("%s: not reproduced: %s" % (t.get("id"), json.dumps(d)[:300]))
                continue
            ctx.violation("%s: %s does not allow %s" % (t.get("id"), module, json.dumps(d)[:400]),
                          {"scenario": s, "trace": t, "extra": kind, "module": module})


# ---------------------------------------------------------------- C21: the task graph

def big(x):
    return 4294967295 if x == 2147483647 else x


def graph_scenario(raw, sid, rng):
    calls, g = raw["calls"], raw["graph"]
    tasks = [{"key": t["key"], "deps": t["deps"], "aff": 4, "hooks": False} for t in g]
    steps = [{"op": "open", "failures": 0}]
    out = [rng.choice([0, 0, 0, 1]) for _ in g]
    cut = rng.randrange(3, len(calls))
    n = 0

    def ex(upto):
        steps.append({"op": "add", "upto": upto})
        t = -1 if rng.random() < 0.7 else rng.randrange(upto)
        steps.append({"op": "exec", "ops": [], "finish": [2], "outcome": out, "target": t})
    for i, c in enumerate(calls):
        cmd = [] if c["empty"] else (["t", str(c["n"])] if c["acc"] else ["x", str(90 + i)])
        steps.append({"op": "addraw", "key": c["key"], "deps": [big(d) for d in c["deps"]], "cmd": cmd, "aff": 4 if c["acc"] else 8})
        n = c["n"]
        if i == cut and n > 0:
            ex(n)
    if n > 0:
        ex(n)
    steps.append({"op": "close"})
    return {"id": sid, "tasks": tasks, "steps": steps, "limit_ms": 20000}


def graph_trace(s, r):
    D = [{"k": "open"}]
    for e in r["ev"]:
        if e["e"] == "addraw":
            D.append({"k": "add", "key": e["key"], "cmd": e["cmd"], "empty": e["ncmd"] == 0, "deps": [min(d, 2147483647) for d in e["deps"]],
                      "id": e["id"], "err": e["err"], "n": e["n"], "keys": e["keys"], "cmds": e["cmds"], "oob": e["oob"]})
        if e["e"] == "open":
            D.append({"k": "open"})
    return {"id": s["id"], "D": D}


def graph_part(ctx):
    n = 2000 if ctx.thorough else 160
    exhaustive(ctx, "MCGraph", "SPECIFICATION Spec\nCONSTANTS Calls = %d Keys = {\"a\", \"b\", \"c\"}\nINVARIANT Inv Retry\nPROPERTY Stays\nCHECK_DEADLOCK FALSE\n" % (5 if ctx.thorough else 4))
    raws, st = simulate("SimGraph", n, ctx.seed * 1000 + 77, ctx.scratch)
    ctx.add(generator_states=st, generated_from_spec={"SimGraph": len(raws)})
    scns = [graph_scenario(r, "graph-%d-%d" % (ctx.seed, i), ctx.rng) for i, r in enumerate(raws)]
    ctx.cov["samples"].append(scns[0]["steps"])
    bad = 0
    for a in range(0, len(scns), 400):
        part = scns[a:a + 400]
        res = xg.run(part, scratch=ctx.scratch, jobs=6)
        check_own(ctx, "TraceGraph", [(s, graph_trace(s, r)) for s, r in zip(part, res)], "graph")
        if ctx.violations:
            return
        # the executions of these graphs
        runner.judge(ctx, part, res)


def replay_graph(ctx, rep, path):
    s = rep["scenario"]
    (r,) = xg.run([s], jobs=1, scratch=ctx.scratch)
    t = graph_trace(s, r)
    (ok,), (far,), _ = tlc.check_traces([t], ctx.scratch, module="TraceGraph")
    if ok:
        print("not reproduced")
        return 0
    print(json.dumps(t["D"][far[0] - 1])[:2000])
    print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
    return 1


# ---------------------------------------------------------------- C10: the views of a log

DEFAULTS = {"Ready": {"r": 0}, "Started": {"slurm_jobid": ""}, "Finished": {"values": []}, "Header": {"storage_roots": []}, "Backref": {}}


def canon(rec):
    (k, v), = rec.items()
    return k + json.dumps({**DEFAULTS.get(k, {}), **v}, sort_keys=True)


class Lines:
    """the complete records in a log's text"""

    def __init__(self, raw):
        self.log, self.ids = [], {}
        self.bad = 0
        for l in raw.split("\n"):
            if not l:
                continue
            try:
                rec = json.loads(l)
                (k, v), = rec.items()
                c = canon(rec)
            except Exception:
                self.bad += 1
                continue
            self.log.append({"k": k[0], "key": v.get("key", "")})
            self.ids.setdefault(c, []).append(len(self.log))

    def idx(self, recs):
        """positions of the records a reader was given; records that are not in the log get position 0"""
        seen, out = {}, []
        for r in recs:
            c = canon(r)
            p = self.ids.get(c, [0])
            n = seen.get(c, 0)
            seen[c] = n + 1
            out.append(p[min(n, len(p) - 1)])
        return out


def view_trace(s, r):
    D = []
    for e in r["ev"]:
        if e["e"] == "load" and e["same"]:
            ln = Lines(e["raw"])
            if any(isinstance(x, dict) for x in (e["all"], e["cur"], e["old"], e["both"])):
                D.append({"k": "error", "log": ln.log, "all": [], "cur": [0], "old": [0], "err": str(e["all"])[:100]})
                continue
            D.append({"k": "load", "log": ln.log, "all": ln.idx(e["all"]), "cur": ln.idx(e["cur"]), "old": ln.idx(e["old"])})
            D.append({"k": "both", "log": ln.log, "all": ln.idx(e["all"]), "cur": ln.idx(e["both"][0]), "old": ln.idx(e["both"][1])})
    return {"id": s["id"], "D": D}


def real_text(rng, log):
    """a log file with the given records"""
    out = []
    t = [1700000000]

    def tm():
        t[0] += rng.randrange(3)
        tm.n += 1
        return {"secs_since_epoch": t[0], "nanos_since_epoch": tm.n}
    tm.n = 0
    odd = rng.choice([lambda k: k, lambda k: "K-%s \u00e4\"\\" % k, lambda k: k * 40, lambda k: k + "\nx"])
    for i, r in enumerate(log):
        k = odd(r["key"])
        if r["k"] == "H":
            d = {"Header": {"version": 4, "time": tm(), "user": "u", "hostname": "h", "workflow_key": "w", "cmdline": ["a", "b c"], "workdir": "/", "pid": i}}
            if rng.random() < 0.7:
                d["Header"]["storage_roots"] = ["r0", "r1"][:rng.randrange(3)]
        elif r["k"] == "R":
            d = {"Ready": {"time": tm(), "key": k, "runcount": rng.randrange(3), "command": rng.choice(["", "echo x", "{\"Header\"}"])}}
            if rng.random() < 0.7:
                d["Ready"]["r"] = rng.randrange(2)
        elif r["k"] == "S":
            d = {"Started": {"time": tm(), "key": k, "host": "h", "pid": i}}
            if rng.random() < 0.7:
                d["Started"]["slurm_jobid"] = rng.choice(["", "12"])
        elif r["k"] == "F":
            # a run is what its records say it is: statuses do not matter to the views
            d = {"Finished": {"time": tm(), "key": k, "status": rng.choice([0, 0, 1, -9])}}
            if rng.random() < 0.7:
                d["Finished"]["values"] = [{"a": "b"}][:rng.randrange(2)]
        else:
            d = {"Backref": {"key": k}}
        out.append(json.dumps(d) + "\n")
    text = "".join(out)
    c = rng.random()
    if c < 0.15 and out:
        text = text[:-1]                                      # the newline is missing
    elif c < 0.35 and out:
        text = text[:len(text) - rng.randrange(2, len(out[-1]))]  # a torn record
    return text



def view_scenarios(ctx, raws):
    scns = []
    for a in range(0, len(raws), 25):
        steps = []
        for r in raws[a:a + 25]:
            steps += [{"op": "write", "text": real_text(ctx.rng, r["log"])}, {"op": "load"}]
        scns.append({"id": "view-%d-%d" % (ctx.seed, a), "tasks": [], "steps": steps})
    return scns


def with_loads(ctx, s):
    steps = []
    for st in s["steps"]:
        if st["op"] == "exec":
            st = dict(st, ops=list(st["ops"]))
            for _ in range(2):
                st["ops"].insert(ctx.rng.randrange(len(st["ops"]) + 1), ["load"])
        steps.append(st)
        if st["op"] in ("exec", "close", "cut"):
            steps.append({"op": "load"})
    return dict(s, steps=steps)


def view_part(ctx):
    th = ctx.thorough
    exhaustive(ctx, "MCLogView", "SPECIFICATION Spec\nCONSTANTS Keys = {%s} MaxLen = %d\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n" %
               ('"a", "b", "c"' if th else '"a", "b"', 9 if th else 8), timeout=1500)
    raws, st = simulate("SimLogView", 20000 if th else 2500, ctx.seed * 1000 + 13, ctx.scratch, depth=45)
    ctx.add(generator_states=st, generated_from_spec={"SimLogView": len(raws)})
    scns = view_scenarios(ctx, raws)
    for name, num in (("crash", 40), ("multi", 40), ("emptykey", 30), ("ident", 30), ("hard", 30), ("plain", 20)):
        part, st = gen.scenarios(name, plans.PROFILES[name], num * (10 if th else 1), ctx.seed * 1000 + 5, ctx.scratch)
        ctx.add(generated_from_spec={name: len(part)}, generator_states=st)
        scns += [with_loads(ctx, s) for s in part]
    ctx.cov["samples"].append(scns[-1]["steps"])
    nviews = 0
    for a in range(0, len(scns), 300):
        part = scns[a:a + 300]
        res = xg.run(part, scratch=ctx.scratch, jobs=6)
        items = []
        for s, r in zip(part, res):
            if any(e["e"] == "panic" for e in r["ev"]) or r["hang"] or r["died"] is not None:
                if s["id"].startswith("view") or any("logfile2" in str(e.get("loc")) for e in r["ev"]):
                    ctx.violation("%s: reading a log: %s" % (s["id"], [e for e in r["ev"] if e["e"] == "panic"][:1]), {"scenario": s, "result": r, "extra": "view"})
                else:
                    ctx.notes.append("%s did not complete" % s["id"])
                continue
            for i, e in enumerate(r["ev"]):
                if e["e"] == "load" and not e["same"]:
                    ctx.notes.append("%s: the log changed while it was read" % s["id"])
            t = view_trace(s, r)
            nviews += len(t["D"])
            items.append((s, t))
        check_own(ctx, "TraceLogView", items, "view")
        if ctx.violations:
            break
    ctx.add(views_checked=nviews)


def replay_view(ctx, rep, path):
    s = rep["scenario"]
    for _ in range(5):
        (r,) = xg.run([s], jobs=1, scratch=ctx.scratch)
        if any(e["e"] == "panic" for e in r["ev"]) or r["hang"] or r["died"] is not None:
            print([e for e in r["ev"] if e["e"] == "panic"][:1], r["hang"], r["died"])
            print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
            return 1
        t = view_trace(s, r)
        (ok,), (far,), _ = tlc.check_traces([t], ctx.scratch, module="TraceLogView")
        if not ok:
            print(json.dumps(t["D"][far[0] - 1])[:3000])
            print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
            return 1
    print("not reproduced")
    return 0


# ---------------------------------------------------------------- C17: the launch rate

def rate_scenario(raw, sid, rng):
    mode, rate = raw["mode"], raw["rate"]
    ops, total, w = [], 0, 0
    vms = 0.0                                   # about how much virtual time this takes
    r = rate
    for st in raw["steps"]:
        if st["op"] == "burst":
            n = st["n"] if not (r == 1 and rng.random() < 0.3) else 40
            ws = []
            for _ in range(n):
                w += 1
                ws.append("w%d" % w)
            ops += [["start", x, 2] for x in ws]
            for x in ws:
                ops += [["await", x, 20000]]
            for x in ws:
                ops += [["begun", x], ["end", x, None, None]]
            total += n
            vms += min(n / r if r else 0, 35) * 1000
        elif st["op"] == "idle":
            ops.append(["vsleep", st["n"]])
            vms += st["n"]
        else:
            r = st["n"]
            ops += [["rate", r], ["statusq", True]]
    extra = rng.randrange(6, 16) if r else 10
    total += extra
    vms += extra / r * 1000 if r else 0
    if mode == "local":
        total, ops = rng.randrange(8, 30), []
        vms = total / rate * 1000
    elif mode == "mixed":
        total += 10
    scale = min(40, max(1, int(vms / 1000) + 1))
    par = {"remote": 0, "local": rng.choice([1, 2, 4, 8]), "mixed": rng.choice([1, 3])}[mode]
    tasks = []
    for i in range(total):
        t = {"key": "k%d" % i, "deps": [], "aff": {"remote": 4, "local": 1, "mixed": 5}[mode], "hooks": True}
        if mode != "remote":
            t["cmd"] = gen.sh_cmd(0)
        tasks.append(t)
    return {"id": sid, "tasks": tasks, "mode": mode, "par": par, "limit_ms": 60000, "rscale": scale, "steps": [
        {"op": "open", "failures": 0, "par": par}, {"op": "add", "upto": total},
        {"op": "exec", "ops": ops, "finish": [2] * rng.choice([1, 3, 5]) if mode != "local" else [], "remote": mode != "local",
         "rate": rate, "scale": scale, "outcome": [0] * total}, {"op": "close"}]}


def rate_trace(s, r):
    D, epochs, calls, acall, remote = [], [], {}, {}, set()
    total, n = len(s["tasks"]), 0
    for e in r["ev"]:
        if e["e"] in ("sret", "eret") and e["code"] == 200 and e.get("t", 0) > 0:
            remote.add(e["t"])
    for e in r["ev"]:
        k, tm = e["e"], e.get("tm")
        if k == "exec":
            epochs.append({"lo": tm, "hi": tm, "r": e["rate"]})
            D += [{"k": "ask", "tm": tm}] * (s["par"] + (1 if s["par"] else 0))
        elif k == "scall" or (k == "ecall" and e["q"] >= 0):
            calls[e["c"]] = tm
            D.append({"k": "ask", "tm": tm})
        elif k in ("sret", "eret") and e["c"] in calls:
            got = e["code"] == 200 and e.get("t", 0) > 0
            n += got
            D.append({"k": "go" if got else "quit", "tm": tm, "lo": calls[e["c"]], "code": e["code"], "work": got or (e["code"] == 429 and n < total)})
        elif k == "pre" and e["t"] not in remote:
            n += 1
            D.append({"k": "go", "tm": tm, "lo": tm, "code": 0, "work": False})
        elif k == "post" and e["t"] not in remote:
            D.append({"k": "ask", "tm": tm})
        elif k == "acall" and e["what"] == "rate":
            acall[e["c"]] = e
            D.append({"k": "rate1", "tm": tm, "r": e["arg"]["per_second"]})
        elif k == "aret" and e["what"] == "rate" and e["c"] in acall:
            a = acall[e["c"]]
            epochs.append({"lo": a["tm"], "hi": tm, "r": a["arg"]["per_second"]})
            D.append({"k": "rate2", "tm": tm, "r": a["arg"]["per_second"]})
        elif k == "qret" and e.get("code", 200) == 200 and e.get("limit") is not None:
            D.append({"k": "status", "tm": tm, "limit": e["limit"]})
    if s["mode"] == "local":
        # the last local launch: somebody was waiting all the time before it
        for e in [e for e in D if e["k"] == "go"][-1:]:
            e.update(lo=epochs[0]["lo"], work=True)
    return {"id": s["id"], "D": D, "epochs": epochs, "go": [e["tm"] for e in D if e["k"] == "go"], "slack": 500 + 40 * s["rscale"]}


def broken(r):
    return any(e["e"] in ("panic", "xerr", "error") for e in r["ev"]) or r["hang"] or r["died"] is not None


def rate_part(ctx):
    th = ctx.thorough
    exhaustive(ctx, "MCGcra", "SPECIFICATION Spec\nCONSTANTS Unit = %d Rates = {0, 1, 3} Reqs = {%s} Horizon = %d Resets = 1 Parking = FALSE\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n" %
               ((6, "1, 2, 3", 13) if th else (6, "1, 2", 11)), timeout=1500)
    # the recorded finding is a property of the algorithm: with requests that keep their permit, the window bound breaks
    exhaustive(ctx, "MCGcra", "SPECIFICATION Spec\nCONSTANTS Unit = 6 Rates = {1, 3} Reqs = {1, 2} Horizon = 12 Resets = 0 Parking = TRUE\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n",
               name="parked requests keep permits", expect=True)
    raws, st = simulate("SimGcra", 1000 if th else 110, ctx.seed * 1000 + 19, ctx.scratch)
    ctx.add(generator_states=st, generated_from_spec={"SimGcra": len(raws)})
    scns = [rate_scenario(x, "rate-%d-%d" % (ctx.seed, i), ctx.rng) for i, x in enumerate(raws)]
    ctx.cov["samples"].append({"mode": scns[0]["mode"], "steps": scns[0]["steps"]})

    def again(s, t):
        (a,), _, _ = tlc.check_traces([t], ctx.scratch, module="TraceGcra", relaxed=["starved", "late"])
        hits = 0
        for _ in range(4):
            (r,) = xg.run([s], jobs=1, scratch=ctx.scratch)
            (ok,), _, _ = tlc.check_traces([rate_trace(s, r)], ctx.scratch, module="TraceGcra")
            hits += not ok
        return hits >= 2
    nl = 0
    for a in range(0, len(scns), 200):
        part = scns[a:a + 200]
        res = xg.run(part, scratch=ctx.scratch, jobs=8)
        items = [(s, rate_trace(s, r)) for s, r in zip(part, res) if not broken(r)]
        nl += sum(len(t["go"]) for _, t in items)
        check_own(ctx, "TraceGcra", items, "rate", rerun=again)
        if ctx.violations:
            return
        for s, r in zip(part, res):
            if broken(r) and len(ctx.violations) < 3 and sum(broken(x) for x in xg.run([s] * 2, jobs=1, scratch=ctx.scratch)):
                ctx.violation("%s did not complete: %s" % (s["id"], [e for e in r["ev"] if e["e"] in ("panic", "xerr", "error")][:2]),
                              {"scenario": s, "result": r, "extra": "rate"})
    ctx.add(launches_checked=nl)


def replay_rate(ctx, rep, path):
    s = rep["scenario"]
    for _ in range(6):
        (r,) = xg.run([s], jobs=1, scratch=ctx.scratch)
        t = rate_trace(s, r)
        (ok,), (far,), _ = tlc.check_traces([t], ctx.scratch, module="TraceGcra")
        if not ok or broken(r):
            print(json.dumps({k: t[k] for k in ("epochs", "D")})[:4000], far)
            print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
            return 1
    print("not reproduced")
    return 0


# ---------------------------------------------------------------- C09: the lock

LOCKCFG = "SPECIFICATION %s\nCONSTANTS N = %d Opens = %d Kills = %d Verify = %s Last = %s\n%s\nCHECK_DEADLOCK FALSE\n"


def lock_schedules(ctx, spec, n, opens, kills, args=()):
    rc, out = tlc.tlc("SimLock", LOCKCFG % (spec, n, opens, kills, "TRUE", "TRUE", ""), ctx.scratch, args=tuple(args) + ("-nowarning",), timeout=600, heap="4g")
    res = sorted({tuple(json.loads(json.loads(l)[4:])["trail"]) for l in out.splitlines() if l.startswith('"SCN ')})
    if rc != 0 or not res:
        raise RuntimeError("SimLock: " + out[-1500:])
    ctx.add(generated_from_spec={"SimLock %s N=%d opens=%d kills=%d" % ("all" if spec == "ASpec" else "sampled", n, opens, kills): len(res)})
    return [(list(t), opens, n) for t in res]


def lock_part(ctx):
    import lock
    th = ctx.thorough
    exhaustive(ctx, "LockFile", LOCKCFG % ("Spec", 3, 3 if th else 2, 2 if th else 1, "TRUE", "TRUE", "INVARIANT Inv"), "three processes", timeout=1500)
    exhaustive(ctx, "LockFile", LOCKCFG % ("Spec", 3 if th else 2, 2, 1, "TRUE", "TRUE", "INVARIANT Inv\nPROPERTY Ends"), "liveness", timeout=1500)
    exhaustive(ctx, "LockFile", LOCKCFG % ("Spec", 3, 1, 0, "FALSE", "TRUE", "INVARIANT Inv"), "no check of the locked file", expect=True)
    exhaustive(ctx, "LockFile", LOCKCFG % ("Spec", 2, 1, 0, "TRUE", "FALSE", "INVARIANT Inv"), "unlinked before written", expect=True)
    items = lock_schedules(ctx, "ASpec", 2, 1, 0)
    if th:
        items += lock_schedules(ctx, "ASpec", 2, 1, 1)
    sim = lambda num, sd: ("-simulate", "num=%d" % num, "-seed", str(ctx.seed * 100 + sd), "-depth", "120")
    k = 10 if th else 1
    items += lock_schedules(ctx, "SSpec", 2, 2, 1, sim(250 * k, 1))
    items += lock_schedules(ctx, "SSpec", 3, 1, 1, sim(400 * k, 2))
    items += lock_schedules(ctx, "SSpec", 3, 2, 2, sim(250 * k, 3))
    for n, a, b, c in ((2, 12, 13, 12),) + (((3, 12, 13, 13),) if th else ()):
        rc, out = tlc.tlc("FreeLock", "SPECIFICATION ASpec\nCONSTANTS A = %d B = %d C = %d Third = %s\nCHECK_DEADLOCK FALSE\n" % (a, b, c, "TRUE" if n == 3 else "FALSE"),
                          ctx.scratch, args=("-nowarning",))
        free = [(json.loads(json.loads(l)[4:])["trail"], 1, n) for l in out.splitlines() if l.startswith('"SCN ')]
        ctx.add(generated_from_spec={"FreeLock N=%d" % n: len(free)})
        items += free
    ctx.cov["samples"].append({"schedule": items[0][0]})
    evs = lock.run(items, ctx.scratch)
    ctx.add(schedules_run=len(items))
    pairs = [({"trail": t, "opens": o, "n": n}, {"id": "lock-%d" % i, "n": n + 1, "D": e}) for i, ((t, o, n), e) in enumerate(zip(items, evs)) if e is not None]

    def again(s, t):
        (e,) = lock.run([(s["trail"], s["opens"], s["n"])], ctx.scratch, lanes=1)
        (ok,), _, _ = tlc.check_traces([{"n": s["n"] + 1, "D": e}], ctx.scratch, module="TraceLock")
        return not ok
    for a in range(0, len(pairs), 4000):
        check_own(ctx, "TraceLock", pairs[a:a + 4000], "lock", rerun=again)
        if ctx.violations:
            return


def replay_lock(ctx, rep, path):
    import lock
    s = rep["scenario"]
    (e,) = lock.run([(s["trail"], s["opens"], s["n"])], ctx.scratch, lanes=1)
    (ok,), (far,), _ = tlc.check_traces([{"n": s["n"] + 1, "D": e}], ctx.scratch, module="TraceLock")
    for i, x in enumerate(e):
        print("->" if far and i + 1 == far[0] else "  ", json.dumps(x))
    if ok:
        print("not reproduced")
        return 0
    print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
    return 1

from taskio import io_part, replay_io
from worker import worker_part, replay_worker
