"""C19: execgraph-remote against a scripted controller (spec/Worker.tla)."""
import json, os, re, shutil, socket, subprocess, tempfile
import taskio, tlc, xg

WK = os.path.join(xg.TARGET, "debug", "wk")
TIO = os.path.join(xg.TARGET, "debug", "tio")
JID = "7_1"
LIMIT = re.compile(r"^\S+ TASK IN SLURM JOB %s on \S+ CANCELLED DUE TO TIME LIMIT AFTER [^\n]*\n" % JID)
MSG = "gone %s on %s" % (JID, socket.gethostname())


def ans(a, body=True):
    r = a["r"]
    if r == "refuse" or (r == "garbage" and not body):
        return [a["c"], a["d"]]
    return [r, a["d"]]


def script(raw, sid):
    c = raw["cfg"]
    args = [str(c["q"]), "--disconnect-err-msg", "gone %j on %h"]
    if c["accept"] >= 0:
        args += ["--max-time-accepting-tasks", str(c["accept"])]
    if c["limit"] >= 0:
        args += ["--duration", str(c["limit"])]
    args += ["--slurm-error-logfile", "@DIR/slurm"]
    tasks = []
    kill = 1000
    slow = c["start"]["r"] == "silent"
    for i, t in enumerate(raw["tasks"], 1):
        prog = []
        if t["term"] == "h":
            prog.append("h:%d:%d" % (t["hs"], t["hw"]))
        elif t["term"] in ("H", "i"):
            prog.append(t["term"])
        if t["bg"] != "-":
            prog.append("g:%s:30000:%d" % (t["bg"], t["depth"]))
            kill += (5300 if "i" in t["bg"] else 400) * (t["depth"] + 1)
        if t["out"]:
            prog += ["W:1:%d:%d" % (t["out"], i), "w:3:" + ("a=%d b=x%dy\nc=\n" % (i, t["out"])).encode().hex()]
        if t["dur"]:
            prog.append("n:%d" % t["dur"])
        prog.append("k:%d" % -t["status"] if t["status"] < 0 else "x:%d" % t["status"])
        if t["term"] in ("H", "i"):
            kill += 5300
        f, at = t["fault"], t["at"]
        slow = slow or f in ("begunsilent", "endsilent")
        # a task's own end waits for the background processes that hold its output; these do not
        ev = []
        if f in ("usr1", "note", "slurm", "gone"):
            ev.append([f, at, t["anchor"]])
            if f == "slurm" and at > 0:
                ev.append(["note", at // 2, t["anchor"]])
        tasks.append({"cmd": ([TIO] if t["startable"] else ["/nonexistent/program"]) + prog + [str(i)], "fd_input": None,
                      "begun": ans(t["bad"], False) if f == "begun" else ["silent", 0] if f == "begunsilent" else ["ok", t["dl"]],
                      "pings": {"ok": t["pok"] if f in ("pings", "pingbad") else 10 ** 9, "then": ["silent", 0] if f == "pings" else ans(t["bad"], False)},
                      "end": ans(t["bad"]) if f == "end" else ["silent", 0] if f == "endsilent" else ["ok", t["dl"]], "ev": ev})
    return {"id": sid, "slow": slow, "worker": xg.REMOTE, "args": args, "interval": c["iv"], "start": ans(c["start"]), "tasks": tasks, "raw": raw,
            "env": {"SLURM_ARRAY_JOB_ID": "7", "SLURM_ARRAY_TASK_ID": "1", "SLURM_JOB_ID": "7"},
            "ev": [["usr1", c["usr"], "start"]] if c["usr"] >= 0 else [], "kill": kill,
            "limit_ms": 40000 + kill + (150000 if slow else 0) + (61000 if c["iv"] > 1000 else 21000) * len(tasks)}


def run(scns, scratch, jobs=40):
    d = tempfile.mkdtemp(prefix="xgw-")
    try:
        os.chmod(d, 0o711)
        uid = 100000 + (os.getpid() % 4000) * 500
        out = []
        for a in range(0, len(scns), 450):
            inp = "\n".join(json.dumps({k: v for k, v in s.items() if k != "raw"}) for s in scns[a:a + 450])
            e = dict(os.environ, RUST_BACKTRACE="0")
            p = subprocess.run([WK, str(jobs), os.path.join(d, "b%d" % a), str(uid)], input=inp.encode(), stdout=subprocess.PIPE,
                               stderr=None if e.get("XG_STDERR") else subprocess.DEVNULL, cwd="/", env=e, start_new_session=True)
            out += [json.loads(l) for l in p.stdout.decode(errors="replace").splitlines()]
        by = {r["id"]: r for r in out}
        return [by[s["id"]] for s in scns]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def wtrace(s, r, slack=3000, margin=600):
    raw = s["raw"]
    host = socket.gethostname()
    c = raw["cfg"]
    tasks = raw["tasks"]
    D = []
    for e in r["ev"]:
        k, o = e["k"], {"k": e["k"], "t": e["t"]}
        if k in ("start", "begun", "ping", "end"):
            o.update(auth=e["auth"], jid=e["jid"] == JID)
        if k in ("start",) or (k == "end" and e["more"]):
            ask = e["q"] == c["q"] and e["msg"] == MSG
        else:
            ask = True
        if k == "start":
            o["faithful"] = ask
        elif k == "begun":
            o.update(i=e["i"], pid=e["pid"], host=e["host"] == host)
        elif k == "ping":
            o["i"] = e["i"]
        elif k == "end":
            i = e["i"]
            t = tasks[i - 1] if 0 < i <= len(tasks) else None
            m = LIMIT.match(e["stderr"])
            err = e["stderr"][m.end():] if m else e["stderr"]
            last = "slurmstepd" in err
            good = False
            if t is None:
                pass
            elif last:
                good = re.fullmatch(r"(slurmstepd: hello\n)*slurmstepd: \*\*\* JOB 7 ON n1 CANCELLED AT now \*\*\*\n(slurmstepd: [^\n]*\n)*", err) is not None
            elif not t["startable"]:
                good = e["stdout"] == "" and e["values"] == [] and "/nonexistent/program" in err
            else:
                want = taskio.noise(i, t["out"]).decode() if t["out"] else ""
                vals = [{"a": str(i), "b": "x%dy" % t["out"]}, {"c": ""}] if t["out"] else []
                good = err == "" and ((e["stdout"] == want and e["values"] == vals) or (m is not None and want.startswith(e["stdout"]) and e["status"] == -15))
            o.update(i=i, status=e["status"], more=e["more"], lim=m is not None, last=last, faithful=bool(good and ask))
        elif k == "ans":
            o.update(to=e["to"], i=e["i"], r=e["r"], next=e["next"])
        elif k == "S":
            o.update(i=e["i"], pid=e["pid"], token=e["a"] != 0)
        elif k in ("E", "T"):
            o.update(i=e["i"], pid=e["pid"], a=e["a"])
        elif k == "exit":
            o.update(code=e["code"], left=e["left"])
        D.append(o)
    big = lambda x: x * 1000 if x >= 0 else -1
    return {"id": s["id"], "D": D,
            "cfg": {"iv": c["iv"], "slack": slack, "margin": margin, "accept": big(c["accept"]), "limit": big(c["limit"]), "kill": s["kill"],
                    "tasks": [{"startable": t["startable"], "term": t["term"], "dur": t["dur"] + t["hw"], "hw": t["hw"]} for t in tasks]}}


def reproduced(ctx, s):
    n = 0
    for _ in range(3):
        (r,) = run([s], ctx.scratch)
        (ok,), _, _ = tlc.check_traces([wtrace(s, r)], ctx.scratch, module="TraceWorker")
        n += not ok
    return n >= 2


def worker_part(ctx):
    import extra
    th = ctx.thorough
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxTasks = %d MaxBg = %d Broken = %s\nINVARIANTS Once True_ AllConcluded Clean\nPROPERTIES Asked Gone\nCHECK_DEADLOCK FALSE\n"
    extra.exhaustive(ctx, "MCWorker", cfg % (3 if th else 2, 2, '""'), timeout=1500)
    for b in ("early", "greedy", "leave", "deaf"):
        extra.exhaustive(ctx, "MCWorker", cfg % (2, 1, '"%s"' % b), name="a worker that is " + b, expect=True)
    raws, st = extra.simulate("SimWorker", 2500 if th else 230, ctx.seed * 1000 + 19, ctx.scratch, depth=80)
    ctx.add(generator_states=st, generated_from_spec={"SimWorker": len(raws)})
    scns = [script(x, "w-%d-%d" % (ctx.seed, i)) for i, x in enumerate(raws)]
    slow = [s for s in scns if s["slow"]]
    if not th:
        drop = {s["id"] for s in slow[8:]}
        scns = [s for s in scns if s["id"] not in drop]
    scns.sort(key=lambda s: -s["limit_ms"])
    ctx.cov["samples"].append({"cfg": raws[0]["cfg"], "tasks": raws[0]["tasks"][:1]})
    for a in range(0, len(scns), 400):
        part = scns[a:a + 400]
        res = run(part, ctx.scratch)
        items = [(s, wtrace(s, r)) for s, r in zip(part, res)]
        ctx.add(worker_sessions=len(items), tasks_in_worker_sessions=sum(len(s["tasks"]) for s in part))
        extra.check_own(ctx, "TraceWorker", items, "worker", rerun=lambda s, t: reproduced(ctx, s))
        if ctx.violations:
            return


def replay_worker(ctx, rep, path):
    s = rep["scenario"]
    for _ in range(3):
        (r,) = run([s], ctx.scratch)
        t = wtrace(s, r)
        (ok,), (far,), _ = tlc.check_traces([t], ctx.scratch, module="TraceWorker")
        if not ok:
            for d in t["D"][max(0, far[0] - 6):far[0]]:
                print(json.dumps(d))
            print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
            return 1
    print("not reproduced")
    return 0
