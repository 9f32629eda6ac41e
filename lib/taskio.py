"""C20: input, output and values of task programs (spec/TaskIO.tla)."""
import json, os, re, subprocess
import tlc, xg

TIO = os.path.join(xg.TARGET, "debug", "tio")
CH = {"sp": " ", "tab": "\t", "nl": "\n", "cr": "\r", "u": "\u00fc"}
BACK = {v: k for k, v in CH.items()}
BIG = {"big1": ("y", 5000), "big2": ("z", 70000), "big3": ("w", 400000)}
BIGRE = re.compile("|".join("%s{%d}" % b for b in BIG.values()))


def noise(seed, n, cache={}):
    if len(cache.get(seed, b"")) < n:
        cache[seed] = subprocess.run([TIO, "W:1:%d:%d" % (n, seed), "0"], stdout=subprocess.PIPE).stdout
    return cache[seed][:n]


def enc(tok):
    return b"\xff" if tok == "bad" else CH.get(tok, tok).encode()


def tokens(s):
    out, a = [], 0
    for m in BIGRE.finditer(s):
        out += [BACK.get(c, c) for c in s[a:m.start()]]
        out += [k for k, (c, n) in BIG.items() if c == m.group()[0]]
        a = m.end()
    return out + [BACK.get(c, c) for c in s[a:]]


def val_ops(x):
    ops, run = [], b""
    for t in x:
        if t in BIG:
            if run:
                ops.append("w:3:" + run.hex())
            run = b""
            ops.append("L:3:%d:%s" % (BIG[t][1], BIG[t][0].encode().hex()))
        else:
            run += enc(t)
            if len(run) > 20000:
                ops.append("w:3:" + run.hex())
                run = b""
    return ops + (["w:3:" + run.hex()] if run else [])


def program(t, i, rng):
    """the arguments of tio for a task of the specification"""
    args, inopen = [], t["n"] >= 0
    for c in t["p"]:
        o = c["o"]
        if o in ("rd", "ra") and inopen:
            args.append("r:%d:%d" % (t["fd"], c["n"]) if o == "rd" else "R:%d" % t["fd"])
        elif o == "ci" and inopen:
            inopen = False
            args.append("c:%d" % t["fd"])
        elif o == "c3":
            args.append("c:3")
        elif o in ("out", "err"):
            args.append("W:%d:%d:%d" % ((1, c["n"], i) if o == "out" else (2, c["n"], i + 1000)))
        elif o == "nap":
            args.append("n:%d" % rng.choice([1, 20, 100]))
        elif o == "val":
            args += val_ops(c["x"])
        elif o == "bg":
            c["x"] = ["b" if x in BIG else x for x in c["x"]]
            args.append("b:%d:3:%s" % (rng.choice([1, 50, 200]), b"".join(map(enc, c["x"])).hex()))
        elif o == "exit":
            args.append("x:%d" % c["s"] if c["s"] >= 0 else "k:%d" % -c["s"])
    return args


def scenario(raw, sid, rng):
    remote = raw["mode"] == "remote"
    tasks = []
    for i, t in enumerate(raw["tasks"], 1):
        d = {"key": "k%d" % i, "deps": [], "aff": 4 if remote else 1, "cmd": [TIO] + program(t, i, rng)}
        if not t["start"] and t["fd"] == 0:
            d["cmd"] = [rng.choice(["/nonexistent/program", "/", "/etc/passwd"])]
        if t["n"] >= 0:
            d["fd_input"] = [t["fd"], t["n"], i]
        tasks.append(d)
    par = rng.randrange(1, 5)
    ex = {"op": "exec", "target": -1, "remote": False, "ops": [], "finish": []}
    if remote:
        ex["workers"] = [2] * par
    return {"id": sid, "tasks": tasks, "out": True, "limit_ms": 60000, "io": raw["tasks"],
            "steps": [{"op": "open", "failures": 0, "rerun": True, "par": 0 if remote else par}, {"op": "add"}, ex, {"op": "close"}]}


def io_trace(s, r):
    n = len(s["tasks"])
    starts, reads, fins = [0] * (n + 1), [[] for _ in range(n + 1)], [[] for _ in range(n + 1)]
    for e in r["ev"]:
        if e["e"] == "raw":
            p = e["s"].split()
            if p[0] == "S":
                starts[int(p[1])] += 1
            elif p[0] == "I":
                reads[int(p[1])].append({"n": int(p[3]), "ok": int(p[4]), "eof": int(p[5])})
    for l in r["log"]:
        rec = json.loads(l)
        if "Finished" in rec:
            fins[int(rec["Finished"]["key"][1:])].append(rec["Finished"])
    text = "\n".join(r["out"]).encode() + b"\n"
    D = []
    for i, (t, c) in enumerate(zip(s["io"], s["tasks"]), 1):
        f = fins[i][-1] if fins[i] else {"status": 0, "values": []}
        tot = {o: sum(x["n"] for x in t["p"] if x["o"] == o) for o in ("out", "err")}
        exp = b"".join(noise(i, x["n"]) for x in t["p"] if x["o"] == "out") + b"".join(noise(i + 1000, x["n"]) for x in t["p"] if x["o"] == "err")
        found = (" %d\n" % i).encode() + exp in text
        D.append({"k": "task", "start": t["start"], "p": t["p"], "n": t["n"], "starts": starts[i], "reads": reads[i], "fins": len(fins[i]),
                  "status": f["status"], "maps": [[{"k": tokens(k), "v": tokens(v)} for k, v in m.items()] for m in f.get("values") or []],
                  "out": tot["out"] if found else -1, "err": tot["err"] if found else -1})
    return {"id": s["id"], "D": D}


def io_broken(r):
    return any(e["e"] in ("panic", "xerr", "error") for e in r["ev"]) or r["hang"] or r["died"] is not None


def short_lines(n):
    """all texts of up to n characters that have something to do with quoting, as lines"""
    abc = ["a", "=", "sp", "'", '"', "\\", "#", "$", "cr"]
    lines, last = [[]], [[]]
    for _ in range(n):
        last = [x + [c] for x in last for c in abc]
        lines += last
    return lines


def lines_scenario(lines, sid, mode, rng):
    """programs that write the given lines to descriptor 3"""
    tasks = []
    for a in range(0, len(lines), 60):
        x = [c for l in lines[a:a + 60] for c in l + ["nl"]]
        tasks.append({"n": -1, "fd": 0, "start": True, "p": [{"o": "val", "x": x}, {"o": "exit", "s": 0}]})
    return scenario({"mode": mode, "tasks": tasks}, sid, rng)


def strict_again(ctx, s):
    for _ in range(2):
        (r,) = xg.run([s], jobs=1, scratch=ctx.scratch)
        if io_broken(r):
            return r
        (ok,), _, _ = tlc.check_traces([io_trace(s, r)], ctx.scratch, module="TraceTaskIO")
        if not ok:
            return r
    return None


def io_part(ctx):
    import extra
    th = ctx.thorough
    cfg = "SPECIFICATION Spec\nCONSTANTS Cap = 2 MaxIn = %d MaxProg = %d Sequential = %s\nINVARIANT Inv\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
    extra.exhaustive(ctx, "MCTaskIO", cfg % ((4, 3, "FALSE") if th else (3, 2, "FALSE")), timeout=1500)
    extra.exhaustive(ctx, "MCTaskIO", cfg % (3, 2, "TRUE"), name="input first, then output", expect=True)
    extra.exhaustive(ctx, "MCWords", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d Chars = {\"a\", \"=\", \"sp\", \"'\", \"\\\"\", \"\\\\\", \"#\", \"$\", \"nl\", \"cr\"}\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n" % (5 if th else 4), timeout=1500)
    raws, st = extra.simulate("SimTaskIO", 4000 if th else 330, ctx.seed * 1000 + 23, ctx.scratch, depth=120)
    ctx.add(generator_states=st, generated_from_spec={"SimTaskIO": len(raws)})
    scns = [scenario(x, "io-%d-%d" % (ctx.seed, i), ctx.rng) for i, x in enumerate(raws)]
    lines = short_lines(4 if th else 3)
    ctx.cov["lines"] = {"all_up_to_length": 4 if th else 3, "n": len(lines)}
    for i in range(0, len(lines), 600):
        scns.append(lines_scenario(lines[i:i + 600], "lines-%d" % i, "local" if i % 1200 == 0 else "remote", ctx.rng))
    ctx.cov["samples"].append({"mode": raws[0]["mode"], "task": raws[0]["tasks"][0]})
    nt = 0
    for a in range(0, len(scns), 120):
        part = scns[a:a + 120]
        res = xg.run(part, scratch=ctx.scratch, jobs=6)
        items = []
        for s, r in zip(part, res):
            if io_broken(r):
                if len(ctx.violations) < 3:
                    r2 = strict_again(ctx, s)
                    if r2 is None:
                        ctx.notes.append("%s did not complete, not reproduced" % s["id"])
                    else:
                        ctx.violation("%s: execute() did not come to its end: %s" % (s["id"], json.dumps([e for e in r2["ev"] if e["e"] in ("panic", "xerr", "error", "hang")])[:400]),
                                      {"scenario": s, "extra": "io"})
                continue
            t = io_trace(s, r)
            nt += len(t["D"])
            items.append((s, t))
        extra.check_own(ctx, "TraceTaskIO", items, "io", rerun=lambda s, t: strict_again(ctx, s) is not None)
        if ctx.violations:
            return
    ctx.add(task_programs_run=nt)


def replay_io(ctx, rep, path):
    s = rep["scenario"]
    for _ in range(5):
        (r,) = xg.run([s], jobs=1, scratch=ctx.scratch)
        if io_broken(r):
            print([e for e in r["ev"] if e["e"] in ("panic", "xerr", "error", "hang")][:2], r["hang"], r["died"])
            print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
            return 1
        t = io_trace(s, r)
        (ok,), (far,), _ = tlc.check_traces([t], ctx.scratch, module="TraceTaskIO")
        if not ok:
            print(json.dumps(t["D"][far[0] - 1])[:3000])
            print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
            return 1
    print("not reproduced")
    return 0
