"""Turns the outcome of a scenario (lib/xg.py) into a trace for spec/TraceExec.tla.

Nothing is judged here: events are put into the vocabulary of the specification, requests are annotated with
their eventual replies, and time stamps are turned into durations with explicit margins."""
import json, os

HOST = os.uname().nodename
NONE = -99999


def canon(v):
    return json.dumps(v, sort_keys=True, separators=(",", ":"))


def display(task, i):
    if task.get("display"):
        return task["display"]
    cmd = list(task["cmd"]) if task.get("cmd") else ["t"]
    if not (task.get("cmd") and task.get("noid")):
        cmd.append(str(i))
    return " ".join(cmd).replace("\\\n", " ").replace("\t", "\\t")


def bits(m):
    return [i for i in range(64) if m >> i & 1]


def make_cfg(scn):
    ts = scn["tasks"]
    n = len(ts)
    dep = [sorted({d + 1 for d in t["deps"]}) for t in ts]
    anc, depth = [], []
    for i in range(n):
        a = set()
        for d in dep[i]:
            a |= {d} | set(anc[d - 1])
        anc.append(sorted(a))
        depth.append(1 + max([depth[d - 1] for d in dep[i]], default=-1))
    scale = max([1] + [st.get("scale", 1) for st in scn["steps"]])
    for st in scn["steps"]:
        for o in st.get("ops", []):
            if o[0] == "scale":
                scale = max(scale, o[1])
    return {"n": n, "dep": dep, "aff": [bits(t.get("aff", 1)) for t in ts], "anc": anc, "depth": depth,
            "emp": [i + 1 for i, t in enumerate(ts) if t["key"] == ""],
            "mask": [t.get("aff", 1) if t.get("aff", 1) < 2 ** 31 else -(t["aff"] >> 33) - 1 for t in ts],
            "root": [t.get("storage_root", 0) for t in ts],
            "hooks": [t.get("hooks", True) for t in ts],
            "lst": [t.get("lst", []) for t in ts],
            "nostart": [t.get("nostart", False) for t in ts],
            "host": HOST, "slack": 300 + 150 * scale, "grace": max(700, 100 * scale)}, scale


def parse_log(lines, keys, scn, cfg):
    out = []
    ix = {}
    for i, k in enumerate(keys):
        ix.setdefault(k, i + 1)
    for l in lines:
        try:
            d = json.loads(l)
            (kind, r), = d.items()
        except ValueError:
            out.append({"k": "X", "t": 0})
            continue
        t = ix.get(r.get("key"), 0)
        if kind == "Header":
            out.append({"k": "H", "wk": r["workflow_key"], "ok": r["version"] == 4, "roots": r["storage_roots"], "pid": r["pid"]})
        elif kind == "Ready":
            out.append({"k": "R", "t": t, "rc": r["runcount"], "r": r["r"],
                        "cmd": bool(t) and r["command"] == display(scn["tasks"][t - 1], t)})
        elif kind == "Started":
            out.append({"k": "S", "t": t, "host": r["host"], "pid": min(r["pid"], 2 ** 31 - 1), "jid": r["slurm_jobid"]})
        elif kind == "Finished":
            out.append({"k": "F", "t": t, "s": r["status"], "v": canon(r["values"])})
        elif kind == "Backref":
            out.append({"k": "B", "t": t})
        else:
            out.append({"k": "X", "t": 0})
    return out


class Bad(Exception):
    """the run cannot be a behaviour of the specification: it hung, died or broke the driver's contract"""


def build(scn, res):
    """-> trace dict for TraceExec; raises Bad if the run did not even complete"""
    ev = [dict(e) for e in res["ev"]]
    for e in ev:
        if e["e"] == "panic":
            raise Bad("panic in the code under test: %s (%s)" % (e["msg"], e["loc"]))
    if res["hang"]:
        raise Bad("the run did not complete within its time limit")
    if res["died"] is not None:
        raise Bad("the process died (%s)" % res["died"])
    for e in ev:
        if e["e"] == "error":
            raise Bad("unexpected error: " + e["err"][:300])
        if e["e"] == "xerr":
            raise Bad("execute() raised: " + e["err"][:300])
    if not ev or ev[-1]["e"] != "eos":
        raise Bad("the run ended early")
    # time stamps for lines written by task processes
    last = 0
    for e in ev:
        if "tm" in e:
            e["tlo"] = e["thi"] = last = e["tm"]
        else:
            e["tm"] = e["tlo"] = last
    nxt = None
    for e in reversed(ev):
        if e["e"] == "raw":
            e["thi"] = nxt if nxt is not None else e["tlo"]
        else:
            nxt = e["tm"]

    keys = [t["key"] for t in scn["tasks"]]
    cfg, scale = make_cfg(scn)
    L = parse_log(res["log"], keys, scn, cfg)
    last = [e["e"] for e in ev if e["e"] == "cut" or (e["e"] == "open" and e["ok"])][-1:]
    if last == ["cut"] and L and L[-1]["k"] == "X":
        L.pop()  # the torn record with which the scenario leaves the log

    # sessions: (index of open, index of end, how it ended)
    sess = []
    cur = None
    cuts = []
    for i, e in enumerate(ev):
        if e["e"] == "open" and e["ok"]:
            cur = {"a": i, "b": None, "end": None, "open": e}
            sess.append(cur)
        elif e["e"] == "close" and cur and cur["b"] is None:
            cur.update(b=i, end="close", ln=e["ln"])
        elif e["e"] == "kill" and cur and cur["b"] is None:
            cur.update(b=i, end="kill")
        elif e["e"] == "eos" and cur and cur["b"] is None:
            cur.update(b=i, end="eos")
        elif e["e"] == "cut":
            lim = e["ln"] + (1 if e["whole"] else 0)
            for s in sess:
                s["cut"] = min(s.get("cut", 10 ** 9), lim)
    pos = 0
    for k, s in enumerate(sess):
        s["l0"] = pos
        lim = s.get("cut", 10 ** 9)
        if s["end"] == "close" and s["ln"] <= lim:
            s["l1"] = s["ln"]
        elif s["end"] == "eos" and s.get("cut") is None:
            s["l1"] = len(L)
        else:
            # up to the next session's header
            s["loose"] = True
            q = pos
            if q < len(L) and q < lim and L[q]["k"] == "H" and L[q]["pid"] == s["open"]["pid"]:
                q += 1
                while q < len(L) and q < lim and L[q]["k"] != "H":
                    q += 1
            s["l1"] = q
        s["l1"] = min(s["l1"], lim)
        pos = max(s["l1"], s["l0"])

    D = []
    for k, s in enumerate(sess):
        if s.get("loose"):
            loose_session(scn, ev, s, L, D, k)
        else:
            full_session(scn, ev, s, L, D, k, cfg, scale, keys)
    return {"id": scn["id"], "cfg": cfg, "D": D, "L": L}


def loose_session(scn, ev, s, L, D, k):
    span = ev[s["a"]:s["b"]]
    real = set()
    must = set()
    kill = ev[s["b"]] if s["end"] == "kill" else None
    txt = {}
    for e in span:
        if e["e"] == "exec":
            txt = {}
        if e["e"] in ("sret", "eret") and e["code"] == 200 and e["t"]:
            txt[e["tx"]] = e["t"]
        if e["e"] == "ecall" and e["s"] == 0 and e["auth"]:
            real.add(txt.get(e["tx"], 0))
        if e["e"] == "raw" and e["s"].startswith("E ") and e["s"].split()[2] == "0":
            real.add(int(e["s"].split()[1]))
        if e["e"] == "post" and kill and "cut" not in s and e["tm"] < kill["tm"] - 1500:
            must.add(e["t"])
    for i in range(s["l0"], s["l1"]):
        r = L[i]
        if r["k"] == "F":
            r["real"] = r["t"] in real
        if r["k"] == "H":
            r["ok"] = r["ok"] and r["wk"] == s["open"]["wk"]
    if s["end"] != "kill" and "cut" in s:
        # the log was complete and has been cut afterwards
        pass
    D.append({"k": "crash", "li": s["l1"], "rerun": s["open"]["rerun"], "must": sorted(must), "sess": k, "tm": D[-1]["tm"] if D else 0})


def full_session(scn, ev, s, L, D, k, cfg, scale, keys):
    o = s["open"]
    n = len(keys)

    def put(**kw):
        kw.setdefault("tm", 0)
        kw["sess"] = k
        D.append(kw)
        return len(D)

    dirs = []
    roots = [r.rstrip("/") for r in o["roots"]]
    for i, d in enumerate(o["dirs"]):
        x = {"r": -1, "rc": 0}
        if d is not None:
            x = {"r": -2, "rc": 0}
            want = {}
            for ri, r in enumerate(roots):
                want[r + "/" + keys[i] + ".%d" % o["rc"][i]] = ri
            if d in want:
                # two roots may be the same directory: any index with that directory will do
                x = {"r": want[d], "rc": o["rc"][i], "all": [ri for ri, r in enumerate(roots) if r == roots[want[d]]]}
        x.setdefault("all", [x["r"]])
        dirs.append(x)
    scn_open = [st for st in scn["steps"] if st["op"] == "open"]
    rootsok = True
    nk = o["wk"]
    # the k-th successful open corresponds to the k-th open step that was expected to succeed
    good = [st for st in scn_open if not st.get("refused")]
    if len(good) > k:
        st = good[k]
        nk = st.get("key", "default-key-value")
        if st.get("roots") is not None:
            exp = [r.replace("$KEY", o["wk"]) for r in st["roots"]]
            got = o["roots"]
            base = scn.get("_dir", "")
            rootsok = len(exp) == len(got) and all(
                (g.rstrip("/") == e.rstrip("/")) if e.startswith("/") else g.rstrip("/").endswith("/" + e.rstrip("/"))
                for e, g in zip(exp, got))
    put(k="open", fa=o["fa"], rerun=o["rerun"], par=o["par"], key=o["wk"], nk=nk, rc=o["rc"], dirs=dirs, rootsok=rootsok, tm=o["tm"])
    for r in L[s["l0"]:s["l1"]]:
        if r["k"] == "H":
            if len(good) > k:
                exp = [x.replace("$KEY", o["wk"]) for x in good[k].get("roots", [""])]
                r["ok"] = r["ok"] and r["roots"] == exp
    i = s["a"] + 1
    end = s["b"]
    lpos = s["l0"]
    while i < end:
        e = ev[i]
        if e["e"] == "added":
            want = keys[:e["upto"]]
            put(k="add", n=e["upto"], ok=e["keys"] == want and e["n"] == e["upto"] and e["ids"] == list(range(e["upto"])), tm=e["tm"])
        elif e["e"] == "exec":
            j = i
            while j < end and ev[j]["e"] != "xdone":
                j += 1
            lpos = one_exec(scn, ev[i:j + 1], L, lpos, put, D, cfg, scale, o, keys)
            i = j
        elif e["e"] in ("starved",):
            put(k="bad", g="starved", tm=e["tm"])
        i += 1
    last = ev[end]
    if s["end"] == "close":
        put(k="close", lock=bool(last["lock"]), li=s["l1"], tm=last["tm"])


def one_exec(scn, span, L, lpos, put, D, cfg, scale, o, keys):
    x = span[0]
    n = len(keys)
    rx = next(i for i, e in enumerate(span) if e["e"] == "xret")
    xret = span[rx]
    # replies that were sent before execute() returned but seen after it
    head, tail = span[:rx], span[rx + 1:]
    late = [e for e in tail if e["e"] in ("sret", "bret", "eret", "mret", "lret", "qret", "aret", "pret")]
    calls_late = {e["c"] for e in tail if e["e"] in ("scall", "bcall", "ecall", "mcall", "lcall", "qcall", "acall", "pcall")}
    rets = {}
    for e in span:
        if e["e"] in ("sret", "bret", "eret", "mret", "lret", "qret"):
            rets[e["c"]] = e
    late = [e for e in late if e["c"] not in calls_late]
    seq = head + late
    l0, l1 = lpos, max(lpos, min(xret["ln"], len(L)))
    # the records of this call, by task
    fin = {}
    for r in L[l0:l1]:
        if r["k"] == "F":
            fin.setdefault(r["t"], r)
    # which task belongs to which transaction
    txt = {}
    remote = set()
    for e in span:
        if e["e"] in ("sret", "eret") and e["code"] == 200 and e["t"]:
            txt[e["tx"]] = e["t"]
            remote.add(e["t"])
    # spans for the quick/slow distinction
    began, ended, evid = {}, {}, {}
    for e in span:
        if e["e"] == "bcall" and rets.get(e["c"], {}).get("code") == 200 and e["tx"] in txt:
            began.setdefault(txt[e["tx"]], [e["tm"], rets[e["c"]]["tm"]])
        if e["e"] == "ecall" and rets.get(e["c"], {}).get("code") in (200, 410, 429, -1) and e["tx"] in txt:
            ended.setdefault(txt[e["tx"]], e["tm"])
        if e["e"] == "raw":
            p = e["s"].split()
            if len(p) >= 2 and p[0] in ("S", "E") and p[1].isdigit():
                t = int(p[1])
                if p[0] == "S":
                    began.setdefault(t, [None, e["thi"]])
                else:
                    ended.setdefault(t, e["tlo"])
        if e["e"] == "pre" and e["t"] in began and began[e["t"]][0] is None:
            pass
    pre = {}
    post = {}
    for e in span:
        if e["e"] == "pre":
            pre.setdefault(e["t"], e["tm"])
        if e["e"] == "post":
            post.setdefault(e["t"], e["tm"])

    g = max(500, 80 * scale)

    def quick(t):
        b = began.get(t)
        if b is None:
            return "?"
        lo = b[0] if b[0] is not None else pre.get(t, x["tm"])
        hi = b[1]
        e0 = ended.get(t, hi)
        e1 = post.get(t, e0 + g)
        if e1 - lo < 5000 - g:
            return "y"
        if e0 - hi > 5000 + g:
            return "n"
        return "?"

    def expvals(t):
        ts = scn["tasks"][t - 1]
        f = fin.get(t)
        if f is not None and f["s"] in (-1, -10) and t not in ended:
            return "[]"
        if "vals" in ts:
            return canon(ts["vals"])
        return f["v"] if f else "[]"

    for r in L[l0:l1]:
        if r["k"] in ("S", "F") and r["t"]:
            f = fin.get(r["t"])
            if f is not None and not cfg["hooks"][r["t"] - 1]:
                r["set"] = {"s": f["s"], "v": expvals(r["t"]), "quick": quick(r["t"])}
    local_seen = set()
    idx = {}
    put(k="exec", tgt=x["target"], rate=x["rate"], tm=x["tm"])
    known_local = set()
    if o["par"] > 0:
        known_local = {t for t in range(1, n + 1) if t not in remote and set(cfg["aff"][t - 1]) & {0, 1}}

    def lclaim(t, tm):
        if t in known_local and t not in local_seen:
            local_seen.add(t)
            put(k="lclaim", t=t, qs=[q for q in (0, 1) if q in cfg["aff"][t - 1]], tm=tm)

    prompt = scn.get("prompt", 3000 + 1000 * scale)
    for e in seq:
        k = e["e"]
        tm = e["tm"]
        if k == "scall":
            r = rets.get(e["c"])
            if r is None:
                continue
            idx[e["c"]] = put(k="start", q=e["q"], auth=e["auth"], jid=e["jid"], code=r["code"], t=r["t"], ntx=r["tx"], tm=tm)
        elif k == "bcall":
            r = rets.get(e["c"])
            if r is None:
                continue
            idx[e["c"]] = put(k="begun", tx=e["tx"], auth=e["auth"], jid=e["jid"], host=e["host"], pid=e["pid"], code=r["code"], tm=tm)
        elif k == "ecall":
            r = rets.get(e["c"])
            if r is None:
                continue
            t = txt.get(e["tx"], 0)
            idx[e["c"]] = put(k="end", tx=e["tx"], auth=e["auth"], jid=e["jid"], s=e["s"], v=canon(e["vals"]), q=e["q"],
                              code=r["code"], t=r["t"], ntx=r["tx"], endt=t, quick=quick(t) if t else "?", tm=tm)
        elif k == "mcall":
            r = rets.get(e["c"])
            if r is None:
                continue
            idx[e["c"]] = put(k="mark", auth=e["auth"], jid="", jids=e["jids"], rep=r.get("jids", []) or [], code=r["code"], tm=tm)
        elif k in ("sret", "bret", "eret", "mret"):
            if e["c"] in idx:
                if e["code"] == -2:
                    put(k="bad", g="code", tm=tm)
                put(k="sret", i=idx[e["c"]], tm=tm)
        elif k == "pcall":
            put(k="ping", tx=e["tx"], auth=e["auth"], tm=tm)
        elif k == "pre":
            lclaim(e["t"], tm)
            put(k="pre", t=e["t"], tm=tm)
        elif k == "post":
            t = e["t"]
            f = fin.get(t)
            put(k="settle", t=t, s=f["s"] if f else (0 if e["ok"] else 1), v=expvals(t), quick=quick(t), tm=tm)
            put(k="post", t=t, ok=e["ok"], rc=e["rc"], n=e["n"], tm=tm)
        elif k == "raw":
            p = e["s"].split()
            if len(p) >= 2 and p[1].isdigit() and 1 <= int(p[1]) <= n:
                t = int(p[1])
                if p[0] == "S":
                    lclaim(t, tm)
                    put(k="pstart", t=t, tm=tm)
                elif p[0] == "E":
                    put(k="pexit", t=t, s=int(p[2]), tm=tm)
                elif p[0] == "B":
                    put(k="bad", g="slots", why="tasks that should run side by side do not", tm=tm)
        elif k == "acall":
            if e["what"] == "soft":
                put(k="req", what="soft", tm=tm)
            elif e["what"] in ("hard", "sigint", "provexit"):
                put(k="req", what="hard", tm=tm)
            elif e["what"] == "rate":
                rate = e.get("arg", {}).get("per_second", 0)
                put(k="rate", n=rate, tm=tm)
        elif k == "qret":
            if e["c"] in idx:
                put(k="qret", i=idx[e["c"]], tm=tm)
        elif k == "qcall":
            r = rets.get(e["c"])
            if r is None or r["queues"] is None:
                continue
            e = r
            idx[e["c"]] = put(k="status", qs=[{"m": q[0] if q[0] < 2 ** 31 else -(q[0] >> 33) - 1, "r": q[1]["num_ready"], "f": q[1]["num_inflight"]} for q in e["queues"]],
                unready=e["unready"], total=e["total"], etag=e["etag"], limit=e["limit"], soft=e["soft"], li=min(e["ln"], len(L)), tm=tm)
        elif k == "lcall":
            if e["c"] in rets:
                idx[e["c"]] = put(k="poll", etag=e["etag"], mn=e["mn"], to=e["to"], tm=tm)
        elif k == "lret":
            if e["c"] in idx:
                put(k="pollret", i=idx[e["c"]], etag=e["etag"] or 0, code=e["code"], tm=tm)
        elif k == "starved":
            put(k="bad", g="starved", tm=tm)
    for e in tail:
        if e["e"] == "raw" and e["s"].split()[:1] in (["S"], ["E"], ["A"]):
            put(k="bad", g="hard", why="a task process outlived execute()", tm=e["tm"])
        if e["e"] in ("pre", "post"):
            put(k="bad", g="hooks", tm=e["tm"])
        if e["e"] in ("scall", "ecall", "bcall") and rets.get(e["c"], {}).get("code") == 200:
            put(k="bad", g="code", tm=e["tm"])
    kidx = {kk: i + 1 for i, kk in enumerate(keys)}
    put(k="xret", order=[kidx.get(kk, 0) for kk in xret["order"]], nf=xret["nf"], li=l1, prompt=prompt, tm=xret["tm"])
    return l1
