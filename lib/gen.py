"""Scenarios for the real code: schedules generated by TLC from spec/SimExec.tla, completed with concrete
commands, keys and values."""
import json, os, random, re, tempfile
import tlc

BASE = {"minn": 1, "maxn": 5, "dens": 45, "affs": [[2], [3], [2, 3], [4]], "pfail": 25, "stats": [1, 2, -9], "sessions": 1,
        "execs": 1, "fa": [0], "prerun": 70, "par": [0], "partial": False, "ptarget": 0, "workers": 3, "minops": 4,
        "maxops": 16, "queues": [2, 3, 4], "jobs": 0, "psettle": 30, "pnobegun": 15, "times": [1000], "polls": [[0, 0, 3000]],
        "pstop": 100, "pkill": 0, "pcut": 0, "bag": ["start"] * 3 + ["begun"] * 3 + ["end", "end", "chain", "chain", "statusq"]}

CFG = "SPECIFICATION SSpec\nCONSTANT Relaxed = {}\nCHECK_DEADLOCK FALSE\n"


def simulate(profile, num, seed, scratch, depth=600):
    """num behaviours of SimExec as raw scenarios"""
    p = dict(BASE)
    p.update({k: v for k, v in profile.items() if k in BASE})
    f = tempfile.mktemp(prefix="prof-", suffix=".json", dir=scratch)
    json.dump(p, open(f, "w"))
    rc, out = tlc.tlc("SimExec", CFG, scratch, env={"PROFILE": f}, args=("-simulate", "num=%d" % num, "-seed", str(seed), "-depth", str(depth), "-nowarning"), timeout=300)
    os.unlink(f)
    res = []
    for l in out.splitlines():
        if l.startswith('"SCN '):
            res.append(json.loads(json.loads(l)[4:]))
    if rc != 0 or not res:
        raise RuntimeError("SimExec failed (%s): %s" % (rc, out[-2000:]))
    m = re.search(r"The number of states generated: ([\d,]+)", out)
    return res, int(m.group(1).replace(",", "")) if m else 0


def sh_cmd(status, sleep=0, extra="", ev=True):
    """a local task that tells the recorder when it starts and ends"""
    e = 'echo "S $1" >> "$XG_EV"; ' if ev else ""
    s = ("sleep %s; " % sleep) if sleep else ""
    w = status
    fin = "exit %d" % status if status >= 0 else "kill -%d $$" % -status
    x = 'echo "E $1 %d" >> "$XG_EV"; ' % w if ev else ""
    return ["/bin/sh", "-c", e + extra + s + x + fin, "sh"]


def jam(ops, rng):
    """stop the scheduler in a postamble while the next few commands arrive"""
    at = [i for i, o in enumerate(ops) if o[0] == "end" and len(o) < 5]
    if not at:
        return ops
    i = rng.choice(at)
    n = rng.randrange(2, 12)
    e = list(ops[i]) + [None] * (4 - len(ops[i]))
    out = ops[:i] + [["jam", e[1]], e + [{"bg": 1}], ["jammed"]]
    for o in ops[i + 1:i + 1 + n]:
        o = list(o)
        if o[0] in ("statusq", "settle", "await", "poll", "vsleep", "sleep"):
            continue
        if o[0] == "end":
            o += [None] * (4 - len(o))
            o[4:] = [dict(o[4] if len(o) > 4 else {}, bg=1)]
        out.append(o)
    return out + ([["sleep", rng.randrange(4)]] if rng.random() < 0.5 else []) + [["unjam"]] + ops[i + 1 + n:]


def watch(ops, rng):
    """several long polls wait while a task ends, and nothing else happens for a while"""
    at = [i for i, o in enumerate(ops) if o[0] == "end" and not any(x[0] in ("soft", "hard", "sigint") for x in ops[:i])]
    if not at:
        return ops
    i = rng.choice(at)
    n = rng.choice([2, 2, 3, 4])
    polls = [["poll", "p", 0, rng.choice([0, 0, 100]), 8000] for _ in range(n)]
    return ops[:i] + [["statusq", False]] + polls + [["sleep", rng.choice([20, 60])]] + [ops[i]] + [["sleep", 1800]] + ops[i + 1:]


def barrier(group):
    """wait until all tasks of the group run at the same time"""
    pat = "|".join(str(g) for g in sorted(group))
    return ('i=0; until [ $(grep -cxE "S (%s)" "$XG_EV") -ge %d ]; do i=$((i+1)); if [ $i -gt 500 ]; then echo "B $1" >> "$XG_EV"; break; fi; sleep 0.02; done; '
            % (pat, len(group)))


def scenario(raw, sid, rng, prof):
    """a driver scenario from a raw one"""
    n = raw["n"]
    out = raw["outcome"]
    local = prof.get("local", False)
    odd = prof.get("oddkeys", 0)
    tasks = []
    group = set()
    if prof.get("barrier"):
        par = raw["steps"][0]["par"]
        free = [i + 1 for i in range(n) if not raw["deps"][i] and raw["affs"][i] == [0] and out[i] == 0]
        rng.shuffle(free)
        group = set(free[:par])
        cons = [i + 1 for i in range(n) if not raw["deps"][i] and raw["affs"][i] == [1] and out[i] == 0]
        group |= set(cons[:1])
    for i in range(n):
        t = {"key": "k%d" % (i + 1), "deps": [d - 1 for d in raw["deps"][i]], "aff": sum(1 << q for q in raw["affs"][i])}
        if t["deps"] and rng.random() < prof.get("dupdeps", 0.15):  # the same dependency given twice
            t["deps"].insert(rng.randrange(len(t["deps"]) + 1), rng.choice(t["deps"]))
        if odd and rng.random() < odd:
            t["key"] = rng.choice(['"q%d"', "ä%d", "a\nb%d", "x/y%d", " s%d", "\\u%d", "{%d}", "\t%d"]) % i
        if local and set(raw["affs"][i]) & {0, 1}:
            t["cmd"] = sh_cmd(out[i], rng.choice(prof.get("sleeps", [0])), barrier(group) if i + 1 in group and len(group) > 1 else "")
            if rng.random() < prof.get("nocmd", 0):
                t["cmd"] = ["/nonexistent/prog"]
                t["lst"] = [-1]
                t["nostart"] = True
        if rng.random() < prof.get("nohooks", 0.2):
            t["hooks"] = False
        if rng.random() < prof.get("display", 0.1):
            t["display"] = "show %d\twith \\\n tab" % i
        if prof.get("roots") and rng.random() < 0.5:
            t["storage_root"] = rng.randrange(prof["roots"])
        tasks.append(t)
    if rng.random() < prof.get("emptykey", 0):
        tasks[rng.randrange(n)]["key"] = ""
    steps = []
    for st in raw["steps"]:
        st = dict(st)
        if st["op"] == "open":
            if prof.get("roots"):
                st["roots"] = ["r%d/" % i if i % 2 == 0 else "$KEY-%d/" % i for i in range(prof["roots"])]
        if st["op"] == "exec":
            st["remote"] = prof.get("remote", True)
            if prof.get("scale"):
                st["scale"] = prof["scale"]
            if prof.get("rates"):
                st["rate"] = rng.choice(prof["rates"])
            ops = []
            for o in st["ops"]:
                o = list(o)
                if o[0] == "end" and rng.random() < prof.get("values", 0.3):
                    while len(o) < 4:
                        o.append(None)
                    v = [{"k%d" % j: rng.choice(["", "v", "ü", "a=b", "1"]) for j in range(rng.randrange(3))} for _ in range(rng.randrange(3))]
                    if len(o) == 4:
                        o.append({})
                    o[4] = dict(o[4], values=v)
                ops.append(o)
            if rng.random() < prof.get("jam", 0):
                ops = jam(ops, rng)
            if rng.random() < prof.get("watch", 0):
                ops = watch(ops, rng)
            st["ops"] = ops
            if not st["remote"]:
                st["ops"] = []
                st["finish"] = []
        steps.append(st)
    s = {"id": sid, "tasks": tasks, "steps": steps}
    if prof.get("limit_ms"):
        s["limit_ms"] = prof["limit_ms"]
    return s


def scenarios(name, prof, num, seed, scratch):
    raws, states = simulate(prof, num, seed, scratch)
    rng = random.Random("%s-%s" % (name, seed))
    return [scenario(r, "%s-%d-%d" % (name, seed, i), rng, prof) for i, r in enumerate(raws)], states
