"""Running scenarios against the real code: a pool of `xg worker` processes (see harness/)."""
import json, os, subprocess, threading, queue, shutil, signal, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.environ.get("VERIF_TARGET", os.path.join(VERIF, "build", "target"))
XG = os.path.join(TARGET, "debug", "xg")
REMOTE = os.path.join(TARGET, "debug", "execgraph-remote")


class Scratch:
    """A scratch directory removed at exit."""

    def __enter__(self):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and \
            shutil.disk_usage("/dev/shm").free > 300 << 20 else None
        self.dir = tempfile.mkdtemp(prefix="xgv-", dir=base)
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def _spawn(scratch, env):
    e = dict(os.environ)
    e.update(XG_SCRATCH=scratch, PYTHONDONTWRITEBYTECODE="1", RUST_BACKTRACE="0")
    e.pop("XG_EV", None)
    e.update(env or {})
    return subprocess.Popen([XG, "worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                            stderr=None if e.get("XG_STDERR") else subprocess.DEVNULL, env=e, cwd=scratch,
                            start_new_session=True)


def _kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def run(scenarios, jobs=6, scratch=None, env=None, max_hang=None):
    """Like _run, but a scenario with a "kill" step goes on in a fresh process with the steps after it."""
    with_kill = {}
    first = []
    for i, s in enumerate(scenarios):
        ops = [st["op"] for st in s["steps"]]
        if "kill" in ops[:-1] and "dir" not in s:
            k = ops.index("kill") + 1
            d = os.path.join(scratch, "k%d" % i)
            with_kill[i] = (d, s["steps"][k:])
            s = dict(s, dir=d, steps=s["steps"][:k])
        first.append(s)
    out = _run(first, jobs, scratch, env, max_hang)
    while with_kill:
        todo, nxt = [], {}
        for i, (d, rest) in with_kill.items():
            if out[i].get("skip"):
                continue
            ops = [st["op"] for st in rest]
            if "kill" in ops[:-1]:
                k = ops.index("kill") + 1
                nxt[i] = (d, rest[k:])
                rest = rest[:k]
            todo.append((i, dict(scenarios[i], dir=d, steps=rest)))
        res = _run([s for _, s in todo], jobs, scratch, env, max_hang)
        for (i, s), r in zip(todo, res):
            if r.get("skip"):
                nxt.pop(i, None)
            r["hang"] = r["hang"] or out[i]["hang"]
            if out[i]["died"] is not None:
                r["died"] = out[i]["died"]
            out[i] = r
            if i not in nxt:
                shutil.rmtree(s["dir"], ignore_errors=True)
        with_kill = nxt
    return out


def _run(scenarios, jobs=6, scratch=None, env=None, max_hang=None):
    """Run every scenario (dict with at least id, tasks, steps); returns results in the same order.
    A result has ev (parsed events), log (raw lines), hang, and died (return code) if the process ended early."""
    out = [None] * len(scenarios)
    hung = []
    q = queue.Queue()
    for i, s in enumerate(scenarios):
        q.put((i, s))

    def one(p, s):
        line = json.dumps(s) + "\n"
        try:
            p.stdin.write(line.encode())
            p.stdin.flush()
            rep = p.stdout.readline()
        except BrokenPipeError:
            rep = b""
        return rep

    def loop(wi):
        p = None
        n = 0
        while True:
            try:
                i, s = q.get_nowait()
            except queue.Empty:
                break
            if max_hang is not None and len(hung) >= max_hang:
                # enough scenarios to look at
                out[i] = {"id": s["id"], "hang": False, "died": None, "ev": [], "log": [], "skip": True}
                continue
            s = dict(s)
            made = None
            if "dir" not in s:
                n += 1
                made = s["dir"] = os.path.join(scratch, "w%d-%d" % (wi, n))
            for attempt in (0, 1):
                fresh = p is None or p.poll() is not None
                if fresh:
                    p = _spawn(scratch, env)
                rep = one(p, s)
                if rep or fresh:
                    break
                # the process had died after the previous scenario (e.g. killed): start again
                p.wait()
            if rep:
                r = json.loads(rep)
                r["died"] = None
                if r["hang"]:
                    hung.append(i)
                # a "kill" or hung worker goes away after its reply
                if r["hang"] or any(st["op"] == "kill" for st in s["steps"]):
                    try:
                        p.wait(timeout=10)
                    except subprocess.TimeoutExpired:
                        pass
                    _kill_group(p)
                    p.wait()
                    p = None
            else:
                p.wait()
                _kill_group(p)
                r = {"id": s["id"], "hang": False, "died": p.returncode, "ev": [], "log": []}
                for k, f in (("ev", "events"), ("log", "wrk.log")):
                    try:
                        r[k] = open(os.path.join(s["dir"], f), errors="replace").read().splitlines()
                    except OSError:
                        pass
                p = None
            ev = []
            for l in r["ev"]:
                try:
                    ev.append(json.loads(l))
                except ValueError:
                    ev.append({"e": "raw", "s": l})
            r["ev"] = ev
            out[i] = r
            if made:
                shutil.rmtree(made, ignore_errors=True)
        if p is not None:
            try:
                p.stdin.close()
                p.wait(timeout=5)
            except subprocess.TimeoutExpired:
                pass
            _kill_group(p)
            p.wait()

    ths = [threading.Thread(target=loop, args=(w,)) for w in range(min(jobs, max(1, len(scenarios))))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return out


def show(r):
    print("==", r["id"], "hang" if r["hang"] else "", "died=%s" % r["died"] if r["died"] is not None else "")
    for e in r["ev"]:
        e = dict(e)
        k = e.pop("e")
        tm = e.pop("tm", "")
        print("%6s %-6s %s" % (tm, k, json.dumps(e)[:260]))
    for l in r["log"]:
        try:
            d = json.loads(l)
            k = list(d)[0]
            d[k].pop("time", None)
            if k == "Header":
                d[k] = {x: d[k][x] for x in ("workflow_key", "storage_roots", "version")}
            print("     L", k, json.dumps(d[k]))
        except Exception:
            print("     L RAW", l[:200])


if __name__ == "__main__":
    import sys
    with Scratch() as d:
        for r in run([json.loads(l) for l in open(sys.argv[1]) if l.strip() and not l.startswith("#")], scratch=d, env={"XG_STDERR": os.environ.get("XG_STDERR", "")} if os.environ.get("XG_STDERR") else None):
            show(r)
