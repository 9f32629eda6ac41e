"""Running TLC."""
import json, os, sys, re, shutil, subprocess, tempfile, threading, queue, time

class TooLong(RuntimeError):
    pass


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar"


def classpath():
    cp = [JARS]
    d = os.path.dirname(JARS)
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and f != os.path.basename(JARS):
            cp.append(os.path.join(d, f))
    return ":".join(cp)


def tlc(module, cfg, scratch, env=None, args=(), timeout=600, dfs=False, workers="1", heap="2g"):
    """Run TLC on spec/<module>.tla with the configuration text cfg. Returns (rc, output)."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        c = os.path.join(d, "run.cfg")
        open(c, "w").write(cfg)
        java = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4"]
        if dfs:
            java.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd = java + ["-cp", classpath(), "tlc2.TLC", "-noTE", "-config", c, "-workers", str(workers), "-metadir", os.path.join(d, "m")] + list(args) + [os.path.join(d, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            return p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as x:
            return None, (x.stdout or b"").decode(errors="replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _cfg(relaxed):
    return "SPECIFICATION TSpec\nCONSTANT Relaxed = {%s}\nCONSTRAINT Note\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n" % ", ".join('"%s"' % g for g in relaxed)


def check_traces(traces, scratch, relaxed=(), module="TraceExec", timeout=600):
    """-> (list of booleans, list of (di, li) furthest positions or None, stats)"""
    f = tempfile.mktemp(prefix="traces-", suffix=".json", dir=scratch)
    json.dump(traces, open(f, "w"))
    try:
        rc, out = tlc(module, _cfg(relaxed), scratch, env={"TRACES": f}, dfs=True, timeout=timeout, args=("-nowarning",))
    finally:
        os.unlink(f)
    acc = re.search(r'<<\s*"ACC",\s*\{?([^}>]*)\}?\s*>>', out.replace("\n", " "))
    if rc is None:
        raise TooLong("TLC timed out on traces: " + out[-500:])
    if acc is None or rc != 0:
        raise RuntimeError("TLC failed (rc=%s): %s" % (rc, out[:200] + "..." + out[out.find("Error:"):][:1500]))
    ok = set()
    txt = acc.group(1).strip()
    for part in filter(None, [x.strip() for x in txt.split(",")]):
        if ".." in part:
            a, b = part.split("..")
            ok |= set(range(int(a), int(b) + 1))
        else:
            ok.add(int(part))
    rej = {int(a): (int(b), int(c)) for a, b, c in re.findall(r'<<\s*"REJ",\s*(\d+),\s*<<\s*(\d+),\s*(\d+)\s*>>\s*>>', out)}
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    stats = {"generated": int(m.group(1).replace(",", "")), "distinct": int(m.group(2).replace(",", ""))} if m else {}
    return [i + 1 in ok for i in range(len(traces))], [rej.get(i + 1) for i in range(len(traces))], stats


def check_many(traces, scratch, jobs=4, batch=None, relaxed=(), module="TraceExec", timeout=600):
    """like check_traces, in parallel; None for a trace that could not be decided in time"""
    n = len(traces)
    ok, far = [None] * n, [None] * n
    tot = {"generated": 0, "distinct": 0}
    q = queue.Queue()
    per = max(1, min(batch or (40 if module == 'TraceExec' else 400), -(-n // jobs)))
    for a in range(0, n, per):
        q.put((a, min(n, a + per)))
    err = []
    lk = threading.Lock()

    def loop():
        while True:
            try:
                a, b = q.get_nowait()
            except queue.Empty:
                return
            try:
                try:
                    o, f, st = check_traces(traces[a:b], scratch, relaxed, module, min(timeout, 60 + 4 * (b - a)))
                except TooLong:
                    if b - a > 1:  # which one is it?
                        m = (a + b) // 2
                        q.put((a, m))
                        q.put((m, b))
                        continue
                    o, f, st = [None], [None], {}
                except RuntimeError:
                    if b - a > 1:
                        m = (a + b) // 2
                        q.put((a, m))
                        q.put((m, b))
                        continue
                    try:
                        o, f, st = check_traces(traces[a:b], scratch, relaxed, module, 60)
                    except TooLong:
                        o, f, st = [None], [None], {}
                    except RuntimeError as e:  # something that the specification has no words for
                        sys.stderr.write(str(e)[:600] + "\n")
                        o, f, st = [False], [None], {}
                with lk:
                    ok[a:b], far[a:b] = o, f
                    for k in tot:
                        tot[k] += st.get(k, 0)
            except Exception as e:
                err.append(e)
    ths = [threading.Thread(target=loop) for _ in range(jobs)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if err:
        raise err[0]
    return ok, far, tot
