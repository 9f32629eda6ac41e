"""C09: the real lock hand-over, one system call at a time, in the order that spec/LockFile.tla says."""
import json, os, queue, select, shutil, signal, subprocess, threading, time
import xg

LOCKER = os.path.join(xg.TARGET, "debug", "locker")


class Worker:
    def __init__(self):
        self.p = subprocess.Popen([LOCKER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  start_new_session=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        self.buf = b""
        assert self.read(60) == "R ready"

    def send(self, l):
        os.write(self.p.stdin.fileno(), (l + "\n").encode())

    def read(self, timeout=4):
        end = time.time() + timeout
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r:
                return None
            b = os.read(self.p.stdout.fileno(), 65536)
            if not b:
                return ""
            self.buf += b
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode(errors="replace")

    def kill(self):
        try:
            self.p.send_signal(signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()


class Lane:
    """N processes and one log"""

    def __init__(self, d, n):
        self.d, self.n = d, n
        self.w = [None] * (n + 1)
        os.makedirs(d, exist_ok=True)

    def stop(self):
        for w in self.w:
            if w:
                w.kill()

    def log(self):
        try:
            return open(self.path, "rb").read()
        except OSError:
            return b""

    def logkey(self):
        k = ""
        for l in self.log().split(b"\n"):
            try:
                k = json.loads(l)["Header"]["workflow_key"]
            except (ValueError, KeyError):
                pass
        return k

    def run(self, trail, opens, n):
        shutil.rmtree(self.d)
        os.makedirs(self.d)
        self.path = os.path.join(self.d, "wrk.log")
        self.ev, self.stuck = [], False
        self.state = ["idle"] * (n + 1)     # idle / gate
        self.cmd, self.hold, self.left, self.dead = [""] * (n + 1), [False] * (n + 1), [opens] * (n + 1), [False] * (n + 1)
        self.nkey = 0
        for t in trail:
            p = abs(t) - 1
            if self.dead[p] or self.stuck:
                continue
            self.die(p) if t < 0 else self.step(p)
        for _ in range(200):
            busy = [p for p in range(n) if not self.dead[p] and (self.state[p] == "gate" or self.hold[p])]
            if not busy or self.stuck:
                break
            for p in busy:
                self.step(p)
        if not self.stuck:
            self.left[n] = 1
            ok = False
            for _ in range(60):
                self.step(n, quiet=True)
                if self.hold[n]:
                    ok = True
                if self.stuck or (self.state[n] == "idle" and not self.hold[n]):
                    break
            keys = set()
            for l in self.log().split(b"\n"):
                if l:
                    try:
                        r = json.loads(l)
                        if "Header" in r:
                            keys.add(r["Header"]["workflow_key"])
                    except ValueError:
                        keys |= {"malformed", "record"}
            self.ev.append({"k": "end", "p": 1, "ok": ok, "oneKey": len(keys) <= 1})
        if self.stuck:
            self.ev.append({"k": "stuck", "p": 1})
            self.stop()
            self.w = [None] * (self.n + 1)
        return self.ev

    def die(self, p):
        w = self.w[p]
        if w is None:
            return
        w.kill()
        self.w[p] = None
        self.dead[p] = True
        self.hold[p] = False
        self.state[p] = "idle"
        self.ev.append({"k": "die", "p": p + 1})

    def step(self, p, quiet=False):
        if self.w[p] is None:
            self.w[p] = Worker()
        w = self.w[p]
        before = self.log()
        if self.state[p] == "gate":
            w.send("go")
        elif self.hold[p]:
            self.cmd[p] = "close"
            if not quiet:
                self.ev.append({"k": "ccall", "p": p + 1})
            w.send("close")
        elif self.left[p] > 0:
            self.left[p] -= 1
            self.cmd[p] = "open"
            self.nkey += 1
            if not quiet:
                self.ev.append({"k": "ocall", "p": p + 1})
            w.send("open %s p%d-%d" % (self.path, p, self.nkey))
        else:
            return
        l = w.read()
        if not quiet and self.log() != before:
            self.ev.append({"k": "change", "p": p + 1})
        if not l:
            self.stuck = True
            if l == "":
                self.ev.append({"k": "crash", "p": p + 1})
            return
        if l.startswith("P "):
            self.stuck = True
            self.ev.append({"k": "panic", "p": p + 1, "what": l[:300]})
            return
        if l.startswith("G "):
            self.state[p] = "gate"
            return
        self.state[p] = "idle"
        if self.cmd[p] == "open":
            self.hold[p] = l.startswith("R ok")
            if not quiet:
                self.ev.append({"k": "oret", "p": p + 1, "ok": self.hold[p], "key": l[5:] if self.hold[p] else "",
                                "logkey": self.logkey(), "locked": "locked" in l or "lock" in l.lower(), "msg": l[:120]})
        else:
            self.hold[p] = False
            if not quiet:
                self.ev.append({"k": "cret", "p": p + 1})


def run(items, scratch, lanes=6):
    """items: (trail, opens, n) -> list of event lists"""
    out = [None] * len(items)
    q = queue.Queue()
    for i, x in enumerate(items):
        q.put((i, x))
    errs, stuck = [], [0]

    def loop(k):
        lane = Lane(os.path.join(scratch, "lane%d" % k), 3)
        try:
            while True:
                try:
                    i, (trail, opens, n) = q.get_nowait()
                except queue.Empty:
                    return
                lane.w += [None] * (n + 1 - len(lane.w))
                out[i] = lane.run(trail, opens, n)
                stuck[0] += lane.stuck
                if stuck[0] >= 12:
                    return
        except Exception as e:
            import traceback
            errs.append(traceback.format_exc())
        finally:
            lane.stop()
            shutil.rmtree(lane.d, ignore_errors=True)
    ths = [threading.Thread(target=loop, args=(k,)) for k in range(lanes)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        raise RuntimeError(errs[0])
    return out
