"""What each check generates, explores and compares."""

# profiles of spec/SimExec.tla (see lib/gen.py for the defaults)
PROFILES = {
    "plain": {},
    "multi": {"sessions": 2, "execs": 2, "partial": True, "ptarget": 30, "maxn": 6},
    "prio": {"minn": 4, "maxn": 8, "affs": [[2], [2], [2, 3]], "queues": [2, 3], "maxops": 30, "minops": 10},
    "paths": {"minn": 8, "maxn": 12, "dens": 22, "affs": [[2]], "queues": [2], "workers": 2, "maxops": 45, "minops": 30, "pfail": 3, "fa": [0],
              "pnobegun": 5, "bag": ["start"] + ["begun"] * 2 + ["chain", "chain", "end"]},
    "budget": {"fa": [1, 2, 3], "pfail": 50, "scale": 40, "times": [1000, 6000, 3000], "minn": 3, "maxn": 7, "dens": 20,
               "minops": 8, "maxops": 25, "affs": [[2], [3], [2, 3]], "queues": [2, 3], "nohooks": 0,
               "bag": ["start"] * 3 + ["begun"] * 3 + ["end", "chain", "vsleep", "vsleep", "statusq"]},
    "spread": {"fa": [2, 2, 3, 4], "pfail": 45, "scale": 40, "times": [1000, 6000], "minn": 6, "maxn": 9, "dens": 6, "workers": 3,
               "minops": 25, "maxops": 45, "affs": [[2]], "queues": [2], "nohooks": 0, "pnobegun": 3,
               "bag": ["start"] * 3 + ["begun"] * 4 + ["end", "chain", "chain"] * 2 + ["vsleep", "statusq"]},
    "slots": {"local": True, "barrier": True, "affs": [[0], [0], [0], [1], [0, 1]], "par": [1, 2, 3, 4], "remote": False, "minn": 4, "maxn": 9, "dens": 15,
              "sleeps": [0, 0.03, 0.1], "workers": 0, "minops": 0, "maxops": 0, "pfail": 10},
    "jamhard": {"jam": 1, "minn": 5, "maxn": 9, "dens": 12, "minops": 20, "maxops": 40, "workers": 5, "pstop": 12, "pnobegun": 30, "nohooks": 0, "sessions": 2,
                "bag": ["start"] * 3 + ["begun"] * 2 + ["end", "end", "chain", "hard", "sigint"]},
    "jam": {"jam": 1, "minn": 4, "maxn": 9, "dens": 15, "minops": 20, "maxops": 40, "workers": 5, "pstop": 10, "nohooks": 0, "pfail": 15, "affs": [[2], [2], [2, 3]], "queues": [2, 3],
            "bag": ["start"] * 3 + ["begun"] * 2 + ["end", "end", "chain", "chain", "soft", "late", "badend"]},
    "soft": {"sessions": 2, "execs": 2, "minn": 3, "maxn": 6, "dens": 30, "pstop": 50,
             "bag": ["start"] * 3 + ["begun"] * 3 + ["end", "chain", "soft", "statusq"]},
    "hard": {"sessions": 2, "minn": 3, "maxn": 6, "dens": 30, "pstop": 40,
             "bag": ["start"] * 3 + ["begun"] * 3 + ["end", "chain", "hard", "sigint", "statusq", "soft"]},
    "tx": {"pstop": 20, "minops": 10, "maxops": 30,
           "bag": ["start"] * 3 + ["begun", "begun", "end", "chain", "late", "late", "badend", "badbegun", "badstart", "ping", "statusq"]},
    "slurm": {"jobs": 3, "workers": 5, "minops": 10, "maxops": 30,
              "bag": ["start"] * 3 + ["begun", "begun", "end", "chain", "mark", "statusq"]},
    "ping": {"scale": 30, "minn": 2, "times": [20000, 29000, 33000, 38000, 5000], "maxops": 24, "pnobegun": 30,
             "bag": ["start"] * 3 + ["begun", "begun", "end", "vsleep", "vsleep", "ping", "ping", "late"]},
    "status": {"polls": [[0, 0, 3000], [0, 200, 2000], [-1, 300, 5000], [0, 0, 500]],
               "bag": ["start", "start", "begun", "end", "chain", "poll", "poll", "statusq"]},
    "watch": {"watch": 1, "minn": 3, "dens": 60, "pfail": 10, "minops": 12, "maxops": 24, "pstop": 10,
              "bag": ["start"] * 3 + ["begun"] * 2 + ["end", "end", "chain"]},
    "crash": {"sessions": 4, "pkill": 6, "pcut": 60, "pfail": 20, "pstop": 15,
              "bag": ["start"] * 3 + ["begun"] * 3 + ["end", "chain", "soft", "hard"]},
    "local": {"local": True, "affs": [[0], [0], [1], [0, 1]], "par": [1, 2, 4], "remote": False, "sessions": 2, "execs": 2,
              "pfail": 30, "ptarget": 30, "stats": [1, 2, -9, -15], "nocmd": 0.1, "fa": [0, 0, 1], "maxn": 8},
    "mixed": {"local": True, "affs": [[0], [2], [0, 2], [1, 3]], "par": [1, 2], "execs": 2, "stats": [1, 3],
              "queues": [2, 3], "sleeps": [0, 0.02]},
    "ident": {"sessions": 3, "execs": 2, "roots": 3, "oddkeys": 0.4, "maxn": 4, "pfail": 40, "partial": True},
    "emptykey": {"sessions": 2, "execs": 2, "emptykey": 1, "maxn": 4},
    "wide": {"minn": 6, "maxn": 10, "dens": 15, "affs": [[2, 3, 4, 5], [2], [3, 4], [5]], "queues": [2, 3, 4, 5], "workers": 5,
             "minops": 20, "maxops": 50, "pfail": 15},
    "deep": {"minn": 6, "maxn": 10, "dens": 60, "affs": [[2]], "queues": [2], "minops": 15, "maxops": 40, "pfail": 10, "execs": 2, "ptarget": 50},
}

TIMING = ("ping", "budget", "late", "starved", "rate", "etag")
GROUPS = ("dep", "once", "complete", "result", "queue", "slots", "prio", "budget", "soft", "hard", "stop", "slurm", "tx", "ping", "log",
          "vals", "hooks", "resume", "target", "ident", "lock", "graph", "crash", "status", "rate", "code", "late", "starved", "etag")

# exhaustive configurations of spec/MCExec.tla
MC = {
    "dags": dict(N=3),
    "queues": dict(N=2, Q="2, 3"),
    "local": dict(N=3, Q="0, 1", PR=1, DG="one", J='""'),
    "localstop": dict(N=2, Q="0, 1", PR=1, J='""', ST='"hard", "soft"', B="0, 1"),
    "local2": dict(N=3, Q="0", PR=2, J='""'),
    "soft": dict(N=2, ST='"soft"'),
    "hard": dict(N=2, ST='"hard", "soft"'),
    "budget": dict(N=2, B="1, 2"),
    "slurm": dict(N=2, J='"a", "b"', DG="one"),
    "ping": dict(N=2, LO="TRUE", DG="one"),
    "sessions": dict(N=2, SE=2, EX=2, DG="one"),
    "targets": dict(N=3, TG="TRUE", DG="one", EX=2),
    "partial": dict(N=2, PA="TRUE", EX=2),
    "crash": dict(N=2, SE=2, CR=1),
    # thorough
    "dags4": dict(N=4, DG="one"),
    "queues3": dict(N=3, Q="2, 3", TO=1500),
    "softdags": dict(N=3, ST='"soft"'),
    "harddags": dict(N=3, ST='"hard", "soft"', TO=1500),
    "all2": dict(N=2, SE=2, EX=2, ST='"hard", "soft"', B="0, 1", CR=1, TG="TRUE", PA="TRUE", TO=1500),
    "sess3": dict(N=2, SE=3, EX=1, CR=1, PA="TRUE", TO=1500),
    "budget3": dict(N=3, B="1, 2", TO=1500),
}
# a guard group switched off must break an invariant of MCExec: (configuration)
NEEDED = {
    "dep": dict(N=3), "once": dict(N=2), "complete": dict(N=3), "hooks": dict(N=2), "log": dict(N=2), "result": dict(N=2),
    "resume": dict(N=2, SE=2, EX=2, DG="one"), "target": dict(N=3, TG="TRUE", DG="one"),
    "prio": dict(N=3, Q="2, 3"), "queue": dict(N=2, Q="2, 3"), "soft": dict(N=2, ST='"soft"'), "hard": dict(N=2, ST='"hard"'),
    "stop": dict(N=2, ST='"soft"'), "budget": dict(N=3, B="1, 2"), "slurm": dict(N=2, J='"a", "b"', DG="one"),
    "tx": dict(N=2, J='"a", "b"', DG="one"), "ping": dict(N=2, LO="TRUE", DG="one"),
    "slots": dict(N=3, Q="0", PR=1, J='""'), "lock": dict(N=2, SE=2), "ident": dict(N=2, SE=2),
}


def P(own, profiles, mc, thorough_mc=(), fixed=(), extra=(), technique=None):
    return {"own": own, "profiles": profiles, "mc": mc, "tmc": thorough_mc, "fixed": fixed, "extra": extra, "technique": technique}


# per property: guard groups that make it up, profiles with the number of scenarios (quick), configurations
PLANS = {
    "C01": P(("dep", "hooks"), {"multi": 110, "wide": 50, "mixed": 50, "local": 60, "deep": 40, "hard": 30}, ["dags", "sessions"], ["dags4", "all2"]),
    "C02": P(("once", "resume", "log", "queue"), {"wide": 90, "multi": 80, "mixed": 60, "local": 60, "tx": 40, "jam": 40}, ["queues", "sessions", "local"], ["queues3"]),
    "C03": P(("complete", "result", "queue", "starved", "stop", "code"), {"plain": 80, "wide": 60, "local": 60, "multi": 60, "mixed": 40, "deep": 30, "jam": 40}, ["dags", "queues"], ["dags4", "queues3"]),
    "C04": P(("budget", "soft"), {"budget": 130, "spread": 80}, ["budget"], ["budget3"]),
    "C05": P(("log", "vals", "dep", "ident", "hard", "crash"), {"plain": 50, "tx": 60, "hard": 60, "local": 70, "mixed": 40, "ping": 30, "jamhard": 40}, ["dags", "hard"], ["harddags"]),
    "C06": P(("resume", "ident", "target"), {"multi": 130, "ident": 50, "emptykey": 40, "crash": 40, "hard": 30}, ["sessions", "crash"], ["all2", "sess3"]),
    "C07": P(("target", "resume", "once"), {"deep": 90, "multi": 110, "local": 70}, ["targets"], ["all2"]),
    "C08": P(("crash", "resume", "log", "dep", "ident"), {"crash": 150}, ["crash"], ["sess3"]),
    "C09": P(("lock",), {}, [], extra=["lock_part"]),
    "C10": P((), {}, [], extra=["view_part"]),
    "C11": P(("tx", "vals", "code", "log"), {"tx": 200, "mixed": 30, "jam": 30}, ["slurm"], []),
    "C12": P(("ping", "tx", "log", "late"), {"ping": 110}, ["ping"], []),
    "C13": P(("slurm", "code"), {"slurm": 200}, ["slurm"], []),
    "C14": P(("soft", "stop", "log", "code", "status"), {"soft": 200, "jam": 60}, ["soft"], ["softdags"]),
    "C15": P(("hard", "late", "log", "code", "resume"), {"hard": 180, "crash": 40, "jamhard": 80}, ["hard", "localstop"], ["harddags", "all2"]),
    "C16": P(("status", "late", "etag"), {"status": 130, "watch": 50, "wide": 30, "budget": 20}, ["dags"], []),
    "C17": P(("rate", "starved"), {}, [], extra=["rate_part"]),
    "C18": P(("prio", "queue"), {"prio": 120, "paths": 60, "wide": 50, "mixed": 40, "local": 30}, ["queues"], ["queues3"]),
    "C19": P((), {}, [], extra=["worker_part"]),
    "C20": P((), {}, [], extra=["io_part"]),
    "C21": P(("graph", "dep", "complete", "resume", "once"), {"multi": 60}, [], extra=["graph_part"]),
    "C22": P(("hooks",), {"plain": 70, "local": 70, "mixed": 60, "hard": 40, "soft": 30, "jam": 40, "jamhard": 30}, ["dags", "hard"], ["harddags"]),
    "C24": P(("slots",), {"slots": 220, "local": 60, "mixed": 40}, ["local", "local2"], ["localstop"]),
    "C23": P(("ident", "resume"), {"ident": 170, "crash": 30}, ["sessions"], ["sess3"]),
}
