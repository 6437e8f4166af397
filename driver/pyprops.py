"""C10 and C11: the Python module under simulated allocators.

A case is one JSON object: {"ops": [...], "faults": {op: [plan of attempt 0, plan of attempt 1, ...]}, "passes": n, ...}.
It runs in a forked copy of one interpreter (fixed hash seed, fixed addresses, no other thread); every allocation of the
module and of the interpreter during a call is numbered and fails where the plan says so.
"""
import hashlib, json, math, multiprocessing as mp, os, random, select, signal, subprocess, sys, time, traceback
from core import *
import core
import build as B
import gen as G

REAL = ["python/nikfemm.cpp (whole module)", "drawing, geometry, mesh and Triangle mesher, current density and multi-layer simulation, algebra and solvers (no OpenCV)", "CPython 3.12 interpreter and its object allocator (with its debug checks)"]
STUBS = ["malloc/new of the module: counted, guarded, failing on plan", "CPython's three allocator domains: counted, failing on plan", "standard streams: /dev/null or closed"]


class PyPool:
    """One server process; a case per forked child."""

    def __init__(self, so):
        self.so = so
        self.cache = {}
        self.stats = {"runs": 0, "cached": 0, "steps": 0, "simns": 0, "clock": 0, "rand": 0, "switches": 0, "console": 0, "faulty_runs": 0, "faultfree_runs": 0, "fired": [0] * 9}
        self.cfail = self.pfail = 0
        self.traces = set()
        self.p = None

    def start(self):
        env = {"PYTHONHASHSEED": "0", "PYTHONMALLOC": "debug", "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C"}
        cmd = ["/usr/bin/python3", "-s", "-S", "-B", os.path.join(B.VERIF, "pysim/run.py"), self.so]
        if subprocess.run(["setarch", "-R", "true"], stderr=subprocess.DEVNULL).returncode == 0:
            cmd = ["setarch", "-R"] + cmd
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    def raw(self, case):
        if self.p is None:
            self.start()
        self.p.stdin.write((json.dumps(case) + "\n").encode())
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            raise MachineryError("the Python server ended")
        return json.loads(l)

    def run(self, case):
        d = self.raw(case)
        r = Res(case, d)
        self.stats["runs"] += 1
        self.stats["steps"] += r.allocs
        self.cfail += r.cfail
        self.pfail += r.pfail
        if r.cfail + r.pfail:
            self.stats["faulty_runs"] += 1
        else:
            self.stats["faultfree_runs"] += 1
        if case.get("console"):
            self.stats["console"] += 1
        self.traces.add(r.hash[:16])
        return r

    def fresh(self, case):
        q = PyPool(self.so)
        try:
            return q.run(case)
        finally:
            q.close()

    def ref(self, case):
        k = json.dumps(case, sort_keys=True)
        if k in self.cache:
            self.stats["cached"] += 1
            return self.cache[k]
        if len(self.cache) > 500:
            self.cache.clear()
        r = self.cache[k] = self.run(case)
        return r

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.kill()
            self.p.wait()
            self.p = None


class Res:
    def __init__(self, case, d):
        self.status = d["status"]
        self.text = d["text"]
        self.rows, self.live = [], []
        self.end = False
        self.heap = None
        self.allocs = self.cfail = self.pfail = 0
        for l in d["text"].splitlines():
            try:
                x = json.loads(l)
            except ValueError:
                continue
            if x[0] == "end":
                self.end = True
            elif x[0] == "machinery":
                raise MachineryError("Python runner: " + x[1])
            elif x[3] == "live":
                self.live.append(tuple(x[5:8]))
            elif x[3] == "heap":
                self.heap = self.heap or "%s at call %s" % (x[4], x[1])
            else:
                self.rows.append(x)
                self.allocs += x[5] + x[6]
                self.cfail += x[7]
                self.pfail += x[8]
        self.hash = hashlib.sha256((d["text"] + "|%d" % d["status"]).encode()).hexdigest()

    def final(self, p=0):
        """outcome of each call of a pass, after its repetitions"""
        o = {}
        for x in self.rows:
            if x[0] == p:
                o[x[1]] = (x[3], x[4])
        return o


def died(r):
    if r.status == 0 and r.end:
        return None
    s = r.status
    last = r.rows[-1] if r.rows else None
    how = "signal %d (%s)" % (s & 127, signal.Signals(s & 127).name) if s & 127 else "exit status %d" % (s >> 8)
    k = "hang" if s & 127 == signal.SIGPROF else "crash"
    return Verdict(k, "the interpreter ended with %s after %s" % (how, last and "pass %d call %d attempt %d (%s %s)" % tuple(last[:5])))


def show(op):
    return "%s(%s)" % (op["m"], ", ".join(json.dumps(a) for a in op.get("a", [])))[:200]


def basic(case, r):
    v = died(r)
    if v:
        n = [x for x in r.rows]
        return v
    if r.heap:
        return Verdict("heap", r.heap)
    for x in r.rows:
        if x[3] == "exc" and x[4].startswith("SystemError"):
            return Verdict("protocol", "call %d %s: %s" % (x[1], show(case["ops"][x[1]]), x[4]))
    return None


# ---- programs ---------------------------------------------------------------------------------------
def g(x):
    return float("%.6g" % x)


def model(rng, o, s, tiny=True, style=None):
    """a valid program on object o with system s"""
    n = rng.choice([1, 1, 2, 2, 3])
    w, h = g(rng.uniform(0.5, 2)), g(rng.uniform(0.5, 2))
    ops = [{"m": "new", "r": o, "a": [n, [g(rng.uniform(0.1, 2)) if rng.random() < 0.8 else rng.randint(1, 3) for _ in range(n)]]}]
    if rng.random() < 0.15:
        ops[0]["sub"] = 1
    for l in range(n):
        t = rng.random()
        if t < 0.7:
            ops.append({"m": "draw_rectangle", "o": o, "a": [[0, 0], [w, h], l]})
        else:
            k = rng.randint(3, 7)
            P = [[g(w / 2 + w / 1.4 * math.cos(2 * math.pi * i / k + 0.3)), g(h / 2 + h / 1.4 * math.sin(2 * math.pi * i / k + 0.3))] for i in range(k)]
            ops.append({"m": "draw_polygon", "o": o, "a": [P, l]})
        ops.append({"m": "draw_region", "o": o, "a": [[g(0.5 * w), g(0.5 * h)], g(rng.uniform(0.5, 5)), l]})
        if rng.random() < 0.25:
            ops.append({"m": "draw_rectangle", "o": o, "a": [[g(0.3 * w), g(0.3 * h)], [g(0.4 * w), g(0.4 * h)], l]})
            ops.append({"m": "draw_region", "o": o, "a": [[g(0.35 * w), g(0.35 * h)], g(rng.uniform(0.5, 5)), l]})
    for l in range(n - 1):
        ops.append({"m": "add_interconnection", "o": o, "a": [[g(0.7 * w), g(0.5 * h)], [g(0.7 * w), g(0.5 * h)], l, l + 1, g(rng.uniform(0.1, 3)) if rng.random() < 0.7 else 1]})
    k = rng.uniform(4, 15) if tiny else rng.uniform(15, 60)
    a = [rng.random() < 0.15, g(w * h / k), rng.choice([0, 15, 20, 25.0])]
    gen = {"m": "generate_system", "o": o, "r": s, "a": a}
    ops.append(gen)
    if rng.random() < 0.2:
        ops.append(dict(gen))
    ops.append({"m": "set_voltage", "o": o, "a": [{"$": "obj", "v": s}, [0, 0], g(rng.uniform(0.5, 3)), 0]})
    ops.append({"m": "set_voltage", "o": o, "a": [{"$": "obj", "v": s}, [w, h], 0, n - 1]})
    ops.append({"m": "solve", "o": o, "a": [{"$": "obj", "v": s}]})
    if rng.random() < 0.3:
        ops.append({"m": "solve", "o": o, "a": [{"$": "obj", "v": s}]})
    return ops, dict(n=n, w=w, h=h)


def kinds(rng, x, p):
    """the same value, some of its numbers and lists of a derived type"""
    if isinstance(x, list):
        y = [kinds(rng, v, p) for v in x]
        return {"$": "row", "v": y} if rng.random() < p / 2 else y
    if type(x) is float and rng.random() < p:
        return {"$": "num", "v": x}
    if type(x) is int and rng.random() < p:
        return {"$": "whole", "v": x}
    return x


def program(rng, two=None, tiny=True):
    ops, i1 = model(rng, "a", "s", tiny)
    info = {"a": (i1, "s")}
    if two if two is not None else rng.random() < 0.3:
        o2, i2 = model(rng, "b", "t", tiny)
        info["b"] = (i2, "t")
        m, x, y = [], list(ops), list(o2)
        while x or y:                                        # the two interleaved, call by call
            q = x if (x and (not y or rng.random() < 0.5)) else y
            m.append(q.pop(0))
        ops = m
    if rng.random() < 0.3:
        k = rng.choice(sorted(info))
        if rng.random() < 0.5:
            ops.append({"m": "drop", "o": k})                # the system outlives its simulation
        else:
            ops.append({"m": "drop", "o": info[k][1]})
    if rng.random() < 0.15:
        p = rng.choice([0.1, 0.5, 1])
        for op in ops:
            if "a" in op:
                op["a"] = [kinds(rng, x, p) for x in op["a"]]
    return ops, info


def junk(rng, deep=0):
    t = rng.randint(0, 23 if deep < 2 else 17)
    return [None, True, "text", "", {"$": "bytes"}, {"$": "dict"}, -1, {"$": "int", "v": "99999999999999999999999"}, {"$": "int", "v": "1" + "0" * 400}, {"$": "f", "v": "nan"}, {"$": "f", "v": "inf"},
            {"$": "empty"}, {"$": "subsys"}, {"$": "badindex"}, {"$": "badfloat"}, {"$": "subint", "v": "1"}, {"$": "cls"}, False, [], [1], [1, 2, 3], {"$": "tuple", "v": [0, 0]}, {"$": "self"},
            [None, 0.5]][t]


def bad_call(rng, o, info):
    """a call with something wrong in its arguments"""
    n, w, h = info[0]["n"], info[0]["w"], info[0]["h"]
    S = {"$": "obj", "v": info[1]}
    good = rng.choice([
        ("draw_rectangle", [[g(w * .45), g(h * .45)], [g(w * .48), g(h * .48)], 0]),
        ("draw_polygon", [[[g(w * .45), g(h * .45)], [g(w * .48), g(h * .45)], [g(w * .46), g(h * .48)]], 0]),
        ("draw_region", [[g(w * .5), g(h * .5)], 2.5, 0]),
        ("add_interconnection", [[g(w * .4), g(h * .4)], [g(w * .4), g(h * .4)], 0, n - 1, 1.5]),
        ("set_voltage", [S, [0, 0], 1.5, 0]),
        ("solve", [S]),
        ("generate_system", [False, g(w * h / 5), 20]),
        ("new", [2, [1, 2.0]]),
    ])
    m, a = good[0], json.loads(json.dumps(good[1]))
    t = rng.random()
    must = False                                             # no reading of the arguments makes sense
    if m == "new" and rng.random() < 0.3:
        must = True
        a[0] = rng.choice([1, 3, 0, -2, 2 ** 31, 2 ** 32 + 2, 2 ** 33 + 2, 2 - 2 ** 32, 2 ** 64 + 2, {"$": "int", "v": str(2 ** 96 + 2)}])
        if isinstance(a[0], int) and abs(a[0]) >= 2 ** 63:
            a[0] = {"$": "int", "v": str(a[0])}
    elif t < 0.15:
        must = rng.random() < 0.6
        a = a[:rng.randrange(len(a))] if must else a + [junk(rng)]
        must = must and m != "generate_system"
    elif t < 0.22 and m in ("draw_region", "add_interconnection", "set_voltage", "generate_system"):
        must = True
        a[{"draw_region": 1, "add_interconnection": 4, "set_voltage": 2, "generate_system": rng.choice([1, 2])}[m]] = rng.choice([{"$": "f", "v": "nan"}, {"$": "f", "v": "inf"}, {"$": "int", "v": "1" + "0" * 400}, None, "1", [], [1.0]])
    elif t < 0.3 and m in ("draw_rectangle", "draw_polygon", "draw_region", "set_voltage", "add_interconnection"):
        must = True
        ps = [x for x in a if isinstance(x, list)]
        ps = ps[0] if m == "draw_polygon" else ps
        q = rng.choice(ps)
        v = rng.random()
        if v < 0.4:
            q[rng.randrange(2)] = rng.choice([{"$": "f", "v": "nan"}, {"$": "f", "v": "inf"}, {"$": "int", "v": "1" + "0" * 400}, None, "1", []])
        elif v < 0.7:
            q.append(0.5)
        else:
            q.pop()
    elif t < 0.45 and m in ("draw_rectangle", "draw_polygon", "draw_region", "set_voltage", "add_interconnection"):
        bad = rng.choice([n, n, n + 1, -1, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 1, {"$": "int", "v": str(2 ** 64)}, {"$": "int", "v": "-" + str(2 ** 70)}])
        k = len(a) - 1 if m != "add_interconnection" else rng.choice([2, 3])
        a[k] = bad
        must = True
    elif t < 0.65:
        lists = [x for x in a if isinstance(x, list)]
        if lists:
            l = rng.choice(lists)
            if l and isinstance(l[0], list) and rng.random() < 0.7:
                l = rng.choice(l)
            k = rng.randrange(len(l)) if l else 0
            q = rng.random()
            if q < 0.3 and l:
                del l[k]
            elif q < 0.45:
                l.append(rng.choice([0, 1.5, None]))
            elif q < 0.55:
                l[:] = []
            elif l:
                l[k] = junk(rng, 1)
        else:
            a[rng.randrange(len(a))] = junk(rng)
    else:
        a[rng.randrange(len(a))] = junk(rng)
    op = {"m": m, "o": o, "a": a}
    if must:
        op["must"] = 1
    if m == "new":
        del op["o"]
        op["r"] = "x"
    elif rng.random() < 0.1:
        op["u"] = 1
        op["a"] = [rng.choice([junk(rng), {"$": "empty"}, {"$": "obj", "v": o}])] + a
    return op


def odd_geometry(rng, o, info):
    """calls with good types whose geometry is strange"""
    n, w, h = info[0]["n"], info[0]["w"], info[0]["h"]
    l = rng.randrange(n)
    c = lambda: rng.choice([0, w, h, g(w / 2), g(h / 2), g(rng.uniform(-w, 2 * w)), -1, 1e-9])
    t = rng.randint(0, 8)
    if t == 0:
        return {"m": "draw_rectangle", "o": o, "a": [[g(-0.3 * w), g(0.4 * h)], [g(1.3 * w), g(0.6 * h)], l]}        # crosses the outline
    if t == 1:
        x, y = c(), c()
        return {"m": "draw_rectangle", "o": o, "a": [[x, y], [x, y], l]}
    if t == 2:
        x = c()
        return {"m": "draw_rectangle", "o": o, "a": [[x, 0], [x, 1], l]}
    if t == 3:
        return {"m": "draw_polygon", "o": o, "a": [[[c(), c()] for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))], l]}
    if t == 4:
        P = [g(w * 50), g(h * 50)] if rng.random() < 0.4 else [g(w * rng.uniform(-0.5, 1.5)), g(h * rng.uniform(-0.5, 1.5))]
        return {"m": "draw_region", "o": o, "a": [P, 1.5, l]}
    if t == 5:
        return {"m": "draw_region", "o": o, "a": [[0, 0], rng.choice([0.0, -1.0, 1e-300, 1e300]), l]}
    if t == 6:
        return {"m": "add_interconnection", "o": o, "a": [[c(), c()], [c(), c()], l, rng.randrange(n), rng.choice([0, 0.0, -1, 1e-300, 1e300, 1])]}
    if t == 7:
        return {"m": "generate_system", "o": o, "r": "z", "a": [rng.random() < 0.3, rng.choice([0, -1.0, 1e300, g(w * h / 5)]), rng.choice([0, 20, 30, 33])]}
    return {"m": "draw_rectangle", "o": o, "a": [[rng.choice([1e300, -1e300, 1e160, 1e61, 1e-300, 1e-12]), 0], [w, h], l]}


def strange(rng):
    """a model of any outline, with labels anywhere: in holes, between the shapes, beyond them"""
    n = rng.choice([1, 1, 1, 2])
    ops = [{"m": "new", "r": "a", "a": [n, [1.0] * n]}]
    if rng.random() < 0.04:                                # nothing at all, layer by layer
        n = rng.choice([0, 0, 0, 1])
        ops = [{"m": "new", "r": "a", "a": [n, [1.0] * n]}, {"m": "generate_system", "o": "a", "r": "s", "a": [False, 1.0, 20]}]
        if rng.random() < 0.5:
            ops.append({"m": "set_voltage", "o": "a", "a": [{"$": "obj", "v": "s"}, [0, 0], 1.0, 0]})
        return ops + [{"m": "solve", "o": "a", "a": [{"$": "obj", "v": "s"}]}] * rng.choice([1, 2])
    sc = rng.choice([1, 1, 0.01, 30])
    lat = rng.random() < 0.4
    c = (lambda: g(sc * rng.randint(-3, 3))) if lat else (lambda: g(sc * rng.uniform(-3, 3)))
    for l in range(n):
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = rng.random()
            x, y, r = c(), c(), sc * rng.uniform(0.3, 2.5)
            if t < 0.25:
                ops.append({"m": "draw_rectangle", "o": "a", "a": [[x, y], [g(x + r), g(y + r * rng.uniform(0.2, 2))], l]})
            elif t < 0.85:
                k, ph = rng.randint(3, 8), rng.uniform(0, 6)
                j = rng.choice([0, 0.4, 0.8])
                ops.append({"m": "draw_polygon", "o": "a", "a": [[[g(x + r * (1 - j * rng.random()) * math.cos(2 * math.pi * i / k + ph)), g(y + r * (1 - j * rng.random()) * math.sin(2 * math.pi * i / k + ph))] for i in range(k)], l]})
            else:
                ops.append({"m": "draw_polygon", "o": "a", "a": [[[c(), c()] for _ in range(rng.choice([3, 4]))], l]})
            if rng.random() < 0.8:
                ops.append({"m": "draw_region", "o": "a", "a": [[g(x), g(y)], g(rng.uniform(0.5, 5)), l]})
        for _ in range(rng.choice([0, 1, 2, 4])):
            ops.append({"m": "draw_region", "o": "a", "a": [[c(), c()], g(rng.uniform(0.5, 5)), l]})
    if n > 1 and rng.random() < 0.5:
        ops.append({"m": "add_interconnection", "o": "a", "a": [[c(), c()], [c(), c()], 0, 1, 1.0]})
    gen = {"m": "generate_system", "o": "a", "r": "s", "a": [rng.random() < 0.1, g(sc * sc * rng.choice([0.3, 1, 3])), rng.choice([0, 10, 20, 25])]}
    ops.append(gen)
    for _ in range(2):
        ops.append({"m": "set_voltage", "o": "a", "a": [{"$": "obj", "v": "s"}, [c(), c()], g(rng.uniform(-1, 1)), rng.randrange(n)]})
    ops.append({"m": "solve", "o": "a", "a": [{"$": "obj", "v": "s"}]})
    if rng.random() < 0.2:
        ops.append(dict(gen))
    return ops


def alloc_plan(rng, nc, np):
    """one failure for a call that makes nc and np allocations"""
    dom = 0 if (nc and rng.random() < 0.6) or not np else 1
    n = max(1, nc if dom == 0 else np)
    k = rng.random()
    at = rng.choice([1, n, rng.randint(1, n), rng.randint(1, n), rng.randint(1, min(n, 20)), max(1, n - rng.randint(0, 10))])
    if k < 0.55:
        return [[dom, 0, at, 1]]
    if k < 0.7:
        return [[dom, 0, at, rng.randint(2, 40)]]
    if k < 0.8:
        return [[dom, 0, at, 10 ** 9]]
    if k < 0.9:
        return [[rng.choice([0, 1]), 1, rng.choice([1, 16, 40, 100, 500, 2000]), 0]]
    return [[2, 0, rng.randint(1, max(1, nc + np)), rng.choice([1, 3, 10 ** 9])]]


class PyProp:
    level = "exploration"
    exes = []
    quick_n = 10 ** 9
    quick_s = 90
    thorough_s = 3600
    real, stubs = REAL, STUBS
    assumptions = ["CPython 3.12 from the sandbox with its debug allocator hooks; other versions are not explored", "the module is compiled with its own sources unmodified; the library without OpenCV, as python/setup.py does",
                   "the GIL is held during every call of the module, so calls from several Python threads can only interleave between calls; this is explored as call-by-call interleaving"]

    def explore(self, a):
        return explore_py(self, a.seed, a.tier, a.workers, a.n, a.time)

    def replay(self, a, case, text):
        body = "\n".join(l for l in text.splitlines() if not l.startswith("#"))
        case = json.loads(body[body.index("{"):])
        pool = PyPool(B.build("py"))
        v, r = self.judge(pool, case)
        print(r.text)
        if v:
            print(v)
            print("execution hash %s" % r.hash)
            print("VIOLATION property=%s replay=%s" % (self.id, os.path.abspath(a.replay)))
            return 1
        print("property %s holds on this run (hash %s)" % (self.id, r.hash))
        return 0


ARGERR = ("TypeError", "ValueError", "OverflowError", "ZeroDivisionError")


class C10(PyProp):
    id = "C10"
    rule = "a run: a seeded program of calls of the module with rejected calls (wrong arguments, odd geometry) inserted, or with failing allocations in C++ and in the interpreter, every failed call repeated; non-trivial when a fault fired or a call was rejected"

    def nontrivial(self, case, r):
        return r.cfail + r.pfail > 0 or any(x[3] == "exc" for x in r.rows)

    def scenario(self, pool, rng, i):
        ops, info = program(rng)
        t = rng.random()
        if t < 0.35:
            for _ in range(10):
                k = rng.choice(sorted(info))
                new = []
                marks = []
                for op in ops:
                    while rng.random() < 0.25:
                        marks.append(len(new))
                        new.append(bad_call(rng, k, info[k]))
                    new.append(op)
                for _ in range(rng.randint(0, 2)):
                    marks.append(len(new))
                    new.append(bad_call(rng, k, info[k]))
                yield {"ops": new, "marks": marks, "console": int(rng.random() < 0.1)}
        elif t < 0.5:
            for _ in range(6):
                k = rng.choice(sorted(info))
                new = []
                for op in ops:
                    if rng.random() < 0.15 and op["m"] != "new" and (op.get("o") == k or rng.random() < 0.3):
                        new.append(odd_geometry(rng, k, info[k]))
                    new.append(op)
                for _ in range(rng.randint(0, 2)):
                    new.append(odd_geometry(rng, k, info[k]))
                yield {"ops": new, "odd": 1}
        elif t < 0.6:
            for _ in range(8):
                yield {"ops": strange(rng), "odd": 1}
        else:
            ref = pool.ref({"ops": ops})
            if basic({"ops": ops}, ref):
                yield {"ops": ops}
                return
            counts = {x[1]: (x[5], x[6]) for x in ref.rows if x[5] + x[6]}
            keys = sorted(counts)
            if not keys:
                return
            weight = [1 + math.log(1 + sum(counts[k])) for k in keys]
            for _ in range(40):
                f = {}
                for _ in range(rng.choice([1, 1, 1, 2, 4])):
                    k = rng.choices(keys, weight)[0]
                    f[str(k)] = [alloc_plan(rng, *counts[k]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                yield {"ops": ops, "faults": f}

    def judge(self, pool, case):
        r = pool.run(case)
        v = basic(case, r)
        if v:
            if v.kind == "hang":
                if os.environ.get("NIKSIM_SKIPPED"):
                    with open(os.environ["NIKSIM_SKIPPED"], "a") as f:
                        f.write("# %s\n%s\n=====\n" % (v, json.dumps(case)))
                if case.get("odd") or "marks" in case:
                    raise SkipCase("this geometry takes too long")   # nothing failed: just an expensive mesh
            return v, r
        final = r.final()
        for k, op in enumerate(case["ops"]):
            if op.get("must") and final.get(k, ("", ""))[0] == "ok":
                return Verdict("accepted", "call %d %s returns normally although its arguments are wrong" % (k, show(op))), r
        if case.get("faults"):
            base = {k: v for k, v in case.items() if k != "faults"}
            ref = pool.ref(base)
            if basic(base, ref):
                raise SkipCase("reference")
            want, got = ref.final(), r.final()
            for x in r.rows:
                if x[3] == "exc" and not (x[7] or x[8]) and want.get(x[1], ("", ""))[:2] != (x[3], x[4]):
                    return Verdict("differs", "call %d %s gives %s %s instead of %s %s" % (x[1], show(case["ops"][x[1]]), x[3], x[4], *want.get(x[1], ("", "")))), r
                if x[3] == "ok" and want.get(x[1]) != (x[3], x[4]):
                    return Verdict("differs", "call %d %s returns a wrong value (%s instead of %s %s)" % (x[1], show(case["ops"][x[1]]), x[4], *want.get(x[1], ("", "")))), r
            for k in want:
                if got.get(k) != want[k] and not self.unfinished(case, r, k):
                    return Verdict("differs", "call %d %s ends with %s instead of %s" % (k, show(case["ops"][k]), got.get(k), want[k])), r
        if "marks" in case:
            rejected = []
            final = r.final()
            for k in case["marks"]:
                if k >= len(case["ops"]):
                    continue
                st, what = final.get(k, ("missing", ""))
                if st == "exc" and what.split(":")[0] in ARGERR:
                    rejected.append(k)
            keep = [k for k in range(len(case["ops"])) if k not in set(rejected)]
            ref = pool.ref({"ops": [case["ops"][k] for k in keep]})
            w = ref.final()
            if basic(case, ref):
                raise SkipCase("reference")
            for j, k in enumerate(keep):
                if w.get(j) != final.get(k):
                    return Verdict("differs", "with the rejected calls %s, call %d %s ends with %s instead of %s" % (rejected, k, show(case["ops"][k]), final.get(k), w.get(j))), r
        return None, r

    def unfinished(self, case, r, k):
        n = [x for x in r.rows if x[1] == k]
        return n and n[-1][3] == "exc" and (n[-1][7] or n[-1][8])


class C11(PyProp):
    id = "C11"
    rule = "a run: a seeded program of calls (valid, rejected, with failing allocations) performed four times over in one interpreter, all its objects dropped each time; non-trivial when a call raised"

    def nontrivial(self, case, r):
        return any(x[3] == "exc" for x in r.rows)

    def scenario(self, pool, rng, i):
        ops, info = program(rng)
        yield {"ops": ops, "passes": 6}
        for _ in range(3):
            new = []
            for op in ops:
                while rng.random() < 0.3:
                    k = rng.choice(sorted(info))
                    new.append(bad_call(rng, k, info[k]) if rng.random() < 0.8 else odd_geometry(rng, k, info[k]))
                new.append(op)
            k = rng.choice(sorted(info))
            new.append(bad_call(rng, k, info[k]))
            yield {"ops": new, "passes": 6, "droporder": rng.randint(0, 1), "odd": 1}
        ref = pool.ref({"ops": ops})
        counts = {x[1]: (x[5], x[6]) for x in ref.rows if x[5] + x[6]}
        keys = sorted(counts)
        if not keys:
            return
        weight = [1 + math.log(1 + sum(counts[k])) for k in keys]
        for _ in range(10):
            f = {}
            for _ in range(rng.choice([1, 1, 2, 5])):
                k = rng.choices(keys, weight)[0]
                f[str(k)] = [alloc_plan(rng, *counts[k]) for _ in range(rng.choice([1, 1, 2, 9]))]
            yield {"ops": ops, "passes": 6, "faults": f, "droporder": rng.randint(0, 1)}

    def judge(self, pool, case):
        r = pool.run(case)
        v = died(r)
        if v:
            if v.kind == "hang":
                if os.environ.get("NIKSIM_SKIPPED"):
                    with open(os.environ["NIKSIM_SKIPPED"], "a") as f:
                        f.write("# %s\n%s\n=====\n" % (v, json.dumps(case)))
                if case.get("odd") or "marks" in case:
                    raise SkipCase("this geometry takes too long")   # nothing failed: just an expensive mesh
            return v, r
        if r.heap:
            return Verdict("heap", r.heap), r
        # what every one of the last three passes left behind
        for n, size, py in r.live:
            if n:
                return Verdict("leak", "each repetition leaves %d C++ blocks (%d bytes) behind" % (n, size)), r
            if py:
                return Verdict("leak", "each repetition leaves %d blocks of the interpreter behind" % py), r
        return None, r


def gate_py(prop, pool, case):
    try:
        pool.cache.clear()
        v1, r1 = prop.judge(pool, case)
        pool.cache.clear()
        v2, r2 = prop.judge(pool, case)
    except SkipCase:
        return None, None
    if not v1 or not v2 or v1.kind != v2.kind or r1.hash != r2.hash:
        return None, None
    return v1, r1


def drop_call(case, gone):
    c = json.loads(json.dumps(case))
    keep = [k for k in range(len(c["ops"])) if k not in gone]
    remap = {k: j for j, k in enumerate(keep)}
    c["ops"] = [c["ops"][k] for k in keep]
    if "faults" in c:
        c["faults"] = {str(remap[int(k)]): v for k, v in c["faults"].items() if int(k) in remap}
    if "marks" in c:
        c["marks"] = [remap[k] for k in c["marks"] if k in remap]
    return c


def minimise_py(prop, pool, case, v, limit):
    t0 = time.time()
    best, tried = case, 0

    def good(c):
        nonlocal best, tried
        if time.time() - t0 > limit:
            return False
        tried += 1
        try:
            w = prop.judge(pool, c)[0]
        except SkipCase:
            return False
        if w and w.kind == v.kind:
            best = c
            return True
        return False

    for k in sorted(best.get("faults", {})):
        c = json.loads(json.dumps(best))
        del c["faults"][k]
        if not good(c) and len(best["faults"][k]) > 1:
            c = json.loads(json.dumps(best))
            c["faults"][k] = c["faults"][k][:1]
            good(c)
    for k in list(best.get("faults", {})):
        for a in range(len(best["faults"].get(k, []))):
            for p in range(len(best["faults"][k][a])):
                c = json.loads(json.dumps(best))
                c["faults"][k][a][p] = c["faults"][k][a][p][:3] + [1]
                good(c)
    for _ in range(3):
        again = False
        k = len(best["ops"])
        while k >= 1 and time.time() - t0 < limit:
            s = 0
            while s < len(best["ops"]):
                if good(drop_call(best, set(range(s, s + k)))):
                    again = True
                else:
                    s += k
            if k == 1:
                break
            k = (k + 1) // 2
        if not again:
            break
    return best, tried


def worker_py(prop, so, seed, tier, w, nw, nmax, tmax, conn, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    pool = PyPool(so)
    known = known_findings(prop.id)
    rep = {"violations": [], "known": {}, "errors": [], "unrepeatable": [], "selfcheck": [0, 0]}
    notes, nontrivial, samples, evals, n, i = {}, set(), [], 0, 0, w
    outcomes = set()
    t0 = time.time()
    try:
        while i < nmax and time.time() - t0 < tmax and not stop.is_set() and not rep["violations"]:
            rng = random.Random("%s/%s/%d" % (prop.id, seed, i))
            for case in prop.scenario(pool, rng, i):
                if time.time() - t0 > tmax or stop.is_set():
                    break
                case.setdefault("alarm", 3 if case.get("odd") or "marks" in case else 20)
                try:
                    v, r = prop.judge(pool, case)
                except SkipCase as e:
                    notes["skipped:" + str(e)] = notes.get("skipped:" + str(e), 0) + 1
                    continue
                evals += 1
                for x in r.rows:
                    outcomes.add((case["ops"][x[1]]["m"], x[3], x[4].split(":")[0] if x[3] == "exc" else "", x[7] > 0, x[8] > 0))
                if prop.nontrivial(case, r):
                    nontrivial.add(r.hash)
                    if not samples:
                        samples.append({"scenario": i, "case": case})
                if not v and evals % 25 == 1:
                    rep["selfcheck"][0] += 1
                    if pool.run(case).hash != r.hash or pool.fresh(case).hash != r.hash:
                        rep["selfcheck"][1] += 1
                        rep["unrepeatable"].append(json.dumps(case))
                if v:
                    hit = None
                    for rx, what in known:
                        if rx.search(str(v) + "\n" + json.dumps(case)):
                            hit = what
                    if hit:
                        rep["known"][hit] = rep["known"].get(hit, 0) + 1
                        continue
                    gv, gr = gate_py(prop, pool, case)
                    if not gv:
                        rep["unrepeatable"].append(str(v) + "\n" + json.dumps(case))
                        continue
                    stop.set()
                    small, tried = minimise_py(prop, pool, case, v, 60 if tier == "quick" else 240)
                    g2, gr2 = gate_py(prop, pool, small)
                    if not g2:
                        small, g2, gr2 = case, gv, gr
                    fr = pool.fresh(small)
                    text = "# property %s\n# %s\n" % (prop.id, str(g2).replace("\n", " ")) + json.dumps(small, indent=1) + "\n"
                    rep["violations"].append({"scenario": i, "verdict": str(g2), "case": text, "tried": tried, "hash": gr2.hash, "fresh_hash": fr.hash, "where": [], "first": str(v)})
                    break
            n += 1
            i += nw
    except MachineryError as e:
        rep["errors"].append(str(e)[:3000])
        stop.set()
    except Exception:
        rep["errors"].append(traceback.format_exc()[-3000:])
        stop.set()
    st = dict(pool.stats)
    notes["calls with a failed C++ allocation count"] = pool.cfail
    notes["calls with a failed interpreter allocation count"] = pool.pfail
    st["fired"] = list(st["fired"])
    st["fired"][0] = pool.cfail + pool.pfail
    rep.update(stats=st, inter=set(), traces=pool.traces, notes=notes, sites={}, evals=evals, nontrivial=nontrivial, samples=samples, scenarios=n, wall=time.time() - t0, outcomes=outcomes)
    conn.send(rep)
    conn.close()
    pool.close()


def explore_py(prop, seed, tier, workers=8, nmax=None, tmax=None):
    t0 = time.time()
    so = B.build("py")
    tb = time.time() - t0
    nmax = nmax or 10 ** 9
    tmax = tmax or (prop.quick_s if tier == "quick" else prop.thorough_s)
    stop = mp.Event()
    procs = []
    for w in range(workers):
        a, b = mp.Pipe(False)
        p = mp.Process(target=worker_py, args=(prop, so, seed, tier, w, workers, nmax, tmax, b, stop))
        p.start()
        b.close()
        procs.append((p, a))
    reps = []
    for p, a in procs:
        try:
            reps.append(a.recv())
        except EOFError:
            reps.append({"errors": ["worker process ended without a report"], "violations": [], "known": {}, "unrepeatable": [], "selfcheck": [0, 0]})
        p.join()
    m = merge(reps, time.time() - t0, tb, None)
    oc = set()
    for r in reps:
        oc |= r.get("outcomes", set())
    m["notes"]["distinct (method, outcome, failing domain) combinations"] = len(oc)
    return m


PROPS = {"C10": C10, "C11": C11}
