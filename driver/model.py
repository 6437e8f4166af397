"""Cases, results and the pool of simulator processes."""
import os, subprocess, threading, queue, hashlib, re, copy


class Client:
    __slots__ = ("ops", "faults", "flags")

    def __init__(self, ops=None, faults=None, flags=""):
        self.ops = list(ops or [])
        self.faults = list(faults or [])      # (op, attempt, kind, a, b, err)
        self.flags = flags

    def text(self):
        o = ["client %s" % self.flags if self.flags else "client"]
        o += ["op " + x for x in self.ops]
        o += ["fault %d %d %s %d %d %d" % tuple(f) for f in self.faults]
        return o


class Phase:
    __slots__ = ("clients", "sched", "start", "switches", "join")

    def __init__(self, clients, sched=None, start=None, switches=None, join=False):
        self.clients, self.sched, self.start, self.switches, self.join = clients, sched, start, switches, join

    def text(self):
        o = ["phase join" if self.join else "phase"]
        if self.switches is not None:
            if self.start is not None:
                o.append("start %d" % self.start)
            o += ["switch %d %d %d" % s for s in self.switches]
        elif self.sched:
            o.append("sched " + self.sched)
        for c in self.clients:
            o += c.text()
        return o


PLOT = re.compile(r"\S+\.[dne]?plot ")
FILEOP = re.compile(r"\S+\.([dne]?plot|write) ")


class Case:
    def __init__(self, phases, env=None, randlist=None, budget=0, sites=False, exe=None, meta=None):
        self.phases, self.env, self.randlist, self.budget, self.sites, self.exe = phases, dict(env or {}), list(randlist or []), budget, sites, exe
        ops = [o for p in phases for c in p.clients for o in c.ops]
        if not exe:                              # pictures need the build with OpenCV
            self.exe = "simcv" if any(PLOT.match(o) for o in ops) else "simrun"
        if any(FILEOP.match(o) for o in ops):
            self.env.setdefault("disk", 1)
        self.meta = dict(meta or {})

    def clone(self):
        return copy.deepcopy(self)

    def text(self):
        o = []
        if self.sites:
            o.append("sites")
        if self.budget:
            o.append("budget %d" % self.budget)
        if self.env:
            o.append("env " + " ".join("%s=%d" % kv for kv in sorted(self.env.items())))
        if self.randlist:
            o.append("randlist " + " ".join(map(str, self.randlist)))
        for p in self.phases:
            o += p.text()
        return "\n".join(o) + "\n"

    def replay_text(self, prop, verdict):
        h = ["# replay of a violation of %s" % prop, "# %s" % verdict, "#@ property %s" % prop, "#@ exe %s" % self.exe]
        h += ["#@ meta %s %s" % (k, v) for k, v in sorted(self.meta.items())]
        return "\n".join(h) + "\n" + self.text()


def parse_case(text):
    c = Case([])
    ph = cl = None
    for line in text.splitlines():
        w = line.split()
        if not w:
            continue
        if w[0] == "#@":
            if w[1] == "exe":
                c.exe = w[2]
            elif w[1] == "meta":
                c.meta[w[2]] = " ".join(w[3:])
            elif w[1] == "property":
                c.meta["property"] = w[2]
            continue
        if w[0].startswith("#") or w[0] == "case":
            continue
        if w[0] == "sites":
            c.sites = True
        elif w[0] == "budget":
            c.budget = int(w[1])
        elif w[0] == "env":
            for kv in w[1:]:
                k, v = kv.split("=")
                c.env[k] = int(v)
        elif w[0] == "randlist":
            c.randlist += [int(x) for x in w[1:]]
        elif w[0] == "phase":
            ph = Phase([], join="join" in w[1:])
            c.phases.append(ph)
            cl = None
        elif w[0] == "sched":
            ph.sched = " ".join(w[1:])
        elif w[0] == "start":
            ph.start = int(w[1])
            ph.switches = ph.switches or []
        elif w[0] == "switch":
            ph.switches = ph.switches or []
            ph.switches.append((int(w[1]), int(w[2]), int(w[3])))
        elif w[0] == "client":
            cl = Client(flags=" ".join(w[1:]))
            ph.clients.append(cl)
        elif w[0] == "op":
            cl.ops.append(line.strip()[3:])
        elif w[0] == "fault":
            v = w[1:]
            cl.faults.append((int(v[0]), int(v[1]), v[2], int(v[3]), int(v[4]), int(v[5]) if len(v) > 5 else 0))
        else:
            raise ValueError("bad line: " + line)
    return c


class Row:
    __slots__ = ("phase", "client", "op", "att", "status", "digest", "allocs", "steps", "faults", "maxsize", "opens", "writes", "closes", "openfds", "note")

    def __init__(self, w):
        self.phase, self.client, self.op, self.att = int(w[0]), int(w[1]), int(w[2]), int(w[3])
        self.status, self.digest = w[4], w[5]
        self.allocs, self.steps, self.faults, self.maxsize, self.opens, self.writes, self.closes, self.openfds = map(int, w[6:14])
        self.note = w[14] if len(w) > 14 else "-"

    @property
    def kind(self):
        return "exc" if self.status.startswith("exc:") or self.status.startswith("foreign:") else self.status

    def key(self):
        # the text of an exception is part of the behaviour, but not of the comparison between builds
        return (self.status, self.digest)


class Result:
    def __init__(self, text):
        self.text = text
        self.rows, self.files, self.sites, self.live, self.lb, self.switches, self.start = [], {}, {}, {}, [], {}, {}
        self.x = self.xt = self.mem = self.memfree = None
        self.z = {}
        self.settings = []
        self.end = False
        self.static_hits = {}
        for line in text.splitlines():
            w = line.split(" ")
            t = w[0]
            if t == "R":
                self.rows.append(Row(w[1:]))
            elif t == "A":
                self.sites[(int(w[1]), int(w[2]), int(w[3]))] = [(int(a), b, int(c)) for a, b, c in (x.split(":") for x in w[4:])]
            elif t == "F":
                self.files.setdefault((int(w[1]), int(w[2]), int(w[3]), int(w[4])), {})[w[5]] = (w[6], int(w[7]))
            elif t == "L":
                self.live[w[1] if w[1] == "end" else int(w[1])] = (int(w[2]), int(w[3]))
            elif t == "G":
                self.settings.append((tuple(map(int, w[1:5])), w[5], w[6], " ".join(w[7:])))
            elif t == "LB":
                self.lb.append(line[3:])
            elif t == "S":
                self.switches.setdefault(int(w[1]), []).extend(tuple(map(int, x.split(":"))) for x in w[2:])
            elif t == "ST":
                self.start[int(w[1])] = int(w[2])
                self.static_hits[int(w[1])] = int(w[3])
            elif t == "X":
                if self.x is None:
                    self.x = (w[1], " ".join(w[2:]))
            elif t == "XT":
                self.xt = line[3:]
            elif t == "M":
                self.mem = line[2:]
            elif t == "MF":
                self.memfree = line[3:]
            elif t == "Z":
                for kv in w[1:]:
                    k, v = kv.split("=")
                    self.z[k] = v
            elif t == "E":
                self.end = True
        self.fired = list(map(int, self.z["fired"].split(","))) if "fired" in self.z else [0] * 9
        if self.x is None and not self.end:
            self.x = ("machinery", "truncated result")

    @property
    def hash(self):
        return self.z.get("hash")

    def bykey(self):
        """last attempt at each operation"""
        d = {}
        for r in self.rows:
            d[(r.phase, r.client, r.op)] = r
        return d

    def phase_rows(self, ph, cl=None):
        return [r for r in self.rows if r.phase == ph and (cl is None or r.client == cl)]


FAULT_NAMES = ["alloc", "allocsize", "budget", "open", "write", "close", "full", "fsync", "rename"]


class MachineryError(Exception):
    pass


class Sim:
    """One server process; run() is for one caller at a time."""

    def __init__(self, exe, env):
        self.exe, self.env = exe, env
        self.p = None
        self.n = 0

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env)
        self.n = 0

    def run(self, text, wall_ms):
        for _ in range(2):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                b = text.encode()
                self.n += 1
                self.p.stdin.write(b"%d %d %d\n" % (self.n, len(b), wall_ms) + b)
                self.p.stdin.flush()
                h = self.p.stdout.readline().split()
                if len(h) != 2:
                    raise OSError("server ended")
                n = int(h[1])
                return self.p.stdout.read(n).decode(errors="replace")
            except (OSError, ValueError):
                self.close()
        raise MachineryError("simulator server does not answer")

    def close(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
        self.p = None


def sim_env(locdir):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C", "HOME": "/tmp"}
    if locdir:
        e["LOCPATH"] = locdir
    return e


class Pool:
    """exes: name -> path. Thread-safe: each thread that calls run() gets its own servers."""

    def __init__(self, exes, locdir, wall_ms=60000):
        self.exes, self.env, self.wall = exes, sim_env(locdir), wall_ms
        self.locdir = locdir
        self.local = threading.local()
        self.all = []
        self.lock = threading.Lock()
        self.cache = {}
        self.stats = {"runs": 0, "steps": 0, "simns": 0, "clock": 0, "rand": 0, "console": 0, "fired": [0] * 9, "switches": 0, "cached": 0, "faulty_runs": 0, "faultfree_runs": 0, "hang": 0}
        self.inter = set()
        self.traces = set()

    def sim(self, exe):
        d = getattr(self.local, "sims", None)
        if d is None:
            d = self.local.sims = {}
        if exe not in d:
            d[exe] = Sim(self.exes[exe], self.env)
            with self.lock:
                self.all.append(d[exe])
        return d[exe]

    def run_text(self, exe, text, wall=None):
        r = Result(self.sim(exe).run(text, wall or self.wall))
        self.account(r)
        if r.x and r.x[0] in ("machinery", "nolocale"):
            raise MachineryError("%s %s\n%s" % (r.x[0], r.x[1], text[:3000]))
        return r

    def account(self, r):
        with self.lock:
            s = self.stats
            s["runs"] += 1
            z = r.z
            if z:
                s["steps"] += int(z["steps"])
                s["simns"] += abs(int(z["simns"]))
                s["clock"] += int(z["clock"])
                s["rand"] += int(z["rand"])
                s["console"] += int(z["console"])
                s["switches"] += int(z["switches"])
                for i, v in enumerate(r.fired):
                    s["fired"][i] += v
                if sum(r.fired) or int(z["console"]):
                    s["faulty_runs"] += 1
                else:
                    s["faultfree_runs"] += 1
                if int(z["switches"]):
                    self.inter.add(z["inter"])
                self.traces.add(z["hash"])

    def run(self, case, wall=None):
        return self.run_text(case.exe, case.text(), wall)

    def ref(self, case, wall=None):
        """Fault-free reference runs are cached by text."""
        b = case.budget
        case.budget = 0
        t = case.exe + "\n" + case.text()
        case.budget = b
        k = hashlib.md5(t.encode()).digest()
        with self.lock:
            r, rb = self.cache.get(k, (None, 0))
            if r and (rb >= b or not (r.x and r.x[0] == "hang")):     # how a run that ends, ends does not depend on its limit
                self.stats["cached"] += 1
                return r
        r = self.run(case, wall)
        with self.lock:
            if len(self.cache) > 60000:
                self.cache.clear()
            self.cache[k] = (r, b)
        return r

    def fresh(self, case):
        """The same case in a fresh process started only for it."""
        import tempfile
        with tempfile.NamedTemporaryFile("w", suffix=".case", delete=False) as f:
            f.write(case.text())
        try:
            o = subprocess.run([self.exes[case.exe], "--file", f.name, str(self.wall * 3)], capture_output=True, env=self.env).stdout.decode(errors="replace")
        finally:
            os.unlink(f.name)
        return Result(o)

    def close(self):
        for s in self.all:
            s.close()
