"""Exploration loop, violation gate, minimiser, known findings and evidence."""
import json, multiprocessing as mp, os, random, re, signal, sys, time, traceback
from model import *
import build as B

VERIF = B.VERIF


class SkipCase(Exception):
    """The reference itself does not finish normally: nothing to compare with."""


class Verdict:
    def __init__(self, kind, detail, sig=""):
        self.kind, self.detail, self.sig = kind, detail, sig

    def __str__(self):
        return "%s: %s" % (self.kind, self.detail)


REF_LIMIT = 600000000            # steps a fault-free reference may take; scenarios with longer ones are skipped


class Ctx:
    def __init__(self, pool, seed, tier, worker=0):
        self.pool, self.seed, self.tier, self.worker = pool, seed, tier, worker
        self.notes = {}
        self.sites = {}
        self.evals = 0
        self.limit = REF_LIMIT
        self.nontrivial = set()
        self.samples = []

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def raw(self, case):
        """a fault-free run, however it ends"""
        c = case.clone()
        c.budget = case.budget or self.limit
        r = self.pool.ref(c)
        r.budget_used = c.budget
        return r

    def ref(self, case):
        c = case
        r = self.raw(case)
        if r.x:
            if os.environ.get("NIKSIM_SKIPPED"):
                with open(os.environ["NIKSIM_SKIPPED"], "a") as f:
                    f.write("# %s %s\n%s=====\n" % (r.x[0], r.x[1], c.text()))
            raise SkipCase(r.x[0])
        return r

    def run(self, case, refsteps=0):
        c = case.clone()
        c.budget = int(refsteps) * 20 + 60000000
        r = self.pool.run(c)
        r.budget_used = c.budget
        return r


def steps_of(r):
    return int(r.z.get("steps", "0"))


def abnormal(r):
    """Verdict for a run that did not end normally, or broke the heap outright."""
    if r.x:
        return Verdict(r.x[0], "%s %s" % (r.x[1], r.xt or ""), sig=r.x[0])
    if r.memfree:
        return Verdict("crash", "heap corruption: " + r.memfree, sig="free")
    for row in r.rows:
        if row.status.startswith("foreign"):
            return Verdict("foreign-exception", "phase %d client %d op %d" % (row.phase, row.client, row.op))
    return None


def symbolise(exe, text):
    pcs = re.findall(r"(?:pc|site)=(0x[0-9a-f]+)", text)
    out = []
    for p in pcs[:4]:
        try:
            import subprocess
            o = subprocess.run(["addr2line", "-Cfpe", exe, p], capture_output=True, text=True, timeout=60).stdout.strip()
            out.append("%s %s" % (p, o))
        except Exception:
            pass
    return out


# ---- minimisation -----------------------------------------------------------------------------
def drop_ops(case, pi, ci, idx):
    c = case.clone()
    cl = c.phases[pi].clients[ci]
    gone = set(idx)
    keep = [k for k in range(len(cl.ops)) if k not in gone]
    remap = {k: n for n, k in enumerate(keep)}
    cl.ops = [cl.ops[k] for k in keep]
    cl.faults = [(remap[f[0]],) + tuple(f[1:]) for f in cl.faults if f[0] in remap]
    return c


def chunks(n):
    k = n
    while k >= 1:
        for s in range(0, n, k):
            yield s, min(n, s + k)
        if k == 1:
            break
        k = (k + 1) // 2


def minimise(prop, ctx, case, verdict, limit_s=60, locked=()):
    t0 = time.time()
    best = case
    tried = 0

    def good(c):
        nonlocal tried, best
        if time.time() - t0 > limit_s:
            return False
        tried += 1
        try:
            v = prop.judge(ctx, c)[0]
        except (SkipCase, MachineryError, IndexError, KeyError):
            return False
        if v and v.kind == verdict.kind:
            best = c
            return True
        return False

    def reduce_ops():
        again = False
        for pi in range(len(best.phases) - 1, -1, -1):
            for ci in range(len(best.phases[pi].clients) - 1, -1, -1):
                k = len(best.phases[pi].clients[ci].ops)
                while k >= 1 and time.time() - t0 < limit_s:
                    s = 0
                    hit = False
                    while s < len(best.phases[pi].clients[ci].ops):
                        n = len(best.phases[pi].clients[ci].ops)
                        c = drop_ops(best, pi, ci, range(s, min(n, s + k)))
                        if good(c):
                            hit = again = True
                        else:
                            s += k
                    if k == 1:
                        break
                    k = (k + 1) // 2
        return again

    def reduce_faults():
        for pi, ph in enumerate(best.phases):
            for ci in range(len(ph.clients)):
                f = 0
                while f < len(best.phases[pi].clients[ci].faults):
                    c = best.clone()
                    del c.phases[pi].clients[ci].faults[f]
                    if not good(c):
                        f += 1
                for f, x in enumerate(best.phases[pi].clients[ci].faults):
                    if x[2] == "alloc" and x[4] > 1:
                        c = best.clone()
                        c.phases[pi].clients[ci].faults[f] = x[:4] + (1,) + x[5:]
                        good(c)

    def reduce_env():
        for k in list(best.env):
            if k == "disk":
                continue
            c = best.clone()
            del c.env[k]
            good(c)

    def reduce_clients():
        for pi in range(len(best.phases)):
            ci = len(best.phases[pi].clients) - 1
            while ci >= 0 and len(best.phases[pi].clients) > 1:
                c = best.clone()
                del c.phases[pi].clients[ci]
                # the others keep their worker
                for k, cl in enumerate(best.phases[pi].clients):
                    if k > ci and "on=" not in cl.flags:
                        c.phases[pi].clients[k - 1].flags = (cl.flags + " on=%d" % k).strip()
                good(c)
                ci -= 1

    reduce_clients()
    reduce_faults()
    reduce_env()
    for _ in range(3):
        if not reduce_ops():
            break
    # the schedule becomes an explicit list of preemptions
    if any(p.sched for p in best.phases):
        try:
            v, r = prop.judge(ctx, best)
            c = best.clone()
            for pi, p in enumerate(c.phases):
                if p.sched:
                    p.sched, p.start, p.switches = None, r.start.get(pi), r.switches.get(pi, [])
            if good(c):
                for pi in range(len(best.phases)):
                    k = len(best.phases[pi].switches or [])
                    while k >= 1 and time.time() - t0 < limit_s:
                        s = 0
                        while s < len(best.phases[pi].switches):
                            c = best.clone()
                            del c.phases[pi].switches[s:s + k]
                            if not good(c):
                                s += k
                        if k == 1:
                            break
                        k = (k + 1) // 2
                reduce_ops()
        except (SkipCase, MachineryError):
            pass
    if best.randlist:
        k = len(best.randlist)
        while k >= 1 and time.time() - t0 < limit_s:
            s = 0
            while s < len(best.randlist):
                c = best.clone()
                del c.randlist[s:s + k]
                if not c.randlist or not good(c):
                    s += k
            if k == 1:
                break
            k = (k + 1) // 2
    return best, tried


def gate(prop, ctx, case):
    """A violation counts only if it repeats, exactly, here and in a process of its own."""
    ctx.pool.cache.clear()
    v1, r1 = prop.judge(ctx, case)
    ctx.pool.cache.clear()
    v2, r2 = prop.judge(ctx, case)
    if not v1 or not v2 or v1.kind != v2.kind or r1.hash != r2.hash or r1.hash is None:
        return None, None
    c = case.clone()
    c.budget = 0
    return v1, r1


# ---- known findings -------------------------------------------------------------------------------
def known_findings(prop):
    """lines: KNOWN property=<id> match=<regular expression over the verdict and the replay> what=<text>"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2), re.S), m.group(3)))
    return out


# ---- exploration -----------------------------------------------------------------------------------
def worker_main(prop, exes, locdir, seed, tier, w, nw, nmax, tmax, conn, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    pool = Pool(exes, locdir)
    ctx = Ctx(pool, seed, tier, w)
    known = known_findings(prop.id)
    rep = {"violations": [], "known": {}, "errors": [], "unrepeatable": [], "selfcheck": [0, 0]}
    t0 = time.time()
    i = w
    n = 0
    try:
        while i < nmax and time.time() - t0 < tmax and not stop.is_set():
            rng = random.Random("%s/%s/%d" % (prop.id, seed, i))
            # most scenarios are cheap ones, so that there are many
            ctx.limit = REF_LIMIT // random.Random("%s/%s/%d/limit" % (prop.id, seed, i)).choice([1, 4, 4, 10, 10, 10, 10, 10, 10, 10])
            try:
                for case in prop.scenario(ctx, rng, i):
                    if time.time() - t0 > tmax or stop.is_set():
                        break
                    try:
                        v, r = prop.judge(ctx, case)
                    except SkipCase as e:
                        ctx.note("skipped:" + str(e))
                        continue
                    ctx.evals += 1
                    if prop.nontrivial(case, r):
                        ctx.nontrivial.add(r.hash)
                    if len(ctx.samples) < 1 and prop.nontrivial(case, r) and len(case.text()) < 6000:
                        ctx.samples.append({"scenario": i, "case": case.text().splitlines()})
                    # the same seed must be the same execution: part of every run's budget goes into checking that
                    if not v and ctx.evals % 25 == 1:
                        c = case.clone()
                        c.budget = r.budget_used
                        a, b = pool.run(c), pool.fresh(c)
                        rep["selfcheck"][0] += 1
                        if a.hash != b.hash or a.text != b.text:
                            rep["selfcheck"][1] += 1
                            rep["unrepeatable"].append(case.text())
                    if v:
                        ctx.limit = REF_LIMIT
                        hit = None
                        for rx, what in known:
                            if rx.search(str(v) + "\n" + case.text()):
                                hit = what
                        if hit:
                            rep["known"][hit] = rep["known"].get(hit, 0) + 1
                            continue
                        g, gr = gate(prop, ctx, case)
                        if not g:
                            rep["unrepeatable"].append(str(v) + "\n" + case.text())
                            continue
                        stop.set()
                        small, tried = minimise(prop, ctx, case, v, 60 if tier == "quick" else 240)
                        g2, gr2 = gate(prop, ctx, small)
                        if not g2:
                            small, g2, gr2 = case, g, gr
                        fr = pool.fresh(with_budget(prop, ctx, small))
                        rep["violations"].append({"scenario": i, "verdict": str(g2), "case": small.replay_text(prop.id, str(g2)), "tried": tried, "hash": gr2.hash, "fresh_hash": fr.hash,
                                                  "where": symbolise(exes[small.exe], str(g2)), "first": str(v)})
                        break
            except SkipCase as e:
                ctx.note("skipped:" + str(e))
            n += 1
            if rep["violations"]:
                break
            i += nw
    except MachineryError as e:
        rep["errors"].append(str(e)[:3000])
        stop.set()
    except Exception:
        rep["errors"].append(traceback.format_exc()[-3000:])
        stop.set()
    rep.update(stats=pool.stats, inter=pool.inter, traces=pool.traces, notes=ctx.notes, sites=ctx.sites, evals=ctx.evals, nontrivial=ctx.nontrivial, samples=ctx.samples, scenarios=n, wall=time.time() - t0)
    conn.send(rep)
    conn.close()
    pool.close()


def with_budget(prop, ctx, case):
    v, r = prop.judge(ctx, case)
    c = case.clone()
    c.budget = getattr(r, "budget_used", 0) or 4000000000
    return c


def explore(prop, seed, tier, workers=8, nmax=None, tmax=None, verbose=False):
    t0 = time.time()
    exes = {e: B.build(e) for e in prop.exes}
    loc = B.locale_dir()
    tb = time.time() - t0
    nmax = nmax or (prop.quick_n if tier == "quick" else 10 ** 9)
    tmax = tmax or (prop.quick_s if tier == "quick" else prop.thorough_s)
    stop = mp.Event()
    procs = []
    for w in range(workers):
        a, b = mp.Pipe(False)
        p = mp.Process(target=worker_main, args=(prop, exes, loc, seed, tier, w, workers, nmax, tmax, b, stop))
        p.start()
        b.close()
        procs.append((p, a))
    reps = []
    for p, a in procs:
        try:
            reps.append(a.recv())
        except EOFError:
            reps.append({"errors": ["worker process ended without a report"], "violations": [], "known": {}, "unrepeatable": [], "selfcheck": [0, 0]})
        p.join()
    return merge(reps, time.time() - t0, tb, loc)


def merge(reps, wall, tb, loc):
    m = {"violations": [], "known": {}, "errors": [], "unrepeatable": [], "selfcheck": [0, 0], "evals": 0, "scenarios": 0, "samples": [], "notes": {}, "sites": {}, "inter": set(), "traces": set(), "nontrivial": set(), "stats": None, "wall": wall, "build": tb, "locale": bool(loc)}
    for r in reps:
        for k in ("violations", "errors", "unrepeatable", "samples"):
            m[k] += r.get(k, [])
        for k in ("known", "notes"):
            for a, b in r.get(k, {}).items():
                m[k][a] = m[k].get(a, 0) + b
        for a, b in r.get("sites", {}).items():
            m["sites"][a] = m["sites"].get(a, 0) + b
        for k in ("inter", "traces", "nontrivial"):
            m[k] |= r.get(k, set())
        m["selfcheck"] = [m["selfcheck"][j] + r["selfcheck"][j] for j in (0, 1)]
        m["evals"] += r.get("evals", 0)
        m["scenarios"] += r.get("scenarios", 0)
        s = r.get("stats")
        if s:
            if m["stats"] is None:
                m["stats"] = dict(s, fired=list(s["fired"]))
            else:
                for k, v in s.items():
                    if k == "fired":
                        m["stats"]["fired"] = [x + y for x, y in zip(m["stats"]["fired"], v)]
                    else:
                        m["stats"][k] += v
    m["violations"].sort(key=lambda v: v["scenario"])
    return m


def evidence(prop, m, seed, tier):
    s = m["stats"] or {}
    wall = max(m["wall"] - m["build"], 1e-3)
    cov = {
        "evaluations": m["evals"],
        "distinct_nontrivial": len(m["nontrivial"]),
        "rule": prop.rule,
        "samples": m["samples"][:3],
        "scenarios": m["scenarios"],
        "simulated_runs": s.get("runs", 0),
        "runs_per_hour": int(s.get("runs", 0) / wall * 3600),
        "seeds_per_hour": int(m["scenarios"] / wall * 3600),
        "reference_results_reused": s.get("cached", 0),
        "simulated_steps": s.get("steps", 0),
        "simulated_clock_seconds": s.get("simns", 0) / 1e9,
        "clock_reads": s.get("clock", 0),
        "random_draws": s.get("rand", 0),
        "faults_fired": dict({n: v for n, v in zip(FAULT_NAMES, s.get("fired", [0] * 9)) if v}, **({"console": s.get("console", 0)} if s.get("console") else {})),
        "runs_with_faults": s.get("faulty_runs", 0),
        "runs_without_faults": s.get("faultfree_runs", 0),
        "preemptions": s.get("switches", 0),
        "distinct_interleavings": len(m["inter"]),
        "distinct_executions": len(m["traces"]),
        "distinct_allocation_sites_failed": len(m["sites"]),
        "determinism_checked": m["selfcheck"][0],
        "determinism_failed": m["selfcheck"][1],
        "notes": m["notes"],
        "known_findings_seen": m["known"],
        "real_code": prop.real,
        "stubs": prop.stubs,
    }
    e = {"property": prop.id, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov, "assumptions": prop.assumptions, "wall_s": round(m["wall"], 2), "violations": len(m["violations"])}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop.id + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
    os.rename(p + ".tmp", p)
