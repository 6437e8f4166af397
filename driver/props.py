"""The properties decided by the C++ simulator: how their runs are made and how they are judged."""
import math, re
from random import Random
import gen as G
from core import *

REAL_LIB = ["all of lib/nikfemm (drawing, geometry, meshing with the bundled Triangle, assembly, algebra, solvers, post-processing), compiled unmodified from /repo's working tree with coverage callbacks"]
STUBS = ["malloc/free and operator new/delete (simulated heap with per-thread arenas)", "thread scheduling (one thread runs at a time; the seed decides every preemption)", "clock_gettime/time/gettimeofday", "rand/srand/random", "console writes", "open/write/close/fsync/rename below /simdisk (simulated disk)", "process locale"]


class Prop:
    exes = ["simrun"]
    level = "exploration"
    quick_n, quick_s, thorough_s = 100000, 100, 3000
    real = REAL_LIB
    stubs = STUBS
    rule = ""
    assumptions = ["one thread runs at a time, preempted at instrumented basic blocks and memory accesses: sequentially consistent interleavings only",
                   "a run that exceeds 20 times the steps of its reference plus 60 million counts as a hang"]

    def nontrivial(self, case, r):
        return True

    def scenario(self, ctx, rng, i):
        raise NotImplementedError

    def judge(self, ctx, case):
        """(Verdict or None, Result)"""
        raise NotImplementedError


def worker_of(cl, idx):
    m = re.search(r"on=(\d+)", cl.flags)
    return int(m.group(1)) if m else idx


def alone(case, pi, ci, env=None, faults=False, flags=""):
    cl = case.phases[pi].clients[ci]
    e = dict(case.env) if env is None else env
    return Case([Phase([Client(cl.ops, cl.faults if faults else [], ("on=%d %s" % (worker_of(cl, ci), flags)).strip())])], env=e, exe=case.exe)


def nofault(case, env=None):
    c = case.clone()
    for p in c.phases:
        for cl in p.clients:
            cl.faults = []
    if env is not None:
        c.env = env
    return c


def describe(case, row):
    try:
        return "phase %d client %d op %d (%s)" % (row.phase, row.client, row.op, case.phases[row.phase].clients[row.client].ops[row.op])
    except IndexError:
        return "phase %d client %d op %d" % (row.phase, row.client, row.op)


def differ(case, row, ref, what="alone"):
    return Verdict("mismatch", "%s gives %s %s, %s it gives %s %s" % (describe(case, row), row.status, row.digest, what, ref.status, ref.digest), sig="mismatch")


def missing(case, pi, ci, oi):
    return Verdict("missing", "phase %d client %d op %d was never run" % (pi, ci, oi))


def file_differ(case, a, r, b, ref, what="alone"):
    """the file a call wrote, against the one its reference wrote"""
    if a.kind == "exc" or not (a.opens or b.opens):
        return None
    name = target(case.phases[a.phase].clients[a.client].ops[a.op])
    wf = ref.files.get((b.phase, b.client, b.op, b.att), {}).get(name)
    gf = r.files.get((a.phase, a.client, a.op, a.att), {}).get(name)
    if wf != gf:
        return Verdict("file", "%s: %s is %s, %s it is %s" % (describe(case, a), name, gf, what, wf))
    return None


def slot_of(op):
    w = op.split(" ")
    return w[1] if not w[0].startswith("geo.") else None


# ---------------------------------------------------------------------------------------------------
def schedules(rng, total, nclients, n):
    out = []
    for _ in range(n):
        k = rng.choice(["geo", "geo", "static", "pct", "pct", "op"])
        s = rng.randrange(1, 1 << 40)
        if k == "geo":
            lo, hi = math.log(max(60, total / 3000)), math.log(max(200, total))
            out.append("geo %d 0 %d 0" % (s, int(math.exp(rng.uniform(lo, hi)))))
        elif k == "static":
            out.append("static %d %g %d 0" % (s, rng.choice([0.5, 0.1, 0.02, 0.004]), rng.choice([0, int(total / rng.choice([4, 100])) + 1])))
        elif k == "pct":
            out.append("pct %d 0 %d %d" % (s, max(1, int(total)), rng.choice([1, 1, 2, 3, 5])))
        else:
            out.append("op %d %g 0 0" % (s, rng.choice([0.3, 0.6, 0.9])))
    return out


class C01(Prop):
    id = "C01"
    exes = ["simrun", "simcv"]
    rule = "a run: 2 to 25 threads, mostly few, each with a seeded program over its own models, under a seeded schedule; non-trivial when at least one preemption inside library code happened"

    def nontrivial(self, case, r):
        return int(r.z.get("switches", 0)) > 0

    def scenario(self, ctx, rng, i):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        progs = []
        base = None
        pics = rng.random() < 0.12
        alike = rng.random() < 0.3
        crowd = rng.random() < 0.05
        if crowd:
            n, alike, pics = rng.randint(6, 25), rng.random() < 0.5, False
        for c in range(n):
            s = "a%d" % c
            t = rng.random()
            if crowd and (base is None or not alike):
                p = G.little(rng, s)
                progs.append(p)
                base = (p, s)
                continue
            if alike or base is not None and t < 0.5:
                if base is None:
                    base = (G.mag_program(rng, s, "t", nonlinear=True) if rng.random() < 0.3 else G.program(rng, s, size="t")), s
                progs.append(G.mutate(rng, base[0], base[1], s))
                continue
            if t > 0.93:
                p = G.rejects(rng, s)
            elif t > 0.88:
                p = G.mesh_only(rng, s)
            elif t > 0.84:
                p = G.draw_only(rng, s)
            else:
                p = G.program(rng, s, size=rng.choice(["t", "t", "s"]), regen=rng.random() < 0.3)
            if rng.random() < 0.15:
                p = p + ["%s.del %s" % (p[-1].split(".")[0], s)] if not p[-1].startswith("geo.") else p
            elif pics and not p[-1].startswith("geo."):
                p = G.with_plots(rng, p, s)
            elif rng.random() < 0.5:
                p = G.with_write(p, s)
            progs.append(p)
            base = (p, s)
        progs = [G.retag(p, c) for c, p in enumerate(progs)]
        total = 0
        for c in range(n):
            r = ctx.ref(Case([Phase([Client(progs[c], flags="on=%d" % c)])]))
            total = max(total, steps_of(r))
        rounds = [progs]
        if rng.random() < 0.2:           # threads that ended, and new ones
            rounds.append([G.mutate(rng, p, "a%d" % c, "a%d" % c) for c, p in enumerate(progs)])
        for k in range(5):
            sch = schedules(rng, total, n, 1)[0]
            join = rng.random() < 0.5
            yield Case([Phase([Client(p) for p in ps], sched=sch, join=join) for ps in rounds])

    def judge(self, ctx, case):
        refs = {}
        tot = 0
        for pi, ph in enumerate(case.phases):
            for ci in range(len(ph.clients)):
                refs[pi, ci] = ctx.ref(alone(case, pi, ci))
                tot += steps_of(refs[pi, ci])
        r = ctx.run(case, tot)
        v = abnormal(r)
        if v:
            return v, r
        got = r.bykey()
        for (pi, ci), ref in sorted(refs.items()):
            for rr in ref.rows:
                row = got.get((pi, ci, rr.op))
                if row is None:
                    return missing(case, pi, ci, rr.op), r
                if row.key() != rr.key():
                    return differ(case, row, rr), r
                v = file_differ(case, row, r, rr, ref)
                if v:
                    return v, r
        return None, r


class C02(Prop):
    id = "C02"
    exes = ["simrun", "simcv"]
    rule = "a run: one generated and solved model shared by 1 to 25 threads, mostly few, that solve and evaluate it under a seeded schedule; non-trivial when at least one preemption inside library code happened"

    def nontrivial(self, case, r):
        return int(r.z.get("switches", 0)) > 0 or len(case.phases[1].clients) == 1

    def scenario(self, ctx, rng, i):
        s = "S.m"
        k = rng.choice(["mag", "mag", "mag", "cd", "cd", "ml", "alg", "shp"])
        size = rng.choice(["t", "t", "s"])
        if k == "mag":
            nl = rng.random() < 0.12
            b, info = G.mag_build(rng, s, "n" if nl else size, nl)
            setup = b + [G.mag_gen(s, info), "mag.solve " + s, "mag.curl " + s]
            mk = lambda n: [("mag.solve " + s if rng.random() < 0.2 and not nl else "mag.curl " + s) if rng.random() < 0.3 or info["moved"] else G.mag_queries(rng, s, info, 1)[0] for _ in range(n)]
            fin = ["mag.state " + s]
        elif k == "cd":
            b, info = G.cd_build(rng, s, size)
            setup = b + [G.cd_gen(s, info)] + G.cd_volts(rng, s, info) + ["cd.solve " + s]
            mk = lambda n: ["cd.solve " + s if rng.random() < 0.25 else "cd.bc %s %d" % (s, rng.randint(1, 9)) if rng.random() < 0.15 else G.cd_queries(rng, s, info, 1)[0] for _ in range(n)]
            fin = ["cd.state " + s]
        elif k == "ml":
            b, info = G.ml_build(rng, s, size)
            setup = b + [G.ml_gen(s, info)] + G.ml_volts(rng, s, info) + ["ml.solve " + s]
            mk = lambda n: ["ml.solve " + s if rng.random() < 0.25 else "ml.bc %s %d %d" % (s, rng.randrange(info["n"]), rng.randint(1, 9)) if rng.random() < 0.15 else G.ml_queries(rng, s, info, 1)[0] for _ in range(n)]
            fin = ["ml.state " + s]
        elif k == "shp":
            setup = G.shp_build(rng, s)
            mk = lambda n: G.shp_queries(rng, s, n)
            fin = ["shp.state " + s]
        else:
            setup, info = G.alg_build(rng, s)
            mk = lambda n: G.alg_queries(rng, s, info, n)
            fin = ["alg.state " + s]
        pics = k not in ("ml", "shp") and rng.random() < 0.15
        mk0 = mk
        if pics:
            mk = lambda n: [G.plots(rng, k, s) if rng.random() < 0.3 else mk0(1)[0] for _ in range(n)]
        for rep in range(2):
            n = rng.choice([1, 2, 2, 3, 4])
            if size == "t" and rng.random() < 0.06:
                n = rng.randint(6, 25)
            if rng.random() < 0.4:                        # the same calls everywhere
                q = mk(rng.randint(1, 3))
                cl = [Client(list(q)) for _ in range(n)]
            else:
                cl = [Client(mk(rng.randint(1, 4))) for _ in range(n)]
            if n == 1:
                cl = [Client(mk(6))]
            for j, x in enumerate(cl):
                x.ops = G.retag(x.ops, j)
            c0 = Case([Phase([Client(setup, flags="keep")]), Phase(cl), Phase([Client(fin)])])
            total = sum(steps_of(ctx.ref(x)) for x in self.refs(c0).values()) / max(1, n)
            for _ in range(1 if n == 1 else 4):
                c = c0.clone()
                if rng.random() < 0.5:
                    c.phases[1].sched = "shared %d %g %d 0" % (rng.randrange(1, 1 << 40), rng.choice([0.02, 0.1, 0.5]), rng.choice([0, max(200, int(total / rng.choice([5, 50, 500])))]))
                else:
                    c.phases[1].sched = schedules(rng, total, n, 1)[0]
                yield c

    def refs(self, case):
        d = {}
        if len(case.phases) < 2:
            raise SkipCase("no phases")
        p0 = case.phases[0].clone() if hasattr(case.phases[0], "clone") else case.phases[0]
        for ci, cl in enumerate(case.phases[1].clients):
            for oi, op in enumerate(cl.ops):
                d[ci, oi] = Case([p0, Phase([Client([op], flags="on=%d" % worker_of(cl, ci))])], env=case.env)
        return d

    def judge(self, ctx, case):
        refs = {k: ctx.ref(c) for k, c in self.refs(case).items()}
        fin = ctx.ref(Case([case.phases[0]] + case.phases[2:], env=case.env)) if len(case.phases) > 2 else None
        r = ctx.run(case, sum(steps_of(x) for x in refs.values()) + (steps_of(fin) if fin else 0))
        v = abnormal(r)
        if v:
            return v, r
        got = r.bykey()
        for (ci, oi), ref in sorted(refs.items()):
            rr = ref.bykey().get((1, 0, 0))
            row = got.get((1, ci, oi))
            if row is None or rr is None:
                return missing(case, 1, ci, oi), r
            if row.key() != rr.key():
                return differ(case, row, rr), r
            v = file_differ(case, row, r, rr, ref)
            if v:
                return v, r
        if fin:
            for rr in fin.phase_rows(1):
                row = got.get((2, rr.client, rr.op))
                if row is None or row.key() != rr.key():
                    return (differ(case, row, rr, "without the calls before it") if row else missing(case, 2, rr.client, rr.op)), r
        return None, r


ENVS = {"heap_seed": 40, "heap_fill": 6, "heap_mode": 7, "stack": 20, "clock_mode": 6, "clock_seed": 20, "rand_mode": 6, "rand_seed": 1000, "console": 8, "locale": 4, "errno": 0, "machine": 50}


def env_variant(rng, locale=True):
    e = {}
    t = rng.random()
    keys = ["heap", "stack", "clock", "rand", "console", "locale", "errno"]
    pick = [rng.choice(keys)] if t < 0.45 else rng.sample(keys, rng.randint(2, 5))
    for k in pick:
        if k == "heap":
            e["heap_seed"] = rng.randint(2, 60)
            e["heap_fill"] = rng.randint(0, 5)
            e["heap_mode"] = rng.randint(0, 7)
        elif k == "stack":
            e["stack"] = rng.choice([1, 2, 3, rng.randint(4, 99)])
        elif k == "clock":
            e["clock_mode"] = rng.randint(1, 5)
            e["clock_seed"] = rng.randint(1, 99)
        elif k == "rand":
            e["rand_mode"] = rng.choice([0, 0, 1, 2, 3, 4, 5])
            e["rand_seed"] = rng.randint(2, 9999)
        elif k == "console":
            e["console"] = rng.randint(1, 7)
        elif k == "locale" and locale:
            e["locale"] = rng.randint(1, 3)
        elif k == "errno":
            e["errno"] = rng.choice([1, 4, 12, 22, 33, 34])
    r2 = Random(repr(rng.getstate()))
    if r2.random() < 0.12:
        e["machine"] = r2.randint(1, 49)
    return e or {"heap_seed": 7, "heap_fill": 3}


class C03(Prop):
    id = "C03"
    exes = ["simrun", "simcv"]
    rule = "a run: a seeded program in a seeded process environment (heap layout and contents, stack contents, clock, C random state, console, locale, errno, processors, environment variables, process id, host name), compared with the same program in the default environment; every run is non-trivial"

    def scenario(self, ctx, rng, i):
        t = rng.random()
        s = "m"
        disk = False
        if t < 0.2:
            p = G.mesh_only(rng, s)
        elif t < 0.25:
            p = G.saturated(rng, s)
        elif t < 0.33:
            p = G.mag_program(rng, s, "t", nonlinear=False, big=True)
        elif t < 0.36:
            p = G.mag_program(rng, s, "t", nonlinear=True)
        elif t < 0.4:
            p = G.draw_only(rng, s)
        elif t < 0.48:
            p = G.alg_program(rng, s) + ["alg.write m m0.txt", "alg.print m"]
            disk = True
        elif t < 0.53:
            p = G.rejects(rng, s) + G.program(rng, s + "2", size="t")
        else:
            p = G.program(rng, s, size=rng.choice(["t", "s", "s"]), regen=rng.random() < 0.2)
            if rng.random() < 0.12:
                p = G.with_plots(rng, p, s)
                disk = True
        for _ in range(8):
            e = env_variant(rng)
            if disk:
                e["disk"] = 1
            yield Case([Phase([Client(p)])], env=e)

    def judge(self, ctx, case):
        ref = ctx.ref(Case(case.phases, env={"disk": 1} if case.env.get("disk") else {}, exe=case.exe))
        r = ctx.run(case, steps_of(ref))
        v = abnormal(r)
        if v:
            return v, r
        for a, b in zip(r.rows, ref.rows):
            if a.key() != b.key():
                return differ(case, a, b, "in the default environment"), r
        if len(r.rows) != len(ref.rows):
            return Verdict("missing", "%d operations instead of %d" % (len(r.rows), len(ref.rows))), r
        for k, f in ref.files.items():
            if r.files.get(k) != f:
                return Verdict("file", "%s after phase %d client %d op %d, in the default environment %s" % ((r.files.get(k),) + k[:3] + (f,))), r
        return None, r


class C04(Prop):
    id = "C04"
    exes = ["simrun", "simcv"]
    rule = "a run: a seeded history of other calls (finished, rejected, failed part-way, alive, destroyed, interleaved call by call) around a subject model, compared with the subject in a process of its own; non-trivial when the history ran at least one call"

    def nontrivial(self, case, r):
        return len(r.rows) > 3

    def subject(self, rng):
        t = rng.random()
        if t < 0.12:
            return G.mesh_only(rng, "z")
        if t < 0.16:
            return G.mag_program(rng, "z", "t", nonlinear=True)
        if t < 0.2:
            return G.rejects(rng, "z")
        if t < 0.32:
            return G.draw_only(rng, "z")
        p = G.program(rng, "z", size=rng.choice(["t", "s"]), regen=rng.random() < 0.2)
        return G.with_plots(rng, p, "z") if rng.random() < 0.1 else G.with_write(p, "z")

    def history(self, rng, subj, slot):
        """ops, faults: one earlier program"""
        t = rng.random()
        fl = []
        if t < 0.25:
            ops = G.mutate(rng, subj, "z", slot)
        elif t < 0.35:
            ops = G.rename(subj, "z", slot)
        elif t < 0.5:
            ops = G.rejects(rng, slot)
        elif t < 0.57:
            ops = G.mesh_only(rng, slot)
        elif t < 0.65:
            ops = G.draw_only(rng, slot)
        else:
            ops = G.program(rng, slot, size="t", regen=rng.random() < 0.2)
        if rng.random() < 0.3:
            ops = ops[:rng.randint(1, len(ops))]
        if rng.random() < 0.4:
            for _ in range(rng.randint(1, 2)):
                fl.append((rng.randrange(len(ops)), 0, "alloc", rng.choice([1, rng.randint(1, 50), rng.randint(1, 800), rng.randint(1, 5000)]), rng.choice([1, 1, 10, 10 ** 9]), 0))
        if rng.random() < 0.4 and not ops[-1].startswith("geo."):
            ops = ops + ["%s.del %s" % (ops[0].split(".")[0], slot)]
        return ops, fl

    def scenario(self, ctx, rng, i):
        subj = self.subject(rng)
        st = steps_of(ctx.ref(Case([Phase([Client(subj, [], "subject")])])))
        for k in range(5 if st > 5e6 else 12 if st > 5e5 else 30):
            phases = []
            n = rng.randint(1, 4)
            hs = [self.history(rng, subj, "h%d" % j) for j in range(n)]
            mode = rng.random()
            if k == 0 and rng.random() < 0.12:           # a process that has been at it for long
                ops = []
                one = self.history(rng, subj, "h0")[0] if st < 3e6 and rng.random() < 0.5 else None
                for j in range(rng.choice([40, 80, 150, 300])):
                    if one:
                        ops += G.mutate(rng, one, "h0", "h0")
                        if len(ops) > 900:
                            break
                    else:
                        ops += G.little(rng, "h%d" % rng.randint(0, 9))
                yield Case([Phase([Client(ops, [], "keep continue")]), Phase([Client(subj, [], "subject")])])
                continue
            if subj[0][:4] in ("shp.", "geo.") or any(o.startswith("mag.region") and o.split()[7] in "456" for o in subj) and rng.random() < 0.5:
                # the same work on other materials again and again: what is new lies where the old was
                ops = []
                for j in range(rng.choice([1, 1, 2, 3, 8] if st < 5e6 else [1, 1, 1, 2])):
                    ops += G.churn(rng, subj, "z", rng.choice(["z", "h0"]))
                env = rng.choice([{}, {"heap_mode": 6}, {"heap_mode": 6}, {"heap_mode": 7}])
                yield Case([Phase([Client(ops, [], "keep continue")]), Phase([Client(subj, [], "subject")])], env=env)
                continue
            if mode < 0.35:                              # one thread, one after the other
                ops, fl = [], []
                for o, f in hs:
                    fl += [(x[0] + len(ops),) + x[1:] for x in f]
                    ops += o
                phases.append(Phase([Client(ops, fl, "keep continue")], join=rng.random() < 0.2))
                phases.append(Phase([Client(subj, [], "subject")]))
            elif mode < 0.7:                             # interleaved call by call on one thread
                seqs = [(list(o), list(f)) for o, f in hs if not any(x.startswith("geo.") for x in o)]
                seqs.append((list(subj), []))
                pos = [0] * len(seqs)
                ops, fl = [], []
                while True:
                    live = [j for j in range(len(seqs)) if pos[j] < len(seqs[j][0])]
                    if not live:
                        break
                    j = rng.choice(live)
                    burst = rng.choice([1, 1, 2, 4])
                    for _ in range(burst):
                        if pos[j] < len(seqs[j][0]):
                            for x in seqs[j][1]:
                                if x[0] == pos[j]:
                                    fl.append((len(ops),) + x[1:])
                            ops.append(seqs[j][0][pos[j]])
                            pos[j] += 1
                if any(o.startswith("geo.") for o in subj):
                    continue
                phases.append(Phase([Client(ops, fl, "subject continue")]))
            else:                                        # several threads, earlier and now
                for o, f in hs[:-1]:
                    phases.append(Phase([Client(o, f, "on=%d keep continue" % rng.randint(0, 2))], join=rng.random() < 0.3))
                o, f = hs[-1]
                phases.append(Phase([Client(o, f, "on=1 continue"), Client(subj, [], "on=0 subject")], sched="op %d %g 0 0" % (rng.randrange(1, 1 << 40), rng.choice([0.3, 0.7]))))
            yield Case(phases)

    def judge(self, ctx, case):
        where = None
        for pi, ph in enumerate(case.phases):
            for ci, cl in enumerate(ph.clients):
                if "subject" in cl.flags:
                    where = (pi, ci)
        if where is None:
            raise SkipCase("no subject")
        cl = case.phases[where[0]].clients[where[1]]
        idx = [k for k, o in enumerate(cl.ops) if slot_of(o) in ("z", "zx", None)]
        ref = ctx.ref(Case([Phase([Client([cl.ops[k] for k in idx], flags="on=%d" % worker_of(cl, where[1]))])], env=case.env))
        base = nofault(case)
        nofl = ctx.raw(base)
        if nofl.x and nofl.x[0] == "hang":
            raise SkipCase("hang")
        r = ctx.run(case, steps_of(nofl)) if any(c.faults for p in case.phases for c in p.clients) else nofl
        v = abnormal(r)
        if v and (nofl.x or nofl.memfree):   # even without faults: only where every program is well-behaved by itself
            progs = {}
            for p in case.phases:
                for c in p.clients:
                    for o in c.ops:
                        progs.setdefault((slot_of(o) or "").rstrip("x"), []).append(o)
            for o in progs.values():
                if ctx.ref(Case([Phase([Client(o)])], env=case.env)).memfree:
                    raise SkipCase("memfree")
        if v:
            return v, r
        got = r.bykey()
        rr = {x.op: x for x in ref.rows}
        for n, k in enumerate(idx):
            a, b = got.get((where[0], where[1], k)), rr.get(n)
            if b is None:
                continue
            if a is None:
                return missing(case, where[0], where[1], k), r
            if a.key() != b.key():
                return differ(case, a, b, "in a process of its own"), r
            v = file_differ(case, a, r, b, ref, "in a process of its own")
            if v:
                return v, r
        return None, r


# ---- faults ------------------------------------------------------------------------------------------
def fault_plan(ctx, rng, ref, ops, n):
    """n single-operation fault sets for client 0 of phase 0, spread over the distinct allocation sites"""
    cand = []
    for (ph, cl, op), sites in ref.sites.items():
        if ph == 0 and cl == 0:
            verb = ops[op].split(" ")[0] if op < len(ops) else "destroy"
            for k, h, size in sites:
                cand.append((op, k, verb + ":" + h, size))
    rows = [r for r in ref.rows if r.phase == 0 and r.client == 0 and r.allocs]
    if not cand or not rows:
        return []
    rng.shuffle(cand)
    cand.sort(key=lambda c: ctx.sites.get(c[2], 0))
    out = []
    ci = 0
    for _ in range(n):
        t = rng.random()
        if t < 0.6 and ci < len(cand):
            op, k, h, size = cand[ci]
            ci += 1
            ctx.sites[h] = ctx.sites.get(h, 0) + 1
            out.append([(op, 0, "alloc", k, rng.choice([1, 1, 1, 2, 10 ** 9]), 0)])
            continue
        row = rng.choice(rows)
        if t < 0.85:
            k = 1 + int(row.allocs * rng.random() ** rng.choice([1, 2, 4]))
            out.append([(row.op, 0, "alloc", min(k, row.allocs), rng.choice([1, 1, 2, 5, 50, 10 ** 9]), 0)])
        elif t < 0.93:
            out.append([(row.op, 0, "allocsize", max(16, int(row.maxsize * rng.choice([1, 0.9, 0.5, 0.2, 0.05]))), rng.choice([0, 0, row.allocs // 2]), 0)])
        else:
            out.append([(row.op, 0, "budget", int(rng.choice([0, 1000, 20000, 100000, 300000]) * rng.uniform(0.5, 2)), 0, 0)])
    return out


def fault_program(rng, s="m"):
    t = rng.random()
    if t < 0.08:
        return G.mag_program(rng, s, "t", nonlinear=True, queries=2)
    if t < 0.16:
        return G.mesh_only(rng, s)
    if t < 0.22:
        return G.mag_program(rng, s, "t", big=True, nonlinear=False)
    if t < 0.3:
        return G.draw_only(rng, s)
    p = G.program(rng, s, size=rng.choice(["t", "t", "t", "s"]), regen=rng.random() < 0.3)
    if t < 0.36:
        return G.with_plots(rng, p, s)
    if t < 0.42 and not p[0].startswith("geo."):
        return p[:-1] + [G.vecs(rng, p[0].split(".")[0], s)] + p[-1:]
    if rng.random() < 0.12 and not p[0].startswith("geo."):
        k = p[0].split(".")[0]
        at = rng.randint(1, len(p))
        p = p[:at] + ["%s.copy m2 %s" % (k, s), "%s.state m2" % k] + p[at:]
    return G.with_write(p, s)


class C05(Prop):
    id = "C05"
    exes = ["simrun", "simcv"]
    quick_s = 110
    rule = "a run: a seeded program with an injected allocation failure (one allocation, a burst, all large ones, or a memory budget), placed by allocation site or at random; non-trivial when the failure fired"

    def nontrivial(self, case, r):
        return sum(r.fired) > 0

    def scenario(self, ctx, rng, i):
        p = fault_program(rng)
        ref = ctx.ref(Case([Phase([Client(p)])], sites=True))
        n = 40
        for fl in fault_plan(ctx, rng, ref, p, n):
            ph = [Phase([Client(p, fl)])]
            if rng.random() < 0.25:
                ph.append(Phase([Client(p)]))
            yield Case(ph)

    def judge(self, ctx, case):
        base = nofault(case)
        ref = ctx.ref(Case(base.phases, env=case.env))
        r = ctx.run(case, steps_of(ref))
        v = abnormal(r)
        if v:
            return v, r
        want = ref.bykey()
        for a in r.rows:
            b = want.get((a.phase, a.client, a.op))
            if b is None:
                return missing(case, a.phase, a.client, a.op), r
            if a.faults and a.kind == "exc":
                continue
            if a.key() != b.key():
                return differ(case, a, b, "with memory" if a.faults else "without the earlier failure"), r
            v = file_differ(case, a, r, b, ref, "without failures")
            if v:
                return v, r
        return None, r


class C06(Prop):
    id = "C06"
    exes = ["simrun", "simcv"]
    quick_s = 110
    rule = "a run: a seeded program whose calls are hit by allocation failures on one or more attempts and are repeated until they succeed; non-trivial when at least one call failed and was repeated"

    def nontrivial(self, case, r):
        return any(x.att for x in r.rows)

    def scenario(self, ctx, rng, i):
        p = fault_program(rng)
        ref = ctx.ref(Case([Phase([Client(p)])], sites=True))
        for fl in fault_plan(ctx, rng, ref, p, 40):
            f = list(fl)
            op, _, kind, a, b, e = f[0]
            if rng.random() < 0.3:                       # the repetition fails too, elsewhere
                for att in range(1, rng.randint(2, 5)):
                    f.append((op, att, "alloc", max(1, int(a * rng.choice([0.5, 1, 1, 1.5, 0.1])) if kind == "alloc" else rng.randint(1, 200)), rng.choice([1, 1, 10 ** 9]), 0))
            if rng.random() < 0.2:                       # and another call further on
                rows = [x for x in ref.rows if x.op > op and x.allocs]
                if rows:
                    x = rng.choice(rows)
                    f.append((x.op, 0, "alloc", rng.randint(1, x.allocs), 1, 0))
            yield Case([Phase([Client(p, f, "retry")])])

    def judge(self, ctx, case):
        base = nofault(case)
        ref = ctx.ref(Case(base.phases, env=case.env))
        r = ctx.run(case, steps_of(ref) * 3)
        v = abnormal(r)
        failing = any(x.faults for x in r.rows)
        if v:
            in_fault = r.xt and not r.xt.rstrip().endswith("faults=0")
            if in_fault and "attempt=0" in r.xt:
                return None, r                           # the failing call itself: C05's matter
            return v, r
        want = ref.bykey()
        for a in r.rows:
            if a.faults and a.kind != "exc" and a.key() != want[(a.phase, a.client, a.op)].key():
                return None, r                           # C05 again
        got = r.bykey()
        for k, b in sorted(want.items()):
            a = got.get(k)
            if a is None:
                return missing(case, *k), r
            if a.key() != b.key():
                return differ(case, a, b, "without the failures"), r
            v = file_differ(case, a, r, b, ref, "without the failures")
            if v:
                return v, r
        return None, r


class C07(Prop):
    id = "C07"
    exes = ["simrun", "simcv"]
    quick_s = 110
    rule = "a run: a seeded program (regenerations, copies, rejected calls, injected allocation failures) performed twice round, with the live library heap measured after each round and every instrumented access checked against the heap blocks; non-trivial when the program allocated"

    def nontrivial(self, case, r):
        return any(x.allocs for x in r.rows)

    def program(self, rng):
        t = rng.random()
        if t < 0.15:
            p = G.mesh_only(rng, "m")
        elif t < 0.25:
            p = G.rejects(rng, "m")
        elif t < 0.29:
            p = G.saturated(rng, "m")
        elif t < 0.35:
            p = G.mag_program(rng, "m", "t", nonlinear=False, big=True)
        elif t < 0.39:
            p = G.mag_program(rng, "m", "t", nonlinear=True)
        elif t < 0.45:
            p = G.draw_only(rng, "m")
        elif t < 0.5:
            p, info = G.alg_build(rng, "m")
            return p + G.alg_copies(rng, "m", info["m"], 16) + ["alg.state m"]
        else:
            p = G.program(rng, "m", size=rng.choice(["t", "t", "s"]), regen=rng.random() < 0.6)
        if not p[0].startswith("geo.") and rng.random() < 0.4:
            k = p[0].split(".")[0]
            at = rng.randint(1, len(p))
            extra = ["%s.copy m2 m" % k, "%s.state m2" % k]
            if k in ("mag", "cd", "ml"):
                if rng.random() < 0.6:
                    extra.append("%s.assign m2 m" % k)
                if k == "mag" and rng.random() < 0.4:
                    extra.append("mag.move m2 m")
            if rng.random() < 0.4:
                extra.append(G.vecs(rng, k, "m2"))
            if rng.random() < 0.5:
                extra.append("%s.del %s" % (k, rng.choice(["m", "m2"])))
            p = p[:at] + extra + p[at:]
        return p

    def heap(self, rng):
        """released memory that is used again at once hides what still points to it"""
        return {} if rng.random() < 0.25 else {"heap_mode": rng.choice([1, 1, 2, 3, 4, 5, 5, 6, 7]), "heap_fill": rng.randint(0, 4), "heap_seed": rng.randint(1, 40)}

    def scenario(self, ctx, rng, i):
        p = self.program(rng)
        one = Case([Phase([Client(p)])])
        for _ in range(2):
            yield Case([Phase([Client(p)]), Phase([Client(p)]), Phase([Client(p)])], env=self.heap(rng))
        ref = ctx.ref(Case(one.phases, sites=True))
        for fl in fault_plan(ctx, rng, ref, p, 12):
            f = Client(p, fl, rng.choice(["", "", "continue", "retry"]))
            yield Case([Phase([Client(p)]), Phase([f]), Phase([Client(p)]), Phase([f])], env=self.heap(rng))

    def judge(self, ctx, case):
        try:
            st = steps_of(ctx.ref(Case([nofault(case).phases[0]])))
        except SkipCase as e:
            if str(e) == "hang":
                raise
            st = 0                       # it ends badly even once: look at how
        r = ctx.run(case, st * len(case.phases) * 3)
        faulty = any(cl.faults for p in case.phases for cl in p.clients)
        if r.mem:
            return Verdict("memory", r.mem, sig="memory"), r
        if r.x:
            if faulty:
                return None, r          # how the failing call ends is C05's matter
            return Verdict(r.x[0], r.x[1] + " " + (r.xt or "")), r
        n = len(case.phases)
        L = [r.live.get(k) for k in range(n)]
        if None in L:
            return None, r
        if n >= 3:
            if n == 3:
                grow = L[2][0] > L[1][0] and L[1][0] > L[0][0] or L[2][1] > L[1][1] > L[0][1]
                a, b = L[1], L[2]
            else:
                grow = L[3][0] > L[1][0] or L[3][1] > L[1][1]
                a, b = L[1], L[3]
            if grow:
                return Verdict("leak", "%d blocks, %d bytes live after one round, %d blocks, %d bytes after the next; %s" % (a[0], a[1], b[0], b[1], "; ".join(r.lb[:4]))), r
        # and whatever a process keeps for good must be gone once its threads have ended, unless it is reachable from static storage
        return None, r


class C08(Prop):
    id = "C08"
    exes = ["simcv"]
    quick_s = 110
    rule = "a run: a seeded program that writes files (matrix dump and picture, drawing picture, node and element field pictures) on a simulated disk that refuses to open, fails, truncates or interrupts writes, is full, or fails on close; non-trivial when a disk fault fired"
    real = REAL_LIB + ["OpenCV's encoders (system library, single-threaded)"]

    def nontrivial(self, case, r):
        return sum(r.fired) > 0

    def scenario(self, ctx, rng, i):
        t = rng.random()
        s = "m"
        W = []
        def size():
            return "%d %d" % (rng.choice([40, 64, 120, 200]), rng.choice([40, 64, 100]))
        def fn(b="p"):
            return b + rng.choice([".png", ".png", ".bmp", ".jpg"])
        big = rng.random() < 0.04
        if big:                                          # much more than any buffer
            n = rng.choice([300, 700, 1100, 2200])
            p = ["alg.new m %d" % n, "alg.fill m %d %d" % (n, rng.randint(1, 10 ** 6)), "alg.csr m"]
            W = [rng.choice(["alg.write m d.txt", "alg.plot m q.png"])]
            fin = ["alg.mult m 0 3"]
        elif t < 0.4:
            p, info = G.alg_build(rng, s)
            if rng.random() < 0.06:                      # the smallest matrices
                info["size"] = rng.choice([0, 0, 1, 2])
                p = ["alg.new m %d" % info["size"], "alg.fill m %d %d" % (rng.randint(0, 4), rng.randint(1, 99)), "alg.csr m"]
            W = [rng.choice(["alg.write m d.txt", "alg.write m d.txt", "alg.plot m " + fn("q")]) for _ in range(rng.randint(1, 2))]
            if info["size"] == 0:                        # there is no picture of nothing
                W = ["alg.write m d.txt"]
            fin = ["alg.state m", "alg.solve m 0 1e-6 50"]
        elif t < 0.75:
            b, info = G.mag_build(rng, s, "t")
            p = b + [G.mag_gen(s, info), "mag.solve m", "mag.curl m"]
            W = [rng.choice(["mag.dplot m %s %s" % (size(), fn()), "mag.nplot m %s %s %d" % (size(), fn("n"), rng.randint(0, 7)), "mag.eplot m %s %s %d" % (size(), fn("e"), rng.randint(0, 7))]) for _ in range(rng.randint(1, 2))]
            fin = ["mag.state m"]
        else:
            b, info = G.cd_build(rng, s, "t")
            p = b + [G.cd_gen(s, info)] + G.cd_volts(rng, s, info) + ["cd.solve m"]
            W = [rng.choice(["cd.dplot m %s %s" % (size(), fn()), "cd.nplot m %s %s %d" % (size(), fn("n"), rng.randint(0, 7)), "cd.eplot m %s %s %d" % (size(), fn("e"), rng.randint(0, 7))]) for _ in range(rng.randint(1, 2))]
            fin = ["cd.state m"]
        old = rng.random() < 0.4                         # an older, different file of that name is already there
        pre = []
        if old:
            pre = ["alg.new o 30", "alg.fill o 60 5", "alg.csr o"] + ["alg.write o " + w.split(" ")[2] for w in W if w.startswith("alg.write")] + \
                  ["alg.plot o " + [x for x in w.split(" ") if "." in x and x[0] in "pqned"][-1] for w in W if not w.startswith("alg.write")]
        ops = pre + p + W + fin
        env = {"disk": 1}
        ref = ctx.ref(Case([Phase([Client(ops)])], env=env, exe="simcv"))
        lo, hi = len(pre) + len(p), len(pre) + len(p) + len(W)
        rows = [r for r in ref.rows if lo <= r.op < hi]
        yield Case([Phase([Client(ops, [], "retry")])], env=env, exe="simcv")
        if not big and rng.random() < 0.5:               # calls that may be impossible: refused, or done completely
            odd = []
            for w in W * 2:
                x = w.split(" ")
                if ".plot" not in w and ".write" not in w and rng.random() < 0.7:
                    x[rng.choice([2, 3])] = rng.choice(["0", "0", "1", "2"])
                    if rng.random() < 0.2:
                        x[2] = x[3] = "0"
                else:
                    j = [n for n, v in enumerate(x) if "." in v and n > 1][-1]
                    x[j] = rng.choice(["no/where/" + x[j], "sub/" + x[j], "sub", x[j].split(".")[0] + ".xyz", x[j].split(".")[0], "l" * 120 + ".png"])
                odd.append(" ".join(x))
            yield Case([Phase([Client(pre + p + odd + W + fin, [], "go")])], env=env, exe="simcv")
        for _ in range(4 if big else 24):
            row = rng.choice(rows)
            f = []
            for att in range(rng.choice([1, 1, 1, 2, 3])):
                k = rng.choice(["open", "write", "write", "write", "full", "close", "close"])
                if k == "open":
                    f.append((row.op, att, "open", 1, rng.choice([1, 99]), rng.choice([2, 13, 24, 28, 30, 5])))
                elif k == "write":
                    n = max(1, row.writes)
                    err = rng.choice([28, 5, 122, 27, 4, -1, -7, -100, -511])
                    f.append((row.op, att, "write", rng.choice([1, n, rng.randint(1, n)]), rng.choice([1, 1, 10 ** 6]) if err > 4 else rng.choice([1, 2]), err))
                elif k == "full":
                    tot = max([v[1] for v in ref.files.get((0, 0, row.op, 0), {"": ("", 1000)}).values()])
                    f.append((row.op, att, "full", int(rng.choice([0, 0.1, 0.5, 0.9, 0.999]) * tot), 0, 0))
                else:
                    f.append((row.op, att, "close", 1, rng.choice([1, 99]), rng.choice([5, 28, 122, 4])))
            e = dict(env)
            if rng.random() < 0.2:
                e["locale"] = rng.randint(1, 3)
            yield Case([Phase([Client(ops, f, "retry")])], env=e, exe="simcv")

    def judge(self, ctx, case):
        base = nofault(case, {"disk": 1})
        for p in base.phases:
            for cl in p.clients:
                if cl.flags != "go":
                    cl.flags = "retry"
        ref = ctx.ref(base)
        for a in ref.rows:
            if a.status == "ok" and a.openfds:
                return Verdict("file", "%s leaves a file open" % describe(case, a)), ref_as(ctx, case, ref)
            if a.note.startswith("FILE"):
                return Verdict("file", "%s returned normally, but %s" % (describe(case, a), a.note)), ref_as(ctx, case, ref)
        r = ctx.run(case, steps_of(ref) * 3)
        v = abnormal(r)
        if v:
            return v, r
        want = {(x.phase, x.client, x.op): x for x in ref.rows}
        for a in r.rows:
            k = (a.phase, a.client, a.op)
            b = want.get(k)
            if b is None:
                return missing(case, *k), r
            if a.openfds:
                return Verdict("file", "%s (%s) leaves %d file(s) open" % (describe(case, a), a.status, a.openfds)), r
            if a.note.startswith("FILE"):
                return Verdict("file", "%s returned normally, but %s" % (describe(case, a), a.note)), r
            if a.kind == "exc":
                if not a.faults and b.kind != "exc":
                    return differ(case, a, b, "on a working disk"), r
                continue
            if a.key() != b.key():
                return differ(case, a, b, "on a working disk"), r
            if a.opens or b.opens:
                name = target(case.phases[a.phase].clients[a.client].ops[a.op])
                wf = ref.files.get((a.phase, a.client, a.op, 0), {}).get(name)
                gf = r.files.get((a.phase, a.client, a.op, a.att), {}).get(name)
                if wf is None:
                    return Verdict("file", "%s returns without writing %s" % (describe(case, a), name)), r
                if gf != wf:
                    return Verdict("file", "%s returned normally, but %s has %s instead of %s" % (describe(case, a), name, gf and "%d bytes" % gf[1], "%d bytes" % wf[1])), r
        got = r.bykey()
        for k, b in want.items():
            a = got.get(k)
            if a is None:
                return missing(case, *k), r
            if a.key() != b.key():
                return differ(case, a, b, "on a working disk"), r
        return None, r


def ref_as(ctx, case, ref):
    r = ctx.run(nofault(case), steps_of(ref))
    return r


def target(op):
    for w in op.split(" ")[2:]:
        if re.match(r"^([a-z]\d?|sub/.*|no/.*|l+)\.(png|bmp|jpg|txt|xyz)$|^[qdpne]$|^sub$", w):
            return w
    return "?"


class C09(Prop):
    id = "C09"
    rule = "a run: minimum enclosing circles of seeded point sets while the random generator delivers a seeded or adversarial sequence; checked against an exhaustive search over pairs and triples (of all points, or of a growing subset for larger sets); non-trivial when the library drew at least one random number"

    def nontrivial(self, case, r):
        return int(r.z.get("rand", 0)) > 0

    def scenario(self, ctx, rng, i):
        ops = []
        for _ in range(6):
            kind = rng.choice(["rand", "rand", "grid", "circle", "line", "dup", "far", "tiny", "near"])
            n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14, 20, 30, 60]) if rng.random() < 0.95 else rng.choice([120, 250, 400])
            ops.append("geo.%s %s" % (rng.choice(["mec", "mec", "mecset"]), G.ptext(G.points(rng, n, kind))))
        for _ in range(10):
            e = {"rand_mode": rng.choice([0, 0, 1, 2, 3, 4, 5, 6]), "rand_seed": rng.randint(1, 10 ** 6)}
            c = Case([Phase([Client(ops)])], env=e)
            if e["rand_mode"] == 6:
                c.randlist = [rng.choice([0, 1, 2, 3, 4, 5, 7, 2147483647, rng.randrange(1 << 31), rng.randrange(1 << 31)]) for _ in range(rng.randint(4, 60))]
            if rng.random() < 0.1:
                e["heap_fill"], e["heap_seed"] = rng.randint(0, 4), rng.randint(1, 50)
            yield c

    def judge(self, ctx, case):
        r = ctx.run(case, 1000000)
        v = abnormal(r)
        if v:
            return v, r
        for row in r.rows:
            op = case.phases[0].clients[0].ops[row.op]
            if row.note.startswith("MEC"):
                return Verdict("circle", "%s: %s" % (op, row.note)), r
            if op.startswith("geo.mec") and row.kind == "exc":
                return Verdict("exception", "%s: %s" % (op, row.status)), r
        return None, r


# ---- copies ------------------------------------------------------------------------------------------
class C12(Prop):
    id = "C12"
    rule = "a run: a seeded model copied or assigned at a seeded point, then both continued in a seeded interleaving (one thread or two), either destroyed first, with or without an allocation failure inside the copy; each compared with a twin that was never copied; non-trivial when both went on after the copy"

    def nontrivial(self, case, r):
        return True

    def scenario(self, ctx, rng, i):
        k = rng.choice(["mag", "mag", "cd", "cd", "ml", "alg", "shp"])
        s = "S.a"
        size = "t"
        if k not in ("alg", "shp") and rng.random() < 0.15:
            p = G.draw_only(rng, s, k)
            at = rng.randint(1, len(p) - 1)
            b, tail = p[:at], p[at:]
        elif k == "mag":
            b, info = G.mag_build(rng, s, "n" if i % 9 == 4 else size, i % 9 == 4)
            tail = [G.mag_gen(s, info), "mag.solve " + s, "mag.curl " + s] + (G.mag_queries(rng, s, info, 4) if not info["moved"] else []) + ["mag.state " + s]
        elif k == "cd":
            b, info = G.cd_build(rng, s, size)
            tail = [G.cd_gen(s, info)] + G.cd_volts(rng, s, info) + ["cd.solve " + s] + G.cd_queries(rng, s, info, 4) + ["cd.state " + s]
        elif k == "ml":
            b, info = G.ml_build(rng, s, size)
            tail = [G.ml_gen(s, info)] + G.ml_volts(rng, s, info) + ["ml.solve " + s] + G.ml_queries(rng, s, info, 3) + ["ml.state " + s]
        elif k == "shp":
            b, tail = G.shp_build(rng, s), []
            for _ in range(4):
                tail += G.shp_queries(rng, s, 1) + ["shp.shift %s 1 %d 0.5" % (s, rng.randint(-2, 2))]
            tail += ["shp.state " + s]
        else:
            b, info = G.alg_build(rng, s)
            tail = G.alg_queries(rng, s, info, 4) + ["alg.set %s %d %d 0.25" % (s, rng.randrange(info["m"]), rng.randrange(info["m"])), "alg.csr " + s] + G.alg_queries(rng, s, info, 2) + ["alg.state " + s]
        prog = b + tail
        if any(o.startswith("mag.gen") and o.endswith(" 1") for o in prog):
            pass
        for _ in range(6):
            at = rng.choice([rng.randint(1, len(prog)), rng.randint(len(b), len(prog))])
            pre, post = prog[:at], prog[at:]
            t = "S.b"
            other = G.mutate(rng, [o.replace(" " + s, " " + t, 1) for o in post], t, t)
            if rng.random() < 0.3:
                other = other[:rng.randint(0, len(other))] + ["%s.state %s" % (k, t)]
            if rng.random() < 0.3 and k not in ("alg", "shp"):
                g = [o for o in prog if o.startswith(k + ".gen")]
                if g:
                    other = other + [g[0].replace(" " + s, " " + t, 1), "%s.state %s" % (k, t)]
            verbs = ["copy", "assign"] if k == "alg" else ["copy", "copy", "assign"] + (["move"] if k == "mag" else [])
            v = rng.choice(verbs)
            setup = list(pre)
            if v != "copy":                              # assign over a model that already lived
                q = rng.random()
                if q < 0.3:
                    setup += [b[0].replace(" " + s, " " + t, 1)]
                else:
                    o = G.mutate(rng, [x.replace(" " + s, " " + t, 1) for x in prog[:rng.randint(1, len(prog))]], t, t)
                    setup += o
            if k == "alg" and rng.random() < 0.5:        # copies before, written to at the same places
                again = "%d %d" % (rng.randrange(info["m"]), rng.randrange(info["m"]))
                for _ in range(rng.randint(1, 4)):
                    setup += ["alg.copy %s %s" % (t, s), "alg.set %s %s %s" % (rng.choice([t, t, s]), again, G.f(rng.uniform(-0.1, 0.1)))]
                    if rng.random() < 0.6:
                        setup += ["alg.del %s" % t] + (["alg.new %s %d" % (t, info["m"])] if v == "assign" else [])
                post = ["alg.set %s %s 0.125" % (s, again)] + post
                other = ["alg.set %s %s 0.0625" % (t, again), "alg.csr " + t] + other
            setup.append("%s.%s %s %s" % (k, v, t, s))
            if rng.random() < 0.3:
                w, x = rng.choice([(post, s), (other, t)])
                w.insert(rng.randint(0, len(w)), G.vecs(rng, k, x))
            fl = []
            if rng.random() < 0.3:
                fl = [(len(setup) - 1, 0, "alloc", rng.choice([1, 2, 3, rng.randint(1, 40), rng.randint(1, 800)]), 1, 0)]
            if rng.random() < 0.25:
                setup.append("%s.del %s" % (k, rng.choice([s, t])))
            mode = rng.random()
            if mode < 0.5:
                ops = list(setup)
                a, c2 = list(post), list(other)
                while a or c2:
                    w = a if (a and (not c2 or rng.random() < 0.5)) else c2
                    ops.append(w.pop(0))
                if rng.random() < 0.3:
                    ops.insert(rng.randint(len(setup), len(ops)), "%s.del %s" % (k, rng.choice([s, t])))
                ops = [o.replace(" S.a", " a").replace(" S.b", " b") for o in ops]
                yield Case([Phase([Client(ops, fl, "continue")])])
            else:
                sch = "geo %d 0 %d 0" % (rng.randrange(1, 1 << 40), rng.choice([2000, 20000, 200000])) if rng.random() < 0.5 else "shared %d 0.3 %d 0" % (rng.randrange(1, 1 << 40), rng.choice([0, 50000]))
                yield Case([Phase([Client(setup, fl, "keep continue")]), Phase([Client(post), Client(other)], sched=sch)])

    def lineages(self, case):
        """slot -> the operations that made it what it is, and where each is in the case"""
        line, full = {}, []
        for pi, ph in enumerate(case.phases):
            for ci, cl in enumerate(ph.clients):
                for oi, op in enumerate(cl.ops):
                    w = op.split(" ")
                    v = w[0].split(".")[1]
                    sl = w[1]
                    if v in ("copy", "assign", "move"):
                        src = w[2]
                        if src in line:
                            old = [x for x in line.get(sl, []) if x[3]]
                            full.append((sl, line.pop(sl, None)))
                            line[sl] = [(pi, ci, re.sub(r"^(\S+) \S+", r"\1 " + sl, o), False, q) for (pi2, ci2, o, own, q) in line[src]]
                            line[sl].append((pi, ci, None, True, (pi, ci, oi)))
                    else:
                        line.setdefault(sl, []).append((pi, ci, op, True, (pi, ci, oi)))
        full += list(line.items())
        return [(a, b) for a, b in full if b]

    def judge(self, ctx, case):
        if not any(o.split(" ")[0].split(".")[1] in ("copy", "assign", "move") for p in case.phases for cl in p.clients for o in cl.ops):
            raise SkipCase("no copy")
        base = nofault(case)
        twins = []
        tot = 0
        for sl, ops in self.lineages(base):
            ph = [[[] for _ in p.clients] for p in base.phases]
            want = {}
            for (pi, ci, op, own, q) in ops:
                if op is None:
                    continue
                if own:
                    want[(pi, ci, len(ph[pi][ci]))] = q
                ph[pi][ci].append(op)
            c = Case([Phase([Client(o, [], "on=%d%s" % (worker_of(base.phases[pi].clients[ci], ci), " keep" if "keep" in base.phases[pi].clients[ci].flags else "")) for ci, o in enumerate(cl)]) for pi, cl in enumerate(ph)])
            rr = ctx.ref(c)
            tot += steps_of(rr)
            twins.append((sl, want, rr))
        r = ctx.run(case, tot)
        v = abnormal(r)
        if v:
            return v, r
        if r.mem and not ctx.ref(base).mem:
            return Verdict("memory", r.mem), r
        got = r.bykey()
        # objects a failed copy left unusable
        dead = {}
        for a in r.rows:
            op = case.phases[a.phase].clients[a.client].ops[a.op].split(" ")
            if op[0].split(".")[1] in ("copy", "assign", "move"):
                if a.kind == "exc":
                    if not a.faults:
                        return Verdict("exception", "%s: %s" % (describe(case, a), a.status)), r
                    dead[op[1]] = (a.phase, a.client, a.op)
        for sl, want, rr in twins:
            rows = rr.bykey()
            for k, q in want.items():
                a, b = got.get(q), rows.get(k)
                if b is None:
                    continue
                if sl in dead and q[:1] + q[2:] > (dead[sl][0], dead[sl][2]):
                    continue
                if a is None:
                    return missing(case, *q), r
                if a.key() != b.key():
                    return differ(case, a, b, "never copied"), r
        return None, r


# ---- the process's settings --------------------------------------------------------------------------
class C13(Prop):
    id = "C13"
    exes = ["simrun", "simcv"]
    rule = "a run: a seeded program (drawing, meshing, solving, pictures, copies, refused calls) in a process whose settings were seeded by its caller, with or without allocation failures, a failing console, a failing disk or a second thread; every setting is read before and after every operation; every run is non-trivial"

    def nontrivial(self, case, r):
        return True

    def scenario(self, ctx, rng, i):
        ctx.limit = 60000000
        s = "m"
        t = rng.random()
        if t < 0.2:
            p = G.rejects(rng, s) + G.program(rng, "n", size="t")
        elif t < 0.3:
            p = G.mesh_only(rng, s)
        elif t < 0.36:
            p = G.alg_program(rng, s) + ["alg.write m d.txt", "alg.print m"]
        else:
            p = fault_program(rng, s)
            if rng.random() < 0.35:
                p = G.with_plots(rng, p, s)
        if rng.random() < 0.4:
            p = G.with_refused(rng, p, s)
        disk = {"disk": 1} if any(FILEOP.match(o) for o in p) else {}
        ref = ctx.ref(Case([Phase([Client(p, [], "continue")])], sites=True))
        def env(loc=True):
            e = env_variant(rng, loc) if rng.random() < 0.5 else {}
            e.update(disk)
            e["settings"] = rng.choice([1, rng.randint(2, 10 ** 6), rng.randint(2, 10 ** 6)])
            return e
        for _ in range(4):
            yield Case([Phase([Client(p, [], "continue")])], env=env())
        for fl in fault_plan(ctx, rng, ref, p, 8):
            yield Case([Phase([Client(p, fl, rng.choice(["continue", "retry", ""]))])], env=env())
        files = [r for r in ref.rows if r.opens or r.writes]
        for _ in range(6 if files else 0):
            row = rng.choice(files)
            k = rng.choice(["open", "write", "write", "close"])
            if k == "open":
                fl = (row.op, 0, "open", 1, 99, rng.choice([2, 13, 24, 28]))
            elif k == "write":
                fl = (row.op, 0, "write", rng.randint(1, max(1, row.writes)), rng.choice([1, 10 ** 6]), rng.choice([28, 5, -7]))
            else:
                fl = (row.op, 0, "close", 1, 99, rng.choice([5, 28]))
            yield Case([Phase([Client(p, [fl], rng.choice(["continue", "retry"]))])], env=env())
        q = G.program(rng, "k", size="t")
        tot = steps_of(ref)
        for sch in schedules(rng, tot, 2, 2):
            yield Case([Phase([Client(p, [], "continue"), Client(q)], sched=sch)], env=env(False))

    def judge(self, ctx, case):
        if not case.env.get("settings"):
            raise SkipCase("settings not watched")
        base = nofault(case, {k: v for k, v in case.env.items() if k == "disk"})
        base.phases = [Phase([Client(c.ops, [], "continue") for c in p.clients]) for p in base.phases]
        ref = ctx.raw(base)
        r = ctx.run(case, steps_of(ref))
        for (ph, cl, op, att), st, what, how in r.settings:
            try:
                o = "calls of phase %d" % ph if cl < 0 else "phase %d client %d op %d (%s, %s)" % (ph, cl, op, case.phases[ph].clients[cl].ops[op], st)
            except IndexError:
                o = "destroying the objects of phase %d client %d" % (ph, cl)
            return Verdict("settings", "%s left %s different: %s" % (o, what, how), sig=what), r
        return None, r


# ---- refused calls -----------------------------------------------------------------------------------
class C14(Prop):
    id = "C14"
    exes = ["simrun", "simcv"]
    rule = "a run: a seeded program with calls spliced in that the library refuses (shapes that cross, points outside every polygon, impossible mesh settings, files that cannot be made), with or without allocation failures inside the refused calls, compared with the same program without them; non-trivial when at least one call was refused"

    def nontrivial(self, case, r):
        return any(row.kind == "exc" for row in r.rows)

    def scenario(self, ctx, rng, i):
        ctx.limit = 60000000
        s = "m"
        for _ in range(4):
            p = fault_program(rng, s) if rng.random() < 0.85 else G.ml_program(rng, s, size="t")
            if p[0].split(".")[0] in ("mag", "cd", "ml", "alg"):
                break
        else:
            return
        k = p[0].split(".")[0]
        put = {}
        for _ in range(rng.randint(2, 8)):
            at, o = G.refusable(rng, p, s)
            if o:
                put.setdefault(at, []).append(o)
        build = lambda put: [x for j in range(len(p) + 1) for x in [o + " !" for o in put.get(j, [])] + ([p[j]] if j < len(p) else [])]
        trial = build(put)
        for _ in range(12):                              # keep those that are refused
            r = ctx.raw(Case([Phase([Client(trial, [], "go")])]))
            bad = [row.op for row in r.rows if trial[row.op].endswith(" !") and row.kind != "exc"]
            if not bad and not r.x:
                break
            if not bad:
                if r.x[0] != "hang":                     # the judge decides
                    break
                bad = [j for j, o in enumerate(trial) if o.endswith(" !")][-1:]
                if not bad:
                    return
            trial = [o for j, o in enumerate(trial) if j not in bad]
        ops, calls = [], []
        for o in trial:
            if o.endswith(" !"):
                n = rng.choice([1, 1, 1, 2, 4])
                calls += range(len(ops), len(ops) + n)
                ops += [o] * n
                if (".gen " not in o or not any(".gen " in x and not x.endswith(" !") for x in ops)) and rng.random() < 0.5:
                    ops.append("%s.state %s" % (k, s))
            else:
                ops.append(o)
        if not calls:
            return
        yield Case([Phase([Client(ops, [], "go")])])
        ref = ctx.ref(Case([Phase([Client(ops, [], "go")])], sites=True))
        sub = [(o, n) for (ph, cl, o), st in ref.sites.items() if o in set(calls) for n in [len(st)]]
        rows = {r.op: r for r in ref.rows}
        for _ in range(10):
            fl = []
            for o in rng.sample(calls, min(len(calls), rng.randint(1, 2))):
                a = rows[o].allocs if o in rows else 0
                if a:
                    fl.append((o, 0, "alloc", rng.choice([1, a, rng.randint(1, a), max(1, a - rng.randint(0, 6))]), rng.choice([1, 1, 2, 10 ** 9]), 0))
            if fl:
                yield Case([Phase([Client(ops, fl, "go")])], env=env_variant(rng) if rng.random() < 0.2 else {})
        for _ in range(2):
            yield Case([Phase([Client(ops, [], "go")])], env=env_variant(rng))

    def judge(self, ctx, case):
        base = nofault(case, {k: v for k, v in case.env.items() if k == "disk"})
        ops = base.phases[0].clients[0].ops
        twin = Case([Phase([Client([o for o in ops if not o.endswith(" !")], [], "go")])], env=base.env, exe=case.exe)
        keep = [j for j, o in enumerate(ops) if not o.endswith(" !")]
        if len(keep) == len(ops):
            raise SkipCase("nothing refused")
        want = {keep[row.op]: row for row in ctx.ref(twin).rows}
        ref = ctx.raw(base)
        if ref.x and ref.x[0] == "hang":
            raise SkipCase("hang")
        first = {}
        for row in ref.rows:
            if ops[row.op].endswith(" !"):
                if row.kind != "exc":
                    raise SkipCase("accepted")
                first[row.op] = row
        r = ctx.run(case, steps_of(ref))
        v = abnormal(r)
        if v:
            return v, r
        for a in r.rows:
            if a.op in first:
                if not a.faults and a.status != first[a.op].status:
                    return differ(case, a, first[a.op], "in the default environment"), r
                if a.kind != "exc":
                    return Verdict("differs", "%s is accepted after a failure" % describe(case, a)), r
                continue
            b = want.get(a.op)
            if b is None:
                return missing(case, a.phase, a.client, a.op), r
            if a.kind == "exc" and a.faults:
                raise SkipCase("fault outside the refused calls")
            if a.key() != b.key():
                return differ(case, a, b, "without the refused calls"), r
        return None, r


PROPS = {c.id: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C12, C13, C14)}
