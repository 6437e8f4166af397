"""Seeded workload generators: programs over the library's public calls."""
import math, re
from random import Random


def f(x):
    return ("%.6g" % x)


def shapes(rng, w, h, n, cx=0.0, cy=0.0):
    """n disjoint inner shapes inside the rectangle of half-size w,h around cx,cy; returns (ops, centre)."""
    if n <= 0:
        return []
    cols = 1 if n == 1 else 2
    rows = (n + cols - 1) // cols
    out = []
    cw, ch = 2 * w / cols, 2 * h / rows
    for k in range(n):
        c, r = k % cols, k // cols
        x = cx - w + cw * (c + 0.5) + rng.uniform(-0.05, 0.05) * cw
        y = cy - h + ch * (r + 0.5) + rng.uniform(-0.05, 0.05) * ch
        s = min(cw, ch) * rng.uniform(0.15, 0.3)
        t = rng.random()
        if t < 0.3:
            op = "rect %s %s %s %s" % (f(x - s), f(y - s), f(x + s), f(y + s))
        elif t < 0.45:
            op = "rectwh %s %s %s %s" % (f(x - s), f(y - s), f(2 * s), f(2 * s * rng.uniform(0.6, 1)))
            y = y - 0.2 * s
        elif t < 0.7:
            op = "circle %s %s %s %d" % (f(x), f(y), f(s), rng.randint(4, 10))
        else:
            k2 = rng.randint(3, 6)
            pts = []
            for i in range(k2):
                a = 2 * math.pi * (i + rng.uniform(0, 0.3)) / k2
                pts.append("%s %s" % (f(x + s * math.cos(a)), f(y + s * math.sin(a))))
            op = "%s %d %s" % (rng.choice(["poly", "polyobj", "polyptr"]), k2, " ".join(pts))
        out.append((op, x, y))
    return out


def area_for(rng, size, total):
    n = {"n": (12, 40), "t": (12, 40), "s": (30, 90), "m": (80, 220)}[size]
    k = rng.uniform(*n)
    r2 = Random(k)
    if size != "n" and r2.random() < 0.03:                        # now and then a mesh of a size people use
        k = 10 ** r2.uniform(2.6, 3.3)
    return total / k


def mag_build(rng, s, size="s", nonlinear=False, big=False):
    """drawing, regions and generation of a magnetostatic model; returns (ops, info)"""
    sc = rng.choice([0.1, 0.5, 1.0, 1.0, 2.0]) if not big else rng.choice([5.0, 10.0, 20.0])
    w, h = sc * rng.uniform(0.7, 1.2), sc * rng.uniform(0.7, 1.2)
    cx, cy = (0.0, 0.0) if rng.random() < 0.5 else (sc * rng.uniform(-2, 2), sc * rng.uniform(-2, 2))
    ops = ["mag.new %s" % s]
    ops.append("mag.rect %s %s %s %s %s" % (s, f(cx - w), f(cy - h), f(cx + w), f(cy + h)))
    inner = shapes(rng, w, h, rng.randint(1, 3), cx, cy)
    rm = 1 if rng.random() < 0.15 else 0
    body = []
    for op, x, y in inner:
        v, rest = op.split(" ", 1)
        body.append("mag.%s %s %s" % (v, s, rest))
        J = rng.choice([0, 1, -1, rng.uniform(-5, 5)])
        m = rng.choice([0, 1, 3] + ([4] if nonlinear else [2]))
        if m == 4:
            m = Random(op).choice([4, 4, 4, 5, 6])
        mx = my = 0
        if (not rm or rng.random() < 0.2) and (m == 3 or rng.random() < 0.2):
            mx, my = rng.uniform(-2, 2), rng.uniform(-2, 2)
        body.append("mag.region %s %s %s %s %s %s %d" % (s, f(x), f(y), f(J), f(mx), f(my), m))
    r2 = Random("".join(ops + body))
    if r2.random() < 0.12:                                        # a magnet inside one of the shapes
        q = [(op, x, y) for op, x, y in inner if op.startswith(("rect ", "rectwh "))]
        if q:
            op, x, y = r2.choice(q)
            d = 0.25 * min(abs(float(v)) for v in [float(op.split(" ")[1]) - x, float(op.split(" ")[2]) - y])
            body.append("mag.rect %s %s %s %s %s" % (s, f(x - d), f(y - d), f(x + d), f(y + d)))
            body.append("mag.region %s %s %s %s %s %s %d" % (s, f(x + 1.8 * d), f(y), f(r2.uniform(-2, 2)), f(r2.choice([0, 1.5])), 0, 1))
            body = [("mag.region %s %s %s 0 %s %s 3" % (s, f(x), f(y), f(r2.uniform(-2, 2)), f(r2.uniform(-2, 2)))) if b.startswith("mag.region %s %s %s " % (s, f(x), f(y))) and not rm else b for b in body]
    if r2.random() < 0.1 and len(ops) == 2:                       # no frame around the shapes
        ops.pop()
    # outer rectangle's own region, near its corner
    body.append("mag.region %s %s %s 0 0 0 %d" % (s, f(cx + w * 0.97), f(cy + h * 0.97), rng.choice([0, 0, 1, 2])))
    ops += body
    if rng.random() < 0.1:
        ops.append("mag.translate %s %s %s" % (s, f(rng.uniform(-1, 1)), f(rng.uniform(-1, 1))))
        return ops, dict(moved=True, inner=[(x, y) for _, x, y in inner], gen=gen_args(rng, size, sc, w, h, rm))
    return ops, dict(moved=False, inner=[(x, y) for _, x, y in inner], gen=gen_args(rng, size, sc, w, h, rm), rect=(cx, cy, w, h))


def gen_args(rng, size, sc, w, h, rm):
    R2 = (w * w + h * h) * 1.5 * 1.5 * 3.14
    return (1 if rng.random() < 0.25 else 0, area_for(rng, size, R2), rng.choice([0, 15, 20, 25, 30]), rm)


def mag_gen(s, info):
    r, a, ang, rm = info["gen"]
    return "mag.gen %s %d %s %d %d" % (s, r, f(a), ang, rm)


def mag_queries(rng, s, info, n, heavy=True):
    q = []
    for _ in range(n):
        x, y = rng.choice(info["inner"])
        p = "%s %s" % (f(x), f(y))
        t = rng.choice(["area", "mass", "bary", "inertia", "inner", "deps", "csr", "getfem", "enorm", "grad", "pprop", "geomq", "polyq"] + (["force", "torque", "stress"] * 2 if heavy else []))
        if t == "area":
            q.append("mag.area %s %s" % (s, p))
        elif t == "mass":
            q.append("mag.mass %s %s %s" % (s, p, f(rng.uniform(0.1, 10))))
        elif t == "bary":
            q.append("mag.bary %s %s" % (s, p))
        elif t == "inertia":
            q.append("mag.inertia %s %s %s %s %s" % (s, p, f(rng.uniform(-1, 1)), f(rng.uniform(-1, 1)), f(rng.uniform(0.1, 10))))
        elif t == "inner":
            q.append("mag.inner %s %s" % (s, p))
        elif t in ("deps", "getfem", "enorm", "grad"):
            q.append("mag.%s %s" % (t, s))
        elif t in ("csr", "geomq", "polyq"):
            q.append("mag.%s %s %d" % (t, s, rng.randint(1, 99)))
        elif t == "pprop":
            q.append("mag.pprop %s %d" % (s, rng.randint(0, 5)))
        elif t == "force":
            q.append("mag.force %s %s" % (s, p))
        else:
            q.append("mag.%s %s %s %s %s" % (t, s, p, f(rng.uniform(-1, 1)), f(rng.uniform(-1, 1))))
    return q


def mag_program(rng, s, size="s", nonlinear=None, queries=4, big=False, regen=False, solve=True):
    nl = rng.random() < 0.04 if nonlinear is None else nonlinear
    ops, info = mag_build(rng, s, "n" if nl else size, nl, big)
    if rng.random() < 0.1:
        ops.insert(rng.randint(2, len(ops)), "mag.%s %s" % (rng.choice(["refine", "refine", "refmag"]), s))
    ops.append(mag_gen(s, info))
    if regen and rng.random() < 0.5:
        ops.append(mag_gen(s, info))
    if solve:
        ops += ["mag.solve %s" % s, "mag.curl %s" % s]
        if info["moved"]:
            info = dict(info)
            ops += ["mag.enorm %s" % s, "mag.deps %s" % s]
        else:
            ops += mag_queries(rng, s, info, queries)
    ops.append("mag.state %s" % s)
    return ops


def cd_build(rng, s, size="s"):
    sc = rng.choice([0.1, 1.0, 1.0, 3.0])
    w, h = sc * rng.uniform(0.7, 1.2), sc * rng.uniform(0.7, 1.2)
    ops = ["cd.new %s %s" % (s, f(rng.choice([1, 1, 0.5, 2])))]
    inner = []
    if rng.random() < 0.25:
        # an L-shaped outline
        pts = [(-w, -h), (w, -h), (w, 0.1 * h), (0.1 * w, 0.1 * h), (0.1 * w, h), (-w, h)]
        ops.append("cd.poly %s %d %s" % (s, len(pts), " ".join("%s %s" % (f(x), f(y)) for x, y in pts)))
        ops.append("cd.region %s %s %s %s" % (s, f(-0.6 * w), f(-0.6 * h), f(rng.uniform(0.5, 5))))
        pr = (-0.6 * w, -0.6 * h)
    else:
        ops.append("cd.rect %s %s %s %s %s" % (s, f(-w), f(-h), f(w), f(h)))
        ops.append("cd.region %s %s %s %s" % (s, f(-0.95 * w), f(-0.95 * h), f(rng.uniform(0.5, 5))))
        for op, x, y in shapes(rng, w * 0.8, h * 0.8, rng.randint(0, 2)):
            v, rest = op.split(" ", 1)
            ops.append("cd.%s %s %s" % (v, s, rest))
            ops.append("cd.region %s %s %s %s" % (s, f(x), f(y), f(rng.uniform(0.5, 50))))
            inner.append((x, y))
        pr = (-0.95 * w, -0.95 * h)
    inner.append(pr)
    info = dict(inner=inner, w=w, h=h, gen=(1 if rng.random() < 0.2 else 0, area_for(rng, size, 4 * w * h), rng.choice([0, 15, 20, 25, 30])))
    return ops, info


def cd_gen(s, info):
    r, a, g = info["gen"]
    return "cd.gen %s %d %s %d" % (s, r, f(a), g)


def cd_volts(rng, s, info):
    w, h = info["w"], info["h"]
    o = ["cd.volt %s %s %s %s" % (s, f(-w), f(-h), f(rng.uniform(0.5, 5))), "cd.volt %s %s %s %s" % (s, f(w), f(-h), f(rng.uniform(-5, 0)))]
    if rng.random() < 0.3:
        o.append("cd.volt %s %s %s %s" % (s, f(rng.uniform(-w, w)), f(rng.uniform(-h, h)), f(rng.uniform(-1, 1))))
    return o


def cd_queries(rng, s, info, n):
    q = []
    for _ in range(n):
        x, y = rng.choice(info["inner"])
        p = "%s %s" % (f(x), f(y))
        t = rng.choice(["grad", "curl", "area", "mass", "bary", "inertia", "inner", "deps", "csr", "cot", "getfem", "pprop", "geomq", "polyq"])
        if t in ("grad", "curl", "deps", "cot", "getfem", "csr"):
            q.append("cd.%s %s" % (t, s))
        elif t == "mass":
            q.append("cd.mass %s %s 2" % (s, p))
        elif t == "inertia":
            q.append("cd.inertia %s %s 0.5 0.25 2" % (s, p))
        elif t == "pprop":
            q.append("cd.pprop %s %d" % (s, rng.randint(0, 4)))
        elif t in ("geomq", "polyq"):
            q.append("cd.%s %s %d" % (t, s, rng.randint(1, 99)))
        else:
            q.append("cd.%s %s %s" % (t, s, p))
        r2 = Random(repr(rng.getstate()))
        if r2.random() < 0.08:
            q[-1] = "cd.bc %s %d" % (s, r2.randint(1, 99))
    return q


def cd_program(rng, s, size="s", queries=3, regen=False):
    ops, info = cd_build(rng, s, size)
    if rng.random() < 0.1:
        ops.append("cd.refine %s" % s)
    ops.append(cd_gen(s, info))
    if regen and rng.random() < 0.5:
        ops.append(cd_gen(s, info))
    ops += cd_volts(rng, s, info)
    ops.append("cd.solve %s" % s)
    ops += cd_queries(rng, s, info, queries)
    ops.append("cd.state %s" % s)
    return ops


def ml_build(rng, s, size="s"):
    n = rng.randint(1, 3)
    sc = rng.choice([0.5, 1.0, 2.0])
    w, h = sc * rng.uniform(0.7, 1.2), sc * rng.uniform(0.7, 1.2)
    ops = ["ml.new %s %d%s" % (s, n, "" if rng.random() < 0.5 else "".join(" " + f(rng.uniform(0.1, 2)) for _ in range(n)))]
    for l in range(n):
        ops.append("ml.rect %s %d %s %s %s %s" % (s, l, f(-w), f(-h), f(w), f(h)))
        ops.append("ml.region %s %d %s %s %s" % (s, l, f(-0.93 * w), f(-0.93 * h), f(rng.uniform(0.5, 5))))
        if rng.random() < 0.3:
            op, x, y = shapes(rng, w * 0.5, h * 0.5, 1)[0]
            v, rest = op.split(" ", 1)
            ops.append("ml.%s %s %d %s" % (v, s, l, rest))
            ops.append("ml.region %s %d %s %s %s" % (s, l, f(x), f(y), f(rng.uniform(0.5, 5))))
    for l in range(n - 1):
        for k in range(rng.randint(1, 2)):
            x, y = f((0.75 - 0.2 * k) * w), f(rng.uniform(0.6, 0.8) * h)
            ops.append("ml.inter %s %d %s %s %d %s %s %s" % (s, l, x, y, l + 1, x, y, f(rng.uniform(0.1, 5))))
    info = dict(n=n, w=w, h=h, gen=(1 if rng.random() < 0.15 else 0, area_for(rng, "t" if size == "s" else size, 4 * w * h), rng.choice([0, 15, 20, 25])))
    return ops, info


def ml_gen(s, info):
    r, a, g = info["gen"]
    return "ml.gen %s %d %s %d" % (s, r, f(a), g)


def ml_volts(rng, s, info):
    w, h, n = info["w"], info["h"], info["n"]
    return ["ml.volt %s 0 %s %s %s" % (s, f(-w), f(-h), f(rng.uniform(0.5, 5))), "ml.volt %s %d %s %s 0" % (s, n - 1, f(w), f(-h))]


def ml_queries(rng, s, info, k):
    w, h = info["w"], info["h"]
    q = []
    for _ in range(k):
        l = rng.randrange(info["n"])
        t = rng.choice(["power", "csr", "area", "inner", "deps", "bary", "geomq", "polyq"])
        if t in ("power", "csr"):
            q.append("ml.%s %s" % (t, s))
        elif t == "deps":
            q.append("ml.deps %s %d" % (s, l))
        elif t in ("geomq", "polyq"):
            q.append("ml.%s %s %d %d" % (t, s, l, rng.randint(1, 99)))
        else:
            q.append("ml.%s %s %d %s %s" % (t, s, l, f(-0.93 * w), f(-0.93 * h)))
        r2 = Random(repr(rng.getstate()))
        if r2.random() < 0.08:
            q[-1] = "ml.bc %s %d %d" % (s, l, r2.randint(1, 99))
    return q


def ml_program(rng, s, size="s", queries=2, regen=False):
    ops, info = ml_build(rng, s, size)
    ops.append(ml_gen(s, info))
    if regen and rng.random() < 0.4:
        ops.append(ml_gen(s, info))
    ops += ml_volts(rng, s, info)
    ops += ["ml.solve %s" % s, "ml.power %s" % s]
    ops += ml_queries(rng, s, info, queries)
    ops.append("ml.state %s" % s)
    return ops


def alg_build(rng, s):
    m = rng.choice([3, 5, 8, 13, 21, 40, 60])
    r2 = Random(repr(rng.getstate()))
    if r2.random() < 0.04:
        m = r2.choice([65, 100, 150, 257])
    elif r2.random() < 0.06:
        m = r2.choice([0, 0, 1, 1, 2])
    size, m = m, max(m, 1)
    ops = ["alg.new %s %d" % (s, size), "alg.fill %s %d %d" % (s, rng.randint(m, 4 * m), rng.randint(1, 10 ** 6))]
    if rng.random() < 0.08:                                       # only some entries, holes in the diagonal
        ops.pop()
        for _ in range(rng.randint(0, m)):
            i = rng.randrange(m)
            ops.append("alg.set %s %d %d %s" % (s, i, rng.randrange(i, m), f(rng.uniform(-2, 2))))
    for _ in range(rng.randint(0, 3)):
        ops.append("alg.diri %s %d %s" % (s, rng.randrange(m), f(rng.uniform(-2, 2))))
    ops.append("alg.csr %s" % s)
    if rng.random() < 0.25:
        ops += expressions(rng, s)
    return ops, dict(m=m, size=size)


def expressions(rng, s):
    """sums of terms in the elements' reluctivities"""
    n = rng.randint(1, 4)
    o = ["alg.xnew %s %d" % (s, n)]
    for _ in range(rng.randint(3, 14)):
        i, j, c = rng.randrange(n), rng.randrange(n), f(rng.uniform(-2, 2))
        t = rng.choice(["xterm", "xterm", "xterm", "xsub", "xadd", "xdif", "xset", "xmul"])
        o.append("alg.%s %s %d %s %d" % (t, s, i, c, rng.randrange(6)) if t in ("xterm", "xsub") else "alg.%s %s %d %d %s" % (t, s, i, j, c))
    return o


def alg_queries(rng, s, info, n, write=False):
    q = []
    for _ in range(n):
        t = rng.choice(["mult", "mult", "vec", "ic", "ssor", "at", "solve", "solve", "solve", "copymat", "print"] + (["write"] if write else []))
        if t == "mult":
            q.append("alg.mult %s %d %d" % (s, rng.randint(0, 2), rng.randint(1, 999)))
        elif t == "vec":
            q.append("alg.vec %s %d" % (s, rng.randint(1, 999)))
        elif t in ("ic", "copymat", "print"):
            q.append("alg.%s %s" % (t, s))
        elif t == "ssor":
            q.append("alg.ssor %s %s %d" % (s, f(rng.uniform(0.5, 1.8)), rng.randint(1, 999)))
        elif t == "at":
            q.append("alg.at %s %d" % (s, rng.randint(1, 999)))
        elif t == "write":
            q.append("alg.write %s m%d.txt" % (s, rng.randint(0, 1)))
        else:
            q.append("alg.solve %s %d %s %d" % (s, rng.randint(0, 3), rng.choice(["1e-6", "1e-9", "1e-3"]), rng.choice([200, 200, 3, 1])))
    return q


def alg_program(rng, s, queries=6):
    ops, info = alg_build(rng, s)
    ops += alg_queries(rng, s, info, queries)
    if rng.random() < 0.3:
        ops += ["alg.set %s %d %d %s" % (s, rng.randrange(info["m"]), rng.randrange(info["m"]), f(rng.uniform(-0.1, 0.1)))]
        ops += ["alg.csr %s" % s]
        ops += alg_queries(rng, s, info, 2)
    if rng.random() < 0.15:
        ops += alg_copies(rng, s, info["m"])
    ops.append("alg.state %s" % s)
    return ops


def alg_copies(rng, s, m, n=8):
    """a second system, made, set, assigned to and dropped over and over"""
    t = s + "x"
    i, j = rng.randrange(m), rng.randrange(m)
    o = ["alg.copy %s %s" % (t, s)]
    for _ in range(n):
        q = rng.choice(["copy", "del", "del", "del", "assign", "assign", "back", "set", "set", "set", "sets", "csr", "state"])
        if rng.random() < 0.15:
            i, j = rng.randrange(m), rng.randrange(m)
        if q in ("copy", "assign"):
            o.append("alg.%s %s %s" % (q, t, s))
        elif q == "del":
            o += ["alg.del %s" % t, "alg.copy %s %s" % (t, s), "alg.set %s %d %d %s" % (t, i, j, f(rng.uniform(-0.1, 0.1)))]
        elif q == "back":
            o.append("alg.assign %s %s" % (s, t))
        elif q in ("set", "sets"):
            o.append("alg.set %s %d %d %s" % (t if q == "set" else s, i, j, f(rng.uniform(-0.1, 0.1))))
        else:
            o.append("alg.%s %s" % (q, rng.choice([s, t])))
    return o + ["alg.state %s" % t]


def points(rng, n, kind=None):
    kind = kind or rng.choice(["rand", "grid", "circle", "line", "dup", "far", "tiny", "near"])
    P = []
    for i in range(n):
        if kind == "rand":
            p = (rng.uniform(-5, 5), rng.uniform(-5, 5))
        elif kind == "grid":
            p = (rng.randint(-3, 3), rng.randint(-3, 3))
        elif kind == "circle":
            k = rng.choice([4, 8, 12])
            a = 2 * math.pi * rng.randrange(k) / k
            p = (2 * math.cos(a) + 1, 2 * math.sin(a) - 1)
        elif kind == "line":
            t = rng.choice([rng.uniform(-3, 3), rng.randint(-3, 3)])
            p = (t, 2 * t + 1) if n % 2 else (t, 0.5)
        elif kind == "dup":
            p = rng.choice([(0, 0), (1, 0), (0, 1), (2, 2), (-1, 3)])
        elif kind == "far":
            p = (1000 + rng.uniform(-1, 1), -2000 + rng.uniform(-1, 1))
        elif kind == "tiny":
            p = (rng.uniform(-1, 1) * 1e-3, rng.uniform(-1, 1) * 1e-3)
        else:
            p = (rng.uniform(-1, 1), rng.uniform(-1, 1) * 1e-4)
        P.append(p)
    return P


def ptext(P):
    return "%d %s" % (len(P), " ".join("%.9g %.9g" % p for p in P))


def geo_program(rng, n=4):
    ops = []
    for _ in range(n):
        t = rng.choice(["mec", "mecset", "enc", "polys", "misc", "mu"])
        if t == "misc":
            ops.append("geo.misc %d %d %d" % (rng.randint(1, 10 ** 6), rng.randint(4, 20), rng.randint(0, 1)))
        elif t == "mu":
            ops.append("geo.mu %d %d" % (rng.randint(1, 10 ** 6), rng.choice([0, 2, 3, 4, 5, 9, 20])))
        elif t == "polys":
            k = rng.randint(3, 9)
            P = [(2 * math.cos(2 * math.pi * i / k) * rng.uniform(0.5, 1.5), 2 * math.sin(2 * math.pi * i / k) * rng.uniform(0.5, 1.5)) for i in range(k)]
            ops.append("geo.polys %s %s %d %d" % (ptext(P), f(rng.uniform(-3, 3)), 12, rng.randint(1, 10 ** 6)))
        else:
            ops.append("geo.%s %s" % (t, ptext(points(rng, rng.randint(2, 12), "rand"))))
    return ops


def shp_build(rng, s):
    return ["shp.new %s %d %d" % (s, rng.randint(1, 10 ** 6), rng.choice([2, 3, 3, 4, 5, 9, 20]))]


def shp_queries(rng, s, n):
    return ["shp.q %s %d %d" % (s, rng.randint(1, 10 ** 6), rng.choice([2, 8, 30])) for _ in range(n)]


def shp_program(rng, s, n=4):
    o = shp_build(rng, s)
    for _ in range(n):
        if rng.random() < 0.3:
            o.append("shp.shift %s %s %s %s" % (s, f(rng.uniform(-3, 3)), f(rng.uniform(-3, 3)), f(rng.choice([0, 0.3, -2]))))
        else:
            o += shp_queries(rng, s, 1)
    return o + ["shp.state %s" % s]


def with_write(p, s):
    """the same algebra program with a matrix file written on the way"""
    r2 = Random("".join(p))
    if p[0].startswith("alg.") and r2.random() < 0.4:
        at = r2.randint(max([i for i, o in enumerate(p) if ".csr" in o][:1] or [0]) + 1, len(p))
        return p[:at] + ["alg.write %s w.txt" % s] + p[at:]
    return p


def rejects(rng, s):
    """calls the library refuses; each leaves an exception behind"""
    o = ["mag.new %s" % s, "mag.rect %s -1 -1 1 1" % s]
    k = rng.randint(0, 6)
    if k == 0:
        o.append("mag.area %s 100 100" % s)                       # no polygon there
    elif k == 1:
        o.append("mag.rect %s 0.5 0.5 3 0.7" % s)                 # crosses the first rectangle
    elif k == 2:
        o = ["ml.new %s 3 1 2" % s]                               # depths do not match
    elif k == 3:
        o += ["mag.region %s 0 0 0 0 0 0" % s, "mag.gen %s 0 -1 20 0" % s]
    elif k == 4:
        o.append("mag.gen %s 0 0.3 20 0" % s)                     # no regions
    elif k == 5:
        o = ["cd.new %s 1" % s, "cd.rect %s -1 -1 1 1" % s, "cd.gen %s 0 0.3 20" % s]
    else:
        o = ["cd.new %s 1" % s, "cd.gen %s 0 0.1 20" % s]         # nothing drawn
    return o


def refused(rng, p, s):
    """a call the library refuses (or has nothing to do for), fit for program p"""
    k = p[0].split(".")[0]
    far = f(rng.choice([1e4, 1e7, -3e5]))
    o = []
    if k == "mag":
        o = ["mag.area %s %s %s" % (s, far, far), "mag.force %s %s %s" % (s, far, far), "mag.torque %s %s %s 0 0" % (s, far, far), "mag.gen %s 0 -1 20 0" % s, "mag.gen %s %d 0 20 %d" % (s, rng.randint(0, 1), rng.randint(0, 1)), "mag.rect %s -50 -0.01 50 0.01" % s,
             "mag.dplot %s 0 0 p.png" % s, "mag.nplot %s 40 40 n.xyz 0" % s, "mag.eplot %s 0 -4 e.png 2" % s]
    elif k == "cd":
        o = ["cd.rect %s -50 -0.01 50 0.01" % s, "cd.gen %s 0 -1 20" % s, "cd.gen %s %d 0 20" % (s, rng.randint(0, 1)), "cd.dplot %s 0 0 p.png" % s, "cd.nplot %s 40 40 n.xyz 0" % s, "cd.volt %s %s %s 1" % (s, far, far)]
    elif k == "ml":
        o = ["ml.new %sx 3 1 2" % s, "ml.rect %s 0 -50 -0.01 50 0.01" % s, "ml.gen %s %d 0 20" % (s, rng.randint(0, 1)), "ml.gen %s 0 -1 20" % s, "ml.volt %s 0 %s %s 1" % (s, far, far)]
    elif k == "alg":
        o = ["alg.plot %s q.xyz" % s, "alg.write %s no/where/d.txt" % s]
    return rng.choice(o) if o else None


def refusable(rng, p, s):
    """(where, call): a call that may well be refused at that place of p"""
    k = p[0].split(".")[0]
    at = rng.randint(1, len(p))
    if k in ("mag", "cd", "ml") and rng.random() < 0.25:         # too early: a later call of the program
        later = [i for i, o in enumerate(p) if re.match(r"\w+\.(area|mass|bary|inertia|inner|poly|force|torque|stress|pprop|volt)\b", o)]
        if later:
            i = rng.choice(later)
            return rng.randint(1, i), p[i]
    if k in ("mag", "cd", "ml") and rng.random() < 0.55:         # shapes across what is there
        L = " %s" % (p[0].split(" ")[2] and 0) if k == "ml" else ""
        q = [o for o in p[:at] if re.match(r"%s\.(rect|circle)" % k, o)]
        if q:
            w = rng.choice(q).split(" ")
            v = w[0].split(".")[1]
            n = [float(x) for x in w[3 if k == "ml" else 2:]]
            L = " " + w[2] if k == "ml" else ""
            if v == "rect":
                a, b, c, d = n[:4]
                cx, cy, r = rng.choice([(c, (b + d) / 2), ((a + c) / 2, d), (a, b), (c, d), (a, (b + d) / 2)]) + (rng.uniform(0.05, 0.6) * min(abs(c - a), abs(d - b)),)
            else:
                cx, cy, r = n[0] + n[2], n[1], n[2] * rng.uniform(0.3, 1.5)
            j = lambda: rng.uniform(-0.1, 0.1) * r
            u = rng.random()
            if u < 0.5:
                o = "circle %s%s %s %s %s %d" % (s, L, f(cx + j()), f(cy + j()), f(r), rng.choice([5, 8, 13, 20]))
            elif u < 0.75:
                o = "rect %s%s %s %s %s %s" % (s, L, f(cx - r + j()), f(cy - r + j()), f(cx + r + j()), f(cy + r + j()))
            else:
                P = [(cx + r * math.cos(t) + j(), cy + r * math.sin(t) + j()) for t in sorted(rng.uniform(0, 6.28) for _ in range(rng.choice([3, 4, 6])))]
                o = "%s %s%s %d %s" % (rng.choice(["poly", "polyobj", "polyptr"]), s, L, len(P), " ".join("%s %s" % (f(x), f(y)) for x, y in P))
            return at, "%s.%s" % (k, o)
    if k in ("ml", "cd") and rng.random() < 0.25 and any(".gen " in x for x in p):
        return rng.choice([i for i, x in enumerate(p) if ".gen " in x]), "%s.gen %s %d 0 20" % (k, s, rng.randint(0, 1))
    if k == "ml" and rng.random() < 0.5:
        far = f(rng.choice([1e4, -1e6]))
        return at, rng.choice(["ml.area %s 0 %s %s" % (s, far, far), "ml.mass %s 0 %s %s 2" % (s, far, far), "ml.inner %s 0 %s %s" % (s, far, far), "ml.pprop %s 0 %d" % (s, rng.randint(0, 5)), "ml.poly %s 0 0" % s])
    if k in ("mag", "cd") and rng.random() < 0.5:
        far = f(rng.choice([1e4, -1e6, 1e9]))
        return at, rng.choice(["%s.area %s %s %s" % (k, s, far, far), "%s.mass %s %s %s 2" % (k, s, far, far), "%s.bary %s %s %s" % (k, s, far, far), "%s.inner %s %s %s" % (k, s, far, far), "%s.pprop %s %d" % (k, s, rng.randint(0, 5)), "%s.poly %s 0" % (k, s), "%s.inertia %s %s %s 0 0 1" % (k, s, far, far)])
    if k == "alg" and rng.random() < 0.7:
        return at, "alg.set %s %d 0 0.5" % (s, rng.randint(1, 3))
    o = refused(rng, p, s)
    if o and ".gen " in o:
        g = [i for i, x in enumerate(p) if ".gen " in x]
        if not g:
            return at, None
        at = rng.choice(g)
    return at, o


def with_refused(rng, p, s, n=3):
    p = list(p)
    for _ in range(rng.randint(1, n)):
        o = refused(rng, p, s)
        if o:
            p.insert(rng.randint(1, len(p)), o)
    return p


def mesh_only(rng, s):
    """models with loose and repeated points, meshed but not solved"""
    if rng.random() < 0.5:
        ops, info = mag_build(rng, s, "t", False, rng.random() < 0.3)
        g, k = mag_gen(s, info), "mag"
        cx, cy, w, h = info.get("rect", (0, 0, 1, 1))
    else:
        ops, info = cd_build(rng, s, "t")
        g, k = cd_gen(s, info), "cd"
        cx, cy, w, h = 0, 0, info["w"], info["h"]
    for _ in range(rng.randint(1, 6)):
        if rng.random() < 0.5:
            x, y = rng.choice([-1, 1]) * w + cx, rng.choice([-1, 1]) * h + cy
        else:
            x, y = cx + rng.choice([-0.9, 0, 0.5, 0.9]) * w, cy + rng.choice([-0.9, 0, 0.5, 0.9]) * h
        ops.insert(rng.randint(1, len(ops)), "%s.point %s %s %s" % (k, s, f(x), f(y)))
    if rng.random() < 0.1:
        ops = [o for o in ops if ".region " not in o]             # nothing tells what the triangles are made of
    return ops + [g, "%s.csr %s" % (k, s), "%s.state %s" % (k, s)]


def draw_only(rng, s, k=None):
    """drawings on a coarse lattice: shared corners, repeated points, calls that get refused"""
    k = k or rng.choice(["mag", "mag", "cd", "ml"])
    sl = "%s 0" % s if k == "ml" else s
    new = {"mag": "mag.new %s" % s, "cd": "cd.new %s 1" % s, "ml": "ml.new %s 2 1 0.5" % s}[k]
    reg = {"mag": "0 0 0 %d", "cd": "%d", "ml": "%d"}[k]
    ops = [new]
    m = rng.choice([1, 2, 2, 3])
    L = lambda: rng.randint(-m, m)
    if rng.random() < 0.3:                                 # a point drawn more than once, and shapes that start there
        x, y = L(), L()
        for _ in range(rng.randint(1, 4)):
            ops.append("%s.point %s %d %d" % (k, sl, x, y) if rng.random() < 0.7 else "%s.point %s %d %d" % (k, sl, L(), L()))
        ops.append("%s.rectwh %s %d %d %d %d" % (k, sl, x, y, rng.randint(1, 2), rng.randint(1, 2)) if rng.random() < 0.5 else "%s.poly %s 3 %d %d %d %d %d %d" % (k, sl, x, y, x + 1, y, x, y + rng.randint(1, 2)))
    for _ in range(rng.randint(2, 12)):
        if k == "ml":
            sl = "%s %d" % (s, rng.randint(0, 1))
        t = rng.choice(["rect", "rect", "rectwh", "point", "point", "poly", "poly", "polyobj", "polyptr", "circle", "region", "translate", "refine", "inner", "pprop"])
        if t == "rect":
            x, y = L(), L()
            ops.append("%s.rect %s %d %d %d %d" % (k, sl, x, y, x + rng.randint(1, 2), y + rng.randint(1, 2)))
        elif t == "rectwh":
            ops.append("%s.rectwh %s %d %d %d %d" % (k, sl, L(), L(), rng.randint(1, 2), rng.randint(1, 2)))
        elif t == "point":
            ops.append("%s.point %s %s %s" % (k, sl, f(L() + rng.choice([0, 0, 0, 1e-9, 0.5])), L()))
        elif t in ("poly", "polyobj", "polyptr"):
            n = rng.randint(3, 5)
            ops.append("%s.%s %s %d %s" % (k, t, sl, n, " ".join("%d %d" % (L(), L()) for _ in range(n))))
        elif t == "circle":
            ops.append("%s.circle %s %d %d %d %d" % (k, sl, L(), L(), rng.randint(1, 2), rng.choice([3, 4, 8])))
        elif t == "region":
            ops.append("%s.region %s %d %d %s" % (k, sl, L(), L(), reg % rng.randint(1, 3)))
        elif t == "translate":
            ops.append("%s.translate %s %d %d" % (k, sl, L(), L()))
        elif t == "refine":
            ops.append("%s.refine %s" % (k, sl))
        elif t == "inner":
            ops.append("%s.inner %s %s %s" % (k, sl, f(L() + 0.3), f(L() + 0.4)))
        else:
            ops.append("%s.pprop %s %d" % (k, sl, rng.randint(0, 9)))
    return ops + ["%s.state %s" % (k, s)]


def saturated(rng, s):
    """a small non-linear model driven through the whole range of its curve"""
    M = rng.choice([1e5, 5e5, 1e6, 2e6]) * rng.uniform(0.5, 1.5)
    ops = ["mag.new %s" % s, "mag.rect %s -1 -1 1 1" % s, "mag.rect %s -0.5 -0.5 0 0.5" % s, "mag.rect %s 0.2 -0.5 0.7 0.5" % s,
           "mag.region %s -0.25 0 0 0 %s 0" % (s, f(M)), "mag.region %s 0.45 0 0 0 0 4" % s, "mag.region %s 0.95 0.95 0 0 0 0" % s,
           "mag.gen %s 0 %s 0 0" % (s, f(rng.uniform(0.5, 1.5))), "mag.solve %s" % s, "mag.curl %s" % s, "mag.force %s 0.45 0" % s, "mag.state %s" % s]
    return ops


def vecs(rng, k, s):
    n = rng.randint(1, 4)
    return "%s.%s %s %d" % (k, rng.choice(["vecs", "vecs", "sysvecs"]) if k not in ("ml", "shp") else "vecs", s, n if rng.random() < 0.93 else rng.randint(5, 20))


def little(rng, s):
    """a program of few steps"""
    t = rng.random()
    if t < 0.3:
        return alg_program(rng, s, queries=2)
    if t < 0.45:
        return geo_program(rng, 2)
    if t < 0.6:
        return shp_program(rng, s, 2)
    if t < 0.75:
        return draw_only(rng, s)
    if t < 0.85:
        return rejects(rng, s)
    if t < 0.93:
        return mesh_only(rng, s)
    return program(rng, s, size="n", queries=1)


def plots(rng, k, s, tag=""):
    """one picture or matrix file"""
    size = "%d %d" % (rng.choice([40, 64, 90]), rng.choice([40, 64]))
    n = lambda b: "%s%s%s" % (b, tag, rng.choice([".png", ".png", ".bmp", ".jpg"]))
    if k == "alg":
        return rng.choice(["alg.write %s d%s.txt" % (s, tag), "alg.write %s d%s.txt" % (s, tag), "alg.plot %s %s" % (s, n("q"))])
    v = rng.choice(["dplot", "nplot", "nplot", "eplot", "eplot"])
    o = "%s.%s %s %s %s" % (k, v, s, size, n({"dplot": "p", "nplot": "n", "eplot": "e"}[v]))
    return o if v == "dplot" else o + " %d" % rng.randint(0, 7)


def with_plots(rng, p, s, tag=""):
    """the same program with files written near its end"""
    k = p[0].split(".")[0]
    if k not in ("mag", "cd", "alg") or len(p) < 4 or (k != "alg" and not any(".solve " in o for o in p)):
        return p
    at = len(p) - 1 if k == "alg" else rng.randint(max(i for i, o in enumerate(p) if ".solve " in o) + 1, len(p))
    return p[:at] + [plots(rng, k, s, tag) for _ in range(rng.randint(1, 2))] + p[at:]


def retag(ops, tag):
    """files of its own"""
    return [re.sub(r" ([pnedqm])\d?\.(png|bmp|jpg|txt)\b", r" \g<1>%s.\2" % tag, o) for o in ops]


def rename(ops, frm, to):
    return [" ".join(to if x == frm else to + "x" if x == frm + "x" else x for x in o.split(" ")) for o in ops]


def mutate(rng, ops, frm, to):
    """the same program on another slot with some numbers changed"""
    out = []
    for o in ops:
        w = [to if x == frm else to + "x" if x == frm + "x" else x for x in o.split(" ")]
        v = w[0].split(".")[1]
        if rng.random() < 0.5:
            try:
                if v == "region":
                    i = len(w) - 1 if w[0][:2] != "ma" else rng.choice([4, 5, 6])
                    if w[0][:2] == "ma" and w[7] in "456" and rng.random() < 0.5:
                        w[7] = rng.choice("456")
                    else:
                        w[i] = f(float(w[i]) * rng.choice([2, 0.5, 1.5]) + (1 if w[0][:2] == "ma" and i == 4 else 0))
                elif v == "volt":
                    w[-1] = f(float(w[-1]) * rng.choice([2, -1, 0.5]) + 0.25)
                elif v == "fill":
                    w[3] = str(int(w[3]) + 1)
                elif v == "gen" and rng.random() < 0.3:
                    k = 3
                    w[k] = f(float(w[k]) * rng.choice([0.7, 1.4]))
                elif w[0] in ("shp.new", "shp.q"):
                    w[2] = str(rng.randint(1, 10 ** 6))
                elif w[0] in ("geo.mu", "geo.misc"):
                    w[1] = str(rng.randint(1, 10 ** 6))
                elif v in ("mult", "ssor", "vec"):
                    w[-1] = str(int(w[-1]) + 1)
            except ValueError:
                pass
        out.append(" ".join(w))
    return out


def churn(rng, ops, frm, to):
    """the same work with every non linear material exchanged, destroyed at the end"""
    out = []
    for o in mutate(rng, ops, frm, to):
        w = o.split(" ")
        if w[0] == "mag.region" and w[7] in "456":
            w[7] = rng.choice("456".replace(w[7], ""))
        elif w[0] in ("shp.new", "geo.mu"):
            w[-2] = str(rng.randint(1, 10 ** 6))
        out.append(" ".join(w))
    if out[0][:4] != "geo." and rng.random() < 0.85:
        out.append("%s.del %s" % (out[0].split(".")[0], to))
    return out


KINDS = ["mag", "mag", "mag", "mag", "cd", "cd", "cd", "ml", "alg", "geo", "shp"]


def program(rng, s, kinds=None, size="s", regen=False, queries=None):
    k = rng.choice(kinds or KINDS)
    q = queries
    if k == "mag":
        return mag_program(rng, s, size, queries=4 if q is None else q, regen=regen)
    if k == "cd":
        return cd_program(rng, s, size, queries=3 if q is None else q, regen=regen)
    if k == "ml":
        return ml_program(rng, s, size, queries=2 if q is None else q, regen=regen)
    if k == "alg":
        return alg_program(rng, s, queries=6 if q is None else q)
    if k == "shp":
        return shp_program(rng, s)
    return geo_program(rng)
