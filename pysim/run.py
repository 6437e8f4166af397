"""Runs Python-module cases, each in a forked copy of one interpreter.  stdin: one JSON case per line; stdout: one JSON result per line."""
import sys, os, gc, json, hashlib, importlib.machinery, importlib.util, resource, select, signal, time

SO = sys.argv[1]


def load(name):
    l = importlib.machinery.ExtensionFileLoader(name, SO)
    s = importlib.util.spec_from_file_location(name, SO, loader=l)
    m = importlib.util.module_from_spec(s)
    l.exec_module(m)
    return m


simctl = load("simctl")
simctl.install()
nikfemm = load("nikfemm")
CLS = nikfemm.MultiLayerCurrentDensitySimulation


class SubSim(CLS):
    pass


class SubSystem(nikfemm.System):
    pass


class SubFloat(float):
    def __float__(self):
        raise ZeroDivisionError("conversion")


class SubInt(int):
    def __float__(self):
        raise ZeroDivisionError("conversion")

    def __index__(self):
        raise ZeroDivisionError("conversion")


class Num(float):                                          # what other packages' numbers and lists are
    pass


class Whole(int):
    pass


class Row(list):
    pass


class BadIndex:
    def __index__(self):
        raise ZeroDivisionError("index")


class BadFloat:
    def __float__(self):
        raise ZeroDivisionError("float")


class Missing(Exception):
    pass


def build(x, slots):
    if type(x) is list:
        return [build(y, slots) for y in x]
    if type(x) is dict:
        k, v = x["$"], x.get("v")
        if k == "obj":
            if v not in slots:
                raise Missing(v)
            return slots[v]
        if k == "f":
            return float(v)
        if k == "int":
            return int(v)
        if k == "empty":
            return nikfemm.System()
        if k == "subsys":
            return SubSystem()
        if k == "tuple":
            return tuple(build(y, slots) for y in v)
        if k == "num":
            return Num(v)
        if k == "whole":
            return Whole(v)
        if k == "row":
            return Row(build(y, slots) for y in v)
        if k == "dict":
            return {0: 0.0, 1: 1.0}
        if k == "bytes":
            return b"ab"
        if k == "badindex":
            return BadIndex()
        if k == "badfloat":
            return BadFloat()
        if k == "subfloat":
            return SubFloat(v)
        if k == "subint":
            return SubInt(v)
        if k == "cls":
            return CLS
        if k == "self":
            l = []
            l.append(l)
            return l
        if k == "bigstr":
            return "x" * 100
        raise ValueError(k)
    return x


def digest(r):
    h = hashlib.blake2b(digest_size=8)

    def walk(x):
        t = type(x)
        if t is list or t is tuple:
            h.update(b"%d%c" % (len(x), 91 if t is list else 40))
            for y in x:
                walk(y)
        elif t is float:
            h.update(x.hex().encode())
        elif t is int or x is None or t is bool:
            h.update(b"i%s" % str(x).encode())
        else:
            h.update(t.__name__.encode())
    walk(r)
    return h.hexdigest()


def out(fd, row):
    os.write(fd, (json.dumps(row) + "\n").encode())


def one_pass(case, fd, p):
    slots = {}
    faults = case.get("faults", {})
    for i, op in enumerate(case["ops"]):
        plans = faults.get(str(i), [])
        att = 0
        while True:
            m = op["m"]
            if m == "drop":
                slots.pop(op["o"], None)
                gc.collect()
                out(fd, [p, i, att, "ok", "drop", 0, 0, 0, 0])
                break
            try:
                args = tuple(build(x, slots) for x in op["a"])
                if m == "new":
                    f = SubSim if op.get("sub") else CLS
                elif m == "system":
                    f = nikfemm.System
                elif op.get("u"):
                    f = getattr(CLS, m)
                else:
                    if op["o"] not in slots:
                        raise Missing(op["o"])
                    f = getattr(slots[op["o"]], m)
            except Missing as e:
                out(fd, [p, i, att, "missing", str(e), 0, 0, 0, 0])
                break
            plan = tuple(tuple(x) for x in plans[att]) if att < len(plans) else ()
            ok, r, nc, np, fc, fp = simctl.call(f, args, plan)
            if ok:
                d = digest(r)
                if op.get("r"):
                    slots[op["r"]] = r[0] if m == "generate_system" else r
                out(fd, [p, i, att, "ok", d, nc, np, fc, fp])
            else:
                out(fd, [p, i, att, "exc", "%s: %s" % r, nc, np, fc, fp])
            del args, f
            f = r = None
            b = simctl.check()
            if b:
                out(fd, [p, i, att, "heap", b, 0, 0, 0, 0])
            if ok or not (fc or fp) or att >= 7:
                break
            att += 1
    order = list(slots)
    if case.get("droporder"):
        order.reverse()
    for k in order:
        del slots[k]


def child(case, fd):
    dn = os.open("/dev/null", os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    if case.get("console"):
        os.close(1)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.setitimer(signal.ITIMER_PROF, case.get("alarm", 60))   # processor time
    gc.disable()
    before, low = None, [1 << 40] * 3
    n = case.get("passes", 1)
    for p in range(n):
        one_pass(case, fd, p)
        gc.collect()
        gc.collect()
        a = simctl.live()
        b = simctl.check()
        if b:
            out(fd, [p, -1, 0, "heap", b, 0, 0, 0, 0])
        if p >= n - 3 and before:
            for k in range(3):
                low[k] = min(low[k], a[k] - before[k])
        before = a
        del a, b
    # the interpreter fills its caches in the first passes and moves by single blocks later; what a program leaves behind shows in every pass
    if n >= 4:
        out(fd, [n, -1, 0, "live", ""] + [max(0, x) for x in low] + [0])
    out(fd, ["end"])
    os._exit(0)


def main():
    # the server touches as little of the interpreter as it can; a child starts by emptying the interpreter's free lists
    pend = b""
    while True:
        while b"\n" not in pend:
            d = os.read(0, 1 << 20)
            if not d:
                return
            pend += d
        line, _, pend = pend.partition(b"\n")
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                case = json.loads(line)
                del line, pend
                gc.collect()
                gc.collect()
                child(case, w)
            except BaseException as e:
                try:
                    out(w, ["machinery", repr(e)])
                finally:
                    os._exit(77)
        os.close(w)
        buf = []
        while True:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf.append(d)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        msg = json.dumps({"status": st, "text": b"".join(buf).decode()}).encode() + b"\n"
        while msg:
            msg = msg[os.write(1, msg):]


main()
