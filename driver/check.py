#!/usr/bin/env python3
"""check.py <property> [--replay FILE] [--n N] [--time S] [--seed S] [--tier quick|thorough]"""
import argparse, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from core import *


def get_prop(pid):
    if pid in ("C10", "C11"):
        import pyprops
        return pyprops.PROPS[pid]()
    import props
    return props.PROPS[pid]()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--n", type=int)
    ap.add_argument("--time", type=float)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 8))
    a = ap.parse_args()
    if a.replay:
        return replay(a)
    prop = get_prop(a.property)
    m = prop.explore(a) if hasattr(prop, "explore") else explore(prop, a.seed, a.tier, a.workers, a.n, a.time)
    if m["errors"]:
        for e in m["errors"]:
            print("ERROR " + e, file=sys.stderr)
        print("check %s: machinery error" % prop.id)
        return 2
    evidence(prop, m, a.seed, a.tier)
    for what, n in sorted(m["known"].items()):
        print("KNOWN-FINDING: property=%s %s (seen %d times)" % (prop.id, what, n))
    if m["unrepeatable"]:
        print("note: %d run(s) did not repeat exactly and were not counted" % len(m["unrepeatable"]), file=sys.stderr)
        p = os.path.join(B.OUT, "unrepeatable_%s.txt" % prop.id)
        with open(p, "w") as f:
            f.write("\n=====\n".join(m["unrepeatable"][:20]))
    s = m["stats"] or {}
    print("%s %s: %d scenarios, %d judged runs, %d simulated runs, %d steps, faults %s, %d interleavings, %.0fs" % (
        prop.id, a.tier, m["scenarios"], m["evals"], s.get("runs", 0), s.get("steps", 0), s.get("fired"), len(m["inter"]), m["wall"]))
    for k, v in sorted(m["notes"].items()):
        print("  %s: %d" % (k, v))
    if not m["violations"]:
        return 0
    d = os.path.join(B.VERIF, "build", "replays")
    os.makedirs(d, exist_ok=True)
    for v in m["violations"][:1]:
        p = os.path.join(d, "%s-%d-%d.case" % (prop.id, a.seed, v["scenario"]))
        with open(p, "w") as f:
            f.write(v["case"])
        print("  %s" % v["verdict"])
        for w in v["where"]:
            print("    " + w)
        print("  seed %d scenario %d, minimised in %d runs, replay hash %s (fresh process %s)" % (a.seed, v["scenario"], v["tried"], v["hash"], v["fresh_hash"]))
        print("VIOLATION property=%s replay=%s" % (prop.id, p), flush=True)
    return 1


def replay(a):
    text = open(a.replay).read()
    m = re.match(r"# property (\S+)", text)
    case = None if m and m.group(1) in ("C10", "C11") else parse_case(text)
    pid = a.property or (m.group(1) if case is None else case.meta.get("property"))
    prop = get_prop(pid)
    if hasattr(prop, "replay"):
        return prop.replay(a, case, text)
    exes = {e: B.build(e) for e in prop.exes}
    pool = Pool(exes, B.locale_dir(), 120000)
    ctx = Ctx(pool, 0, "quick")
    try:
        v, r = prop.judge(ctx, case)
    except SkipCase as e:
        print("nothing to judge: %s" % e)
        return 0
    print(r.text)
    if v:
        print(v)
        for w in symbolise(exes[case.exe], str(v)):
            print("  " + w)
        print("execution hash %s" % r.hash)
        print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(a.replay)))
        return 1
    print("property %s holds on this run (hash %s)" % (pid, r.hash))
    return 0


if __name__ == "__main__":
    sys.exit(main())
