#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: "
sim = "Seeded search: no exhaustive claim. Assumes sequentially consistent interleavings at instrumented basic blocks and memory accesses of the library (no weak-memory effects), clang 18 -O1 code instead of the shipped -O3 build. "
py = "Seeded search: no exhaustive claim. The extension is the real python/nikfemm.cpp and library with instrumented allocation; the interpreter is the system's CPython 3.12, single-threaded. "
C = [
 ("C01", "seeded thread schedules over independent models, each thread compared bit for bit with itself alone", sim + "Every program's reference is the same program run alone in the same simulator."),
 ("C02", "seeded thread schedules and orders of solve/evaluate calls on one shared model, each compared bit for bit with the call alone", sim),
 ("C03", "seeded process environments (heap layout and contents, stack contents, clock, C random state, locale, console, errno) against the default one", sim + "Values are compared bit for bit through digests of everything observable."),
 ("C04", "seeded histories (finished, rejected, failed, interleaved calls) around a subject model, compared with the subject in a fresh process", sim),
 ("C05", "seeded allocation failures (single, burst, size, budget) in every call, judged against the fault-free run", sim + "Allocations are those of the library and of the C++ runtime on its behalf."),
 ("C06", "seeded allocation failures followed by repetition of the failed call, compared with the run in which nothing failed", sim),
 ("C07", "seeded call histories with copies, re-generation and failures over a simulated heap with bounds, lifetime and ownership ledger", sim + "Bounds and lifetime are checked for every instrumented load, store and memory-block function on heap blocks; stack and globals are not checked."),
 ("C08", "seeded disk faults (open, short and failing writes, full disk, flush, close, rename) on a simulated disk, files compared with the fault-free run", sim + "Pictures go through the system's OpenCV encoders (single-threaded) onto the simulated disk."),
 ("C09", "seeded and adversarial random-draw sequences, compared with an exhaustive reference circle", sim + "Tolerance is relative to the size and spread of the set; sets up to some dozens of points."),
 ("C10", "seeded call sequences with wrong arguments, rejected geometry and allocation failures in C++ and Python allocators", py + "Values are compared with the fault-free run of the same sequence."),
 ("C11", "seeded call sequences, with failures, repeated in one interpreter; allocator ledgers of both languages and object counts must stop growing", py),
 ("C12", "seeded interleavings of calls on original and copy, threads and failing copies, each compared with the object that was never copied", sim),
 ("C13", "seeded process settings (rounding mode, locales, streams, handlers, signal mask, limits) watched around every call under allocation, disk and console faults and other threads", sim + "Settings are those a process or thread can read back; call-scoped changes undone before the call ends are not seen."),
 ("C14", "seeded refused calls, with allocation failures inside them, spliced into programs and compared with the program without them", sim),
]
NA = [
 ("C50", "a pure function of the input: no schedule, clock, I/O, failure or other party takes part, so a simulator has nothing to decide; convergence needs analytic oracles over inputs"),
 ("C51", "a pure function of the input; agreement with dense arithmetic is an input property for property-based testing or proof (its concurrency, failure and memory sides are decided by C01, C02, C05-C07)"),
 ("C52", "a pure function of the input; nothing nondeterministic takes part"),
 ("C53", "a pure function of the drawing and settings; the mesher takes no nondeterministic input once C03 and C04 hold"),
 ("C54", "pure geometric functions of their arguments; metamorphic or symbolic testing over inputs is the fitting technique"),
 ("C55", "a pure function of the drawing and solution; numerical accuracy over inputs, nothing to schedule or fail"),
 ("C56", "conversion of values is a pure function of the arguments; the failure and lifetime sides are decided by C10 and C11"),
]
m = dict(version=1, setup_cmd="python3 driver/build.py",
         checks=[dict(property=p, quick_cmd="python3 driver/check.py %s" % p, thorough_cmd="python3 driver/check.py %s --tier thorough" % p,
                      evidence_file="evidence/%s.json" % p, technique=T + t, level="exploration", level_note=n) for p, t, n in C],
         not_applicable=[dict(property=p, reason=r) for p, r in NA],
         notes="No hooks in /repo: every seam is a libc, C++ runtime, compiler-instrumentation or CPython allocator interface. known_findings.txt lists repaired defects and would list open ones. Replay a violation with: python3 driver/check.py --replay FILE")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
