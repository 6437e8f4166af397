"""Builds the simulator executables from /repo's current working tree (cached by content)."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NIKSIM_REPO", "/repo")
LIB = os.path.join(REPO, "lib/nikfemm")
OUT = os.path.join(VERIF, "build")
CXX = "clang++"
BASE = ["-std=c++20", "-O1", "-g1", "-mavx", "-fno-omit-frame-pointer", "-mno-omit-leaf-frame-pointer", "-fno-strict-aliasing", "-w", "-pthread",
        "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove"]
# every basic block and every memory access, including vector loads and copies of structures, calls back into sim/rt.cpp
COV = ["-fsanitize-coverage=trace-pc-guard", "-fsanitize=kernel-address", "-U__SANITIZE_ADDRESS__"] + [x for o in (
    "asan-instrumentation-with-call-threshold=0", "asan-stack=0", "asan-globals=0", "asan-kernel-mem-intrinsic-prefix=1",
    "asan-opt-same-temp=0", "asan-opt-globals=0", "asan-use-after-scope=0") for x in ("-mllvm", "-" + o)]
WRAPS = ["memcpy", "memmove", "memset", "exit", "_exit", "_Exit", "quick_exit", "_ZNSt13random_device9_M_getvalEv"]

# the picture codecs: third-party C code whose own handling of failing allocations is not judged
CODECS = ["_ZN2cv8imencodeERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_11_InputArrayERSt6vectorIhSaIhEERKSB_IiSaIiEE",
          "_ZN2cv7imwriteERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_11_InputArrayERKSt6vectorIiSaIiEE"]


class BuildError(Exception):
    pass


def opencv_flags():
    try:
        c = subprocess.run(["pkg-config", "--cflags", "opencv4"], capture_output=True, text=True, check=True).stdout.split()
    except Exception:
        c = ["-I/usr/include/opencv4"]
    return c, ["-lopencv_imgcodecs", "-lopencv_imgproc", "-lopencv_core"]


def sources():
    return sorted(glob.glob(os.path.join(LIB, "src/**/*.cpp"), recursive=True) + glob.glob(os.path.join(LIB, "src/**/*.c"), recursive=True))


def digest(extra):
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(LIB, "src"), os.path.join(LIB, "include"), os.path.join(REPO, "python")):
        for d, dn, fs in os.walk(root):
            dn[:] = [x for x in dn if x not in ("build", "__pycache__", ".cache")]
            files += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".hpp", ".h", ".c", ".hh", ".cc", ".inl", ".ipp", ".tpp"))]
    for d in ("sim", "pysim"):
        p = os.path.join(VERIF, d)
        if os.path.isdir(p):
            files += [os.path.join(p, f) for f in os.listdir(p) if f.endswith((".cpp", ".h", ".c"))]
    files.append(os.path.abspath(__file__))
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s failed\n%s\n%s" % (what, " ".join(cmd), r.stdout[-4000:]))


def prune(keep):
    """Old build trees go; the disk is small."""
    try:
        ds = [os.path.join(OUT, d) for d in os.listdir(OUT) if os.path.isdir(os.path.join(OUT, d)) and d not in keep and d not in ("locale", "replays")]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-3]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def locale_dir():
    """A decimal-comma locale, compiled here because the sandbox ships none."""
    d = os.path.join(OUT, "locale")
    if os.path.isdir(os.path.join(d, "de_DE.UTF-8")) or os.path.isdir(os.path.join(d, "de_DE.utf8")):
        return d
    os.makedirs(d, exist_ok=True)
    try:
        subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8", os.path.join(d, "de_DE.UTF-8")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    except Exception:
        pass
    return d if os.path.isdir(os.path.join(d, "de_DE.UTF-8")) or os.path.isdir(os.path.join(d, "de_DE.utf8")) else None


def build(which, jobs=8, verbose=False):
    """which: 'simrun' (no OpenCV), 'simcv' (OpenCV) or 'py' (extension module). Returns the artefact's path."""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = digest(())
        d = os.path.join(OUT, key)
        target = {"simrun": "simrun", "simcv": "simcv", "py": "nikfemm_sim.so"}[which]
        final = os.path.join(d, target)
        if os.path.exists(final):
            os.utime(d)
            return final
        os.makedirs(d, exist_ok=True)
        prune({key})
        inc = ["-I" + os.path.join(LIB, "src"), "-I" + os.path.join(LIB, "include"), "-I" + os.path.join(VERIF, "sim")]
        od = os.path.join(d, "o_" + which)
        os.makedirs(od, exist_ok=True)
        t0 = time.time()
        jl = []
        flags = BASE + inc
        libs = []
        if which == "simcv":
            c, libs = opencv_flags()
            flags = flags + c + ["-DNIKFEMM_USE_OPENCV"]
        if which == "py":
            return build_py(d, od, final, flags, jobs)
        objs = []
        for s in sources():
            o = os.path.join(od, os.path.relpath(s, LIB).replace("/", "_") + ".o")
            objs.append(o)
            jl.append(([CXX] + flags + COV + ["-c", s, "-o", o], s))
        o = os.path.join(od, "sim.o")
        objs.append(o)
        jl.append(([CXX] + flags + COV + ["-c", os.path.join(VERIF, "sim/sim.cpp"), "-o", o], "sim.cpp"))
        o = os.path.join(od, "rt.o")
        objs.append(o)
        jl.append(([CXX, "-std=c++20", "-O2", "-g1", "-fno-omit-frame-pointer", "-pthread", "-Wno-invalid-noreturn", "-fno-builtin", "-I" + os.path.join(VERIF, "sim"), "-c", os.path.join(VERIF, "sim/rt.cpp"), "-o", o], "rt.cpp"))
        order = sorted(jl, key=lambda j: -(os.path.getsize(j[1]) if os.path.exists(j[1]) else 1 << 20))
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(lambda j: run(j[0], "compiling " + j[1]), order))
        tmp = final + ".tmp"
        run([CXX, "-no-pie", "-g1", "-pthread", "-rdynamic", "-o", tmp] + objs + ["-Wl,--wrap=" + w for w in WRAPS + CODECS] + libs + ["-ldl"], "linking " + which)
        os.rename(tmp, final)
        shutil.rmtree(od, ignore_errors=True)
        if verbose:
            print("built %s in %.1fs" % (which, time.time() - t0), file=sys.stderr)
        return final


PYWRAPS = ["malloc", "calloc", "realloc", "free", "aligned_alloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t",
           "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t"]


def build_py(d, od, final, flags, jobs):
    """The Python module, its library and the simulated allocators in one shared object."""
    import sysconfig
    inc = ["-I" + sysconfig.get_paths()["include"], "-I" + sysconfig.get_paths()["platinclude"]]
    flags = [x for x in flags if x != "-std=c++20"] + ["-fPIC"]
    objs, jl = [], []
    for s in sources():
        o = os.path.join(od, os.path.relpath(s, LIB).replace("/", "_") + ".o")
        objs.append(o)
        jl.append(([CXX, "-std=c++20"] + flags + ["-c", s, "-o", o], s))
    for s, std in ((os.path.join(REPO, "python/nikfemm.cpp"), "gnu++17"), (os.path.join(VERIF, "pysim/pysim.cpp"), "gnu++20")):
        o = os.path.join(od, "py_" + os.path.basename(s) + ".o")
        objs.append(o)
        jl.append((["g++", "-std=" + std] + [f for f in flags if f != "-mno-omit-leaf-frame-pointer"] + inc + ["-c", s, "-o", o], s))
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda j: run(j[0], "compiling " + j[1]), sorted(jl, key=lambda j: -os.path.getsize(j[1]))))
    tmp = final + ".tmp"
    run(["g++", "-shared", "-static-libstdc++", "-static-libgcc", "-Wl,-Bsymbolic", "-o", tmp] + objs + ["-Wl,--wrap=" + w for w in PYWRAPS] + ["-lpthread", "-ldl"], "linking the Python module")
    os.rename(tmp, final)
    shutil.rmtree(od, ignore_errors=True)
    return final


if __name__ == "__main__":
    for w in sys.argv[1:] or ["simrun", "simcv", "py"]:
        print(build(w, verbose=True))
    print(locale_dir())
