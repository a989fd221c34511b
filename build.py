"""Builds the simulation binaries from /repo's current working tree (content-hashed object cache)."""
import concurrent.futures, fcntl, hashlib, os, shlex, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

CORE_SRC = ["sim/core/" + f for f in ("sim.cpp", "rt_tsan.cpp", "rt_heap.cpp", "rt_interpose.cpp", "driver.cpp", "simtbb.cpp", "simkahip.cpp")]
INC = ["-I%s/sim/shim" % VERIF, "-I%s/sim/core" % VERIF]
CORE = ["-std=c++17", "-O2", "-g", "-fno-threadsafe-statics", "-w"] + INC
# code under test: callbacks of -fsanitize=thread only (rt_tsan.cpp implements them), no TSan runtime
SUT_COMMON = ["-g", "-w", "-fsanitize=thread"] + INC + ["-I%s/harness" % VERIF, "-I%s/include" % REPO, "-I%s/include/utils" % REPO, "-I/usr/include/eigen3"]
SUT = ["-std=c++17", "-O1"] + SUT_COMMON
SUTC = ["-std=gnu11", "-O1"] + SUT_COMMON

UTIL = ["src/utils/System.c", "src/utils/System.cpp", "src/utils/Logger.cpp", "src/utils/ccolor.cpp", "src/utils/Timings.cpp"]
GEO = ["src/lib/Geometry.cpp", "src/lib/Partitioner.cpp", "src/lib/Triangulator.cpp", "src/lib/DCTriangulator.cpp", "src/utils/Predicates.cpp"]

# CGAL's and boost's own headers stay uninstrumented (they are sequential library code); /repo's code inlined around them is instrumented
IGN = os.path.join(VERIF, "sim", "cgal.ignore")
SUT_CLANG = ["-std=c++17", "-O1", "-mllvm", "-tsan-instrument-read-before-write=1", "-fsanitize-ignorelist=" + IGN] + SUT_COMMON
PLAIN = ["-std=c++17", "-O2", "-w", "-I%s/harness" % VERIF, "-I%s/sim/core" % VERIF]
# a source is a name, or (name, mode): "plain" = reference code, never preempted; "clang" = see SUT_CLANG

# binary -> (harness sources, repository sources, defines, libraries)
BINS = {
    "hash": (["c_hash.cpp"], UTIL, [], ["-lboost_serialization"]),
}
BINS_FILE = os.path.join(VERIF, "bins.py")
if os.path.exists(BINS_FILE):
    exec(open(BINS_FILE).read())


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


_digests = {}
def file_digest(f):
    if f not in _digests:
        try:
            _digests[f] = hashlib.sha256(open(f, "rb").read()).hexdigest()
        except OSError:
            _digests[f] = "missing"
    return _digests[f]


def parse_deps(d):
    try:
        t = open(d).read()
    except OSError:
        return None
    t = t.replace("\\\n", " ")
    return sorted(set(x for x in t.split(":", 1)[1].split() if x)) if ":" in t else None


def compile_one(cmd, src, obj):
    dep, tag = obj + ".d", obj + ".key"
    full = cmd + ["-MD", "-MF", dep, "-c", src, "-o", obj]
    deps = parse_deps(dep)
    if deps and os.path.exists(obj) and os.path.exists(tag):
        key = sha(*cmd, *[d + ":" + file_digest(d) for d in deps])
        if open(tag).read() == key:
            return key, 0.0, None
    t0 = time.time()
    p = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return None, time.time() - t0, "%s\n%s" % (" ".join(shlex.quote(x) for x in full), p.stdout[-6000:])
    deps = parse_deps(dep) or []
    key = sha(*cmd, *[d + ":" + file_digest(d) for d in deps])
    open(tag, "w").write(key)
    return key, time.time() - t0, None


def build(names, verbose=False):
    """returns {name: path}; raises RuntimeError with the compiler output"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ver = os.path.join(BUILD, "version.cpp")
        vtext = open(os.path.join(REPO, "src/utils/version.cpp.in")).read().replace("@GIT_SHA1@", "simulated-build")
        if not os.path.exists(ver) or open(ver).read() != vtext:
            open(ver, "w").write(vtext)
        jobs = {}  # obj -> (cmd, src, weight)
        plan = {}
        core_objs = []
        for s in CORE_SRC:
            o = os.path.join(BUILD, "core_" + os.path.basename(s) + ".o")
            jobs[o] = (["g++"] + CORE, os.path.join(VERIF, s), 5)
            core_objs.append(o)
        o = os.path.join(BUILD, "core_switch.o")
        jobs[o] = (["gcc"], os.path.join(VERIF, "sim/core/switch.S"), 1)
        core_objs.append(o)
        for n in names:
            hs, rs, defs, libs = BINS[n]
            variant = "" if not defs else "_" + "".join(c if c.isalnum() else "_" for c in "".join(defs))
            objs = []
            for src, root, pre, w in [(h, os.path.join(VERIF, "harness"), "h", 60) for h in hs] + [(r, REPO, "r", 20) for r in rs]:
                src, mode = src if isinstance(src, tuple) else (src, "")
                defs1 = [] if src in UTIL or mode == "plain" else defs
                o = os.path.join(BUILD, "%s_%s%s%s.o" % (pre, src.replace("/", "_"), variant if defs1 else "", mode))
                cmd = ["clang++"] + SUT_CLANG if mode == "clang" else ["g++"] + PLAIN if mode == "plain" else ["gcc"] + SUTC if src.endswith(".c") else ["g++"] + SUT
                jobs[o] = (cmd + defs1, os.path.join(root, src), 100 if "Triangulator" in src else w)
                objs.append(o)
            o = os.path.join(BUILD, "r_version.o")
            jobs[o] = (["g++"] + SUT, ver, 1)
            objs.append(o)
            plan[n] = (objs, libs)
        order = sorted(jobs, key=lambda k: -jobs[k][2])
        keys, errs = {}, []
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))) as ex:
            futs = {ex.submit(compile_one, jobs[o][0], jobs[o][1], o): o for o in order}
            for f in concurrent.futures.as_completed(futs):
                k, t, e = f.result()
                keys[futs[f]] = k
                if verbose and t > 0.05:
                    print("  %-50s %.1f s" % (os.path.basename(futs[f]), t), file=sys.stderr)
                if e:
                    errs.append(e)
        if errs:
            raise RuntimeError("\n".join(errs))
        out = {}
        for n, (objs, libs) in plan.items():
            allo = objs + core_objs
            exe = os.path.join(BUILD, "sim_" + n)
            key = sha(*[keys[o] for o in allo], *libs)
            tag = exe + ".key"
            if not (os.path.exists(exe) and os.path.exists(tag) and open(tag).read() == key):
                p = subprocess.run(["g++"] + allo + ["-o", exe, "-rdynamic"] + libs + ["-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    raise RuntimeError("link of %s failed\n%s" % (n, p.stdout[-6000:]))
                open(tag, "w").write(key)
            out[n] = exe
        return out


if __name__ == "__main__":
    try:
        r = build(sys.argv[1:] or list(BINS), verbose=True)
        print("\n".join(r.values()))
    except RuntimeError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
