"""Content-addressed build of /repo's library sources and the drivers.

Nothing here trusts mtimes: every object is keyed by the hash of the compiler
command, the whole include tree of /repo, the runtime headers, and its source.
"""
import hashlib, os, subprocess, sys, glob, concurrent.futures, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

DEFS = ["-DBOOST_FIBER_NO_LIB", "-DBOOST_FIBERS_NO_LIB", "-DBOOST_FIBER_STATIC_LINK=1", "-DBOOST_FIBERS_STATIC_LINK=1",
        "-DBOOST_FIBER_SOURCE", "-DBOOST_FIBERS_SOURCE", "-DBOOST_ALL_NO_LIB"]
CTLF = ["clang++", "-std=c++17", "-O1", "-g1", "-fsanitize=thread", "-fno-pie", "-pthread", "-w"]
WRAP = ["-no-pie", "-pthread"] + ["-Wl,--wrap=" + s for s in ("malloc", "free", "calloc", "realloc", "mmap", "munmap", "__cxa_allocate_exception")]
CONFIGS = {
    # controlled scheduling + virtual time + own happens-before/UAF monitor, assertions on
    "ctl":  dict(cc=CTLF, ld=["clang++"] + WRAP, rt=["ctl.cpp"], defs=[]),
    # same, as released (no assertions): used for data races
    "nd":   dict(cc=CTLF, ld=["clang++"] + WRAP, rt=["ctl.cpp"], defs=["-DNDEBUG"]),
    "spmc": dict(cc=CTLF, ld=["clang++"] + WRAP, rt=["ctl.cpp"], defs=["-DBOOST_FIBERS_USE_SPMC_QUEUE"]),
    "ndsp": dict(cc=CTLF, ld=["clang++"] + WRAP, rt=["ctl.cpp"], defs=["-DNDEBUG", "-DBOOST_FIBERS_USE_SPMC_QUEUE"]),
    "stdm": dict(cc=CTLF, ld=["clang++"] + WRAP, rt=["ctl.cpp"], defs=["-DBOOST_FIBERS_SPINLOCK_STD_MUTEX"]),
    "adap": dict(cc=CTLF, ld=["clang++"] + WRAP, rt=["ctl.cpp"], defs=["-DBOOST_FIBERS_SPINLOCK_TTAS_ADAPTIVE"]),
    "futx": dict(cc=CTLF, ld=["clang++"] + WRAP, rt=["ctl.cpp"], defs=["-DBOOST_FIBERS_SPINLOCK_TTAS_FUTEX"]),
    "adfx": dict(cc=CTLF, ld=["clang++"] + WRAP, rt=["ctl.cpp"], defs=["-DBOOST_FIBERS_SPINLOCK_TTAS_ADAPTIVE_FUTEX"]),
    # controlled scheduling + UndefinedBehaviorSanitizer (a report is a trap)
    "ub":   dict(cc=CTLF + ["-fsanitize=undefined,float-divide-by-zero,integer-divide-by-zero,nullability", "-fno-sanitize=vptr,function", "-fsanitize-trap=all"], ld=["clang++"] + WRAP, rt=["ctl.cpp"], defs=[]),
    "ubnd": dict(cc=CTLF + ["-fsanitize=undefined,float-divide-by-zero,integer-divide-by-zero,nullability", "-fno-sanitize=vptr,function", "-fsanitize-trap=all"], ld=["clang++"] + WRAP, rt=["ctl.cpp"], defs=["-DNDEBUG", "-DBOOST_FIBERS_USE_SPMC_QUEUE"]),
}
LIBSRC = ["src/algo/*.cpp", "src/*.cpp"]
NUMASRC = ["src/numa/linux/*.cpp", "src/numa/algo/*.cpp"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def tree_hash(root, exts=(".hpp", ".h", ".ipp")):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f); h.update(os.path.relpath(p, root).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

_inc = None
def inc_hash():
    global _inc
    if _inc is None:
        _inc = tree_hash(os.path.join(REPO, "include"))
    return _inc
_vh = None
def vh_hash():
    global _vh
    if _vh is None:
        _vh = tree_hash(os.path.join(VERIF, "rt")) + tree_hash(os.path.join(VERIF, "drivers"))
    return _vh

class BuildError(Exception):
    pass

def compile_one(cfg, src, flags, key_extra):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    key = sha(" ".join(flags), key_extra, os.path.relpath(src, REPO if src.startswith(REPO + "/") else VERIF), open(src, "rb").read())
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj
    tmp = "%s.%d.%d.tmp" % (obj, os.getpid(), threading.get_ident())
    r = subprocess.run(flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("compile failed: %s\n%s" % (src, (r.stdout + r.stderr)[-4000:]))
    os.rename(tmp, obj)
    return obj

def jobs_for(cfg, drivers, numa):
    c = CONFIGS[cfg]; out = []
    guard = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "rt"), "-I" + os.path.join(VERIF, "drivers"), "-I" + os.path.join(VERIF, "drivers/stub")]
    flags = c["cc"] + DEFS + c["defs"] + guard
    srcs = []
    for pat in LIBSRC + (NUMASRC if numa else []):
        srcs += sorted(glob.glob(os.path.join(REPO, pat)))
    for s in srcs:
        # the address of a thread_local must not be cached across a fiber switch (clang does when it inlines context::active())
        out.append((cfg, s, flags + (["-fno-inline"] if c["cc"][0] == "clang++" and s.endswith("/context.cpp") else []), "L" + inc_hash()))
    for d in drivers:
        out.append((cfg, os.path.join(VERIF, "drivers", d + ".cpp"), flags, "D" + inc_hash() + vh_hash()))
    out.append((cfg, os.path.join(VERIF, "rt", "vf.cpp"), flags, "D" + inc_hash() + vh_hash()))
    for e in c.get("extra", []):
        out.append((cfg, os.path.join(VERIF, "rt", e), flags, "E" + inc_hash()))
    for r in c["rt"]:
        out.append((cfg, os.path.join(VERIF, "rt", r), ["clang++", "-O2", "-g1", "-std=c++17", "-fno-exceptions", "-pthread", "-w"] + c.get("rtdefs", []) +
                    (["-fno-pie"] if "-no-pie" in c["ld"] else []), "R" + vh_hash()))
    return out

def build(targets, jobs=None, verbose=False):
    """targets: list of (name, cfg, [drivers], numa). Returns {name: exe}."""
    alljobs, per = {}, {}
    for name, cfg, drivers, numa in targets:
        js = jobs_for(cfg, drivers, numa); per[name] = (cfg, js, numa)
        for j in js:
            alljobs[(j[0], j[1])] = j
    jl = sorted(alljobs.values(), key=lambda j: 0 if "drivers" in j[1] or j[1].endswith("vf.cpp") else 1)
    objs = {}
    with concurrent.futures.ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
        fut = {ex.submit(compile_one, *j): (j[0], j[1]) for j in jl}
        for f in concurrent.futures.as_completed(fut):
            objs[fut[f]] = f.result()
        exes = {}
        def link(name):
            cfg, js, numa = per[name]; c = CONFIGS[cfg]
            ol = [objs[(j[0], j[1])] for j in js]
            libs = (["-lboost_filesystem"] if numa else []) + ["-lboost_context", "-ldl", "-lpthread"]
            key = sha(*(ol + c["ld"] + libs)); exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, cfg, key))
            if not os.path.exists(exe):
                os.makedirs(os.path.dirname(exe), exist_ok=True)
                tmp = exe + ".%d.tmp" % os.getpid()
                r = subprocess.run(c["ld"] + ol + libs + ["-o", tmp], capture_output=True, text=True)
                if r.returncode:
                    raise BuildError("link failed: %s\n%s" % (name, (r.stdout + r.stderr)[-4000:]))
                os.rename(tmp, exe)
            return name, exe
        for n, e in ex.map(link, per):
            exes[n] = e
    return exes

if __name__ == "__main__":
    import time
    t = time.time()
    cfg = sys.argv[1]; drv = sys.argv[2:]
    try:
        print(build([(drv[0], cfg, drv, "numa" in drv)]), "%.1fs" % (time.time() - t))
    except BuildError as e:
        print(e); sys.exit(1)
