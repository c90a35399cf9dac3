"""Builds the simulator and the drivers from /repo's working tree.

Objects are cached in /verif/build by command line and content of every file they
depend on, so a change in /repo is always seen."""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build") if REPO == "/repo" else os.path.join(VERIF, "build", "alt-" + hashlib.sha1(REPO.encode()).hexdigest()[:10])
CORE = os.path.join(VERIF, "sim/core")
DRV = os.path.join(VERIF, "sim/drivers")
SMALL = "-DMATMUL_SIM_SMALL_BLOCKS"

INC = ["-I", CORE, "-I", os.path.join(VERIF, "sim/include"), "-I", DRV, "-I", os.path.join(REPO, "src")]
CORE_FLAGS = ["-std=c++17", "-O2", "-g", "-fno-omit-frame-pointer", "-fPIC", "-fvisibility=hidden", "-I", CORE]
ORACLE_FLAGS = ["-std=c++14", "-O2", "-g", "-fPIC", "-w"] + INC
SIM_FLAGS = ["-std=c++14", "-O1", "-fno-tree-loop-im", "-g", "-fno-omit-frame-pointer", "-fPIC", "-fopenmp", "-fsanitize=thread", "-fsanitize=bounds", "-include", os.path.join(VERIF, "sim/include/sim_array.h"), "-mavx2", "-mfma", "-w"] + INC
WRAPS = ["malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc", "memalign", "memcpy", "memmove", "memset", "memcmp"]

def R(*names):
    return [os.path.join(REPO, n) for n in names]
def D(*names):
    return [os.path.join(DRV, n) for n in names]

def G(pattern, *without):
    return sorted(f for f in glob.glob(os.path.join(REPO, pattern)) if os.path.basename(f) not in without)
PROPOSAL = G("src/variants/proposal.cpp")
HPX_SRC = G("src/variants/*.cpp", "proposal.cpp") + G("src/variants/components/*.cpp") + G("src/util/*.cpp")
OMP_SRC = G("src/reference_kernels/*.cpp")
STUDY_SRC = G("otherExperiments/*.cpp", "benchmark.cpp")
ML_SRC = G("src/memory_layout/*.cpp")

# executable -> (instrumented sources, extra flags for the repository's sources and drivers)
EXES = {
    "hx": (D("hx.cpp", "iter_variants.cpp") + HPX_SRC, [SMALL]),
    "hxship": (D("hx.cpp") + HPX_SRC, []),
    "omp": (D("omp.cpp") + OMP_SRC, [SMALL]),
    "ompship": (D("omp.cpp") + OMP_SRC, []),
    "study": (D("study.cpp") + STUDY_SRC, [SMALL]),
    "studyavx": (D("study.cpp") + STUDY_SRC, [SMALL, "-mno-fma"]),
    "studyship": (D("study.cpp") + STUDY_SRC, []),
    "ml": (D("iter_layout.cpp") + ML_SRC, []),
    "tile": (D("tile.cpp") + ML_SRC, []),
    "app": (D("app.cpp") + G("src/matrix_multiply_application/*.cpp") + PROPOSAL + HPX_SRC + OMP_SRC, [SMALL]),
}
# kernel_test.cpp cannot carry the hook (its name makes it look like a test): the small-block build
# compiles a copy with other values of its block-size macros
KT = "src/reference_kernels/kernel_test.cpp"
KT_SMALL = {"PADDING": 8, "L3_X": 16, "L3_Y": 32, "L3_K_STEP": 32, "L2_X": 16, "L2_Y": 16, "L2_K_STEP": 8, "L1_X": 8, "L1_Y": 8, "L1_K_STEP": 4}
def small_kernel_test():
    """(path of the copy, size that N must be a multiple of)"""
    t = open(os.path.join(REPO, KT)).read()
    n = 0
    for k, v in KT_SMALL.items():
        t, c = re.subn(r"(?m)^([ \t]*#[ \t]*define[ \t]+%s[ \t]+)\d+\b" % k, r"\g<1>%d" % v, t)
        n += c == 1
    if n != len(KT_SMALL):
        return os.path.join(REPO, KT), 512
    out = os.path.join(BUILD, "gen", "kernel_test.cpp")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    t = '#line 1 "%s"\n' % os.path.join(REPO, KT) + t
    if not os.path.exists(out) or open(out).read() != t:
        open(out, "w").write(t)
    return out, 32
EXTRA = {"src/matrix_multiply_application/matrix_multiply.cpp": ["-Dmain=matrix_multiply_main"]}

def sh(b):
    return hashlib.sha256(b).hexdigest()
def fhash(p, memo={}):
    try:
        st = os.stat(p)
        k = (p, st.st_mtime_ns, st.st_size, st.st_ino)
        if k not in memo:
            memo[k] = sh(open(p, "rb").read())
        return memo[k]
    except OSError:
        return None

class BuildError(Exception):
    pass

def compile_one(src, flags, cxx="g++"):
    cmd = [cxx] + flags + ["-c", src]
    key = sh("\0".join(cmd).encode())[:20]
    base = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + key)
    obj, meta = base + ".o", base + ".json"
    try:
        m = json.load(open(meta))
        if os.path.exists(obj) and all(fhash(p) == h for p, h in m.items()):
            return obj
    except (OSError, ValueError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = base + ".d"
    p = subprocess.run(cmd + ["-MMD", "-MF", dep, "-o", obj + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, p.stdout[-6000:]))
    txt = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    os.rename(obj + ".tmp", obj)
    json.dump({p: fhash(p) for p in txt}, open(meta, "w"))
    return obj

def build(names):
    """Builds libsim and the named executables; returns {name: path}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs = {}
        core = [os.path.join(CORE, f) for f in ("sched.cpp", "mem.cpp", "omp.cpp", "posix.cpp", "main.cpp")]
        for s in core:
            jobs[("core", s)] = (s, CORE_FLAGS)
        for s in D("support.cpp", "main.cpp"):
            jobs[("oracle", s)] = (s, ORACLE_FLAGS)
        sources = {}
        for n in names:
            srcs, fl = EXES[n]
            if os.path.join(REPO, KT) in srcs:
                f, mult = small_kernel_test() if SMALL in fl else (os.path.join(REPO, KT), 512)
                srcs = [f if x == os.path.join(REPO, KT) else x for x in srcs]
                fl = fl + ["-DKERNEL_TEST_MULTIPLE=%d" % mult, "-I", os.path.join(REPO, "src/reference_kernels")]
            sources[n] = (srcs, fl)
        for n in names:
            srcs, fl = sources[n]
            for s in srcs:
                rel = os.path.relpath(s, REPO)
                jobs[(n, s)] = (s, SIM_FLAGS + fl + EXTRA.get(rel, []))
        # same command = same object: submit once, slow ones first
        uniq = {}
        for k, (s, f) in jobs.items():
            uniq.setdefault((s, tuple(f)), None)
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
            futs = {u: ex.submit(compile_one, u[0], list(u[1])) for u in uniq}
            objs = {u: f.result() for u, f in futs.items()}
        get = lambda k: objs[(jobs[k][0], tuple(jobs[k][1]))]
        lib = os.path.join(BUILD, "libsim.so")
        link(["g++", "-shared", "-Wl,-Bsymbolic-functions", "-o"], lib, [get(("core", s)) for s in core], ["-ldl"])
        out = {}
        oracle = [get(("oracle", s)) for s in D("support.cpp", "main.cpp")]
        for n in names:
            exe = os.path.join(BUILD, n)
            o = [get((n, s)) for s in sources[n][0]]
            wraps = ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
            link(["g++", "-rdynamic", "-o"], exe, o + oracle, wraps + ["-L", BUILD, "-lsim", "-Wl,-rpath," + BUILD, "-Wl,-z,now", "-lboost_program_options", "-ldl"], [lib])
            out[n] = exe
        return out

def link(pre, out, objs, post, deps=()):
    key = sh(json.dumps([pre, out, post] + [[o, fhash(o)] for o in list(objs) + list(deps)]).encode())
    kf = out + ".key"
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
        return
    p = subprocess.run(pre + [out + ".tmp"] + objs + post, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("linking %s failed:\n%s" % (out, p.stdout[-6000:]))
    os.rename(out + ".tmp", out)
    open(kf, "w").write(key)

if __name__ == "__main__":
    t = time.time()
    try:
        r = build(sys.argv[1:] or list(EXES))
    except BuildError as e:
        print(e); sys.exit(2)
    print(r, "%.1fs" % (time.time() - t))
