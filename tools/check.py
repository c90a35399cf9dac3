#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough   - decide one property by simulation (MANIFEST.json)
check.py replay FILE                 - build from /repo and replay a violation
check.py determinism [RUNS]          - same seeds in different processes and worker counts: same executions
Exit 0: held on everything explored.  1: VIOLATION line printed.  2: no answer (build error, irreproducible run)."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simbuild
from simbuild import VERIF, REPO

sys.stdout.reconfigure(errors="replace")
T0 = time.time()
STUCK = ["deadlock", "no-progress", "hang"]
BAD = ["product", "exception", "crash"] + STUCK
MEM = ["mem-out-of-bounds", "mem-use-after-free", "mem-use-after-scope", "mem-bad-free", "mem-double-free", "mem-misaligned"]
# scenario -> executable
WHERE = {s: e for e, l in {
    "hx": ["dist", "single", "loops", "session", "faultdist", "faultlocal", "plan", "sched", "iterv", "distbig", "singlebig", "loopsbig"], "hxship": ["combinedship"],
    "omp": ["omp", "ompsession", "ompconc", "ompfault", "ompbig"], "ompship": ["ompship", "ktestodd"],
    "study": ["study", "studysession", "studyconc", "studybig"], "studyship": ["studyship"],
    "ml": ["iterl"], "tile": ["tile", "tilefault"], "app": ["app", "appplan", "appbig"]}.items() for s in l}
WHERE["studyavx"] = ("studyavx", "study")
# property -> (classes, {scenario: (quick runs, thorough runs)})
PROPS = {
    "C01": (BAD, {"dist": (110000, 2500000), "distbig": (800, 25000), "app": (12000, 100000), "appbig": (300, 5000)}),
    "C02": (BAD, {"single": (140000, 3000000), "singlebig": (800, 25000), "app": (12000, 100000), "appbig": (300, 5000)}),
    "C03": (BAD, {"loops": (60000, 2000000), "loopsbig": (800, 20000), "combinedship": (40, 1500)}),
    "C04": (BAD, {"omp": (60000, 1200000), "ompbig": (600, 20000), "ompconc": (50000, 600000), "ompship": (150, 4000)}),
    "C05": (BAD, {"study": (80000, 900000), "studybig": (3000, 80000), "studyavx": (40000, 500000), "studyconc": (30000, 300000), "studyship": (300, 15000)}),
    "C06": (BAD, {"session": (50000, 1200000), "ompsession": (25000, 400000), "studysession": (15000, 200000)}),
    "C07": (BAD + ["mem-use-after-free", "mem-use-after-scope", "mem-bad-free", "mem-double-free"], {"faultdist": (75000, 1500000), "faultlocal": (60000, 1000000), "ompfault": (35000, 300000)}),
    "C08": (["distribution"] + STUCK + ["crash"], {"plan": (70000, 1000000), "sched": (60000, 1200000), "appplan": (20000, 200000), "distbig": (300, 10000)}),
    "C09": (["iteration", "exception", "crash"] + STUCK, {"iterv": (55000, 2000000), "iterl": (55000, 2000000)}),
    "C10": (["race", "isolation"], {"dist": (25000, 500000), "single": (20000, 300000), "loops": (10000, 300000), "session": (10000, 200000), "faultdist": (12000, 300000), "faultlocal": (10000, 300000), "iterv": (8000, 100000), "iterl": (8000, 100000),
            "omp": (10000, 200000), "ompconc": (12000, 200000), "ompfault": (5000, 60000), "study": (10000, 150000), "studyavx": (5000, 60000), "studyconc": (8000, 100000), "tile": (10000, 100000), "tilefault": (6000, 50000), "app": (5000, 100000),
            "distbig": (120, 3000), "singlebig": (120, 3000), "loopsbig": (120, 2500), "ompbig": (120, 2500), "studybig": (300, 6000), "appbig": (120, 2500)}),
    "C11": (STUCK, {"dist": (40000, 700000), "single": (30000, 400000), "loops": (20000, 300000), "session": (12000, 200000), "plan": (20000, 300000), "sched": (12000, 200000), "iterv": (10000, 100000), "iterl": (10000, 100000),
            "omp": (12000, 200000), "ompconc": (10000, 150000), "study": (12000, 150000), "studyconc": (8000, 100000), "tile": (5000, 50000), "app": (5000, 100000),
            "distbig": (120, 3000), "singlebig": (120, 3000), "loopsbig": (100, 2500), "ompbig": (100, 2500), "studybig": (300, 6000), "appbig": (120, 2500)}),
    "C12": (["verdict", "exception", "crash"] + STUCK, {"app": (80000, 2500000), "appbig": (1500, 40000)}),
    "C13": (["tiles", "exception", "crash"] + MEM + STUCK, {"tile": (120000, 2000000), "tilefault": (90000, 1500000)}),
    "C14": (MEM + ["operand-modified", "crash"], {"dist": (20000, 400000), "single": (20000, 300000), "loops": (12000, 500000), "session": (10000, 200000), "faultdist": (10000, 200000), "faultlocal": (8000, 150000), "combinedship": (20, 500),
            "omp": (20000, 400000), "ompconc": (8000, 100000), "ompfault": (5000, 60000), "study": (25000, 400000), "studyavx": (10000, 150000), "studysession": (5000, 60000), "iterv": (5000, 60000), "iterl": (5000, 60000), "tile": (10000, 150000), "tilefault": (8000, 100000), "app": (5000, 100000),
            "distbig": (120, 3000), "singlebig": (120, 3000), "loopsbig": (120, 2500), "ompbig": (120, 2500), "studybig": (400, 6000), "appbig": (120, 2500),
            "ompship": (60, 2000), "studyship": (100, 6000)}),
}
PROPS["C14"] = (PROPS["C14"][0] + ["product"], PROPS["C14"][1]) # stale contents that reach a result
QUICK_TIME, THOROUGH_TIME = 150.0, 3000.0   # safety caps for the whole exploration, seconds
REAL = {
    "hx": "src/variants/*.cpp, src/variants/*.hpp, src/variants/components/*, src/reference_kernels/kernel.hpp", "hxship": "as hx, shipped block sizes",
    "omp": "src/reference_kernels/*", "ompship": "as omp, shipped block sizes", "study": "otherExperiments/mult*.cpp", "studyavx": "as study, compiled without FMA",
    "studyship": "as study, shipped block sizes", "ml": "src/memory_layout/index_iterator.hpp", "tile": "src/memory_layout/tile_*.hpp",
    "app": "src/matrix_multiply_application/matrix_multiply.cpp (main of every locality) and everything it calls"}
STUB = ["HPX runtime (scheduler, futures, parallel loops, components, name service, message transport, timers): sim/include/hpx", "Vc SIMD types: sim/include/Vc",
        "OpenMP runtime (teams, work sharing, barriers, critical, locks): sim/core/omp.cpp", "allocator, threads, clocks: sim/core"]

def known_findings(prop, exes):
    """Defects recorded in known_findings.txt: shown to be still there, never counted as anything else.
    known: property=<id> scenario=<scenario that only makes the failing call> <what fails>"""
    out = []
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) scenario=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            exe, scn = place(m.group(2))
            tmp = tempfile.mkdtemp(prefix="simknown-")
            try:
                _, r = run_json([exes[exe], "batch", "--scenarios", scn, "--classes", "none", "--seed", "1", "--runs", "4", "--time", "60", "--wall", "4", "--maxvio", "1", "--jobs", "4", "--outdir", tmp], 200)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            if r["classes"]:
                print("KNOWN-FINDING: property=%s %s" % (prop, m.group(3)))
                out.append({"finding": m.group(3), "scenario": m.group(2), "classes": r["classes"]})
    return out

def place(s):
    w = WHERE[s]
    return w if isinstance(w, tuple) else (w, s)

def die(msg):
    print(msg)
    print("NO ANSWER")
    sys.exit(2)

def run_json(cmd, timeout):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    try:
        return p.returncode, json.loads(p.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        die("no result from %s: exit %d\n%s\n%s" % (" ".join(cmd), p.returncode, p.stdout[-1500:], p.stderr[-1500:]))

def symbol(exe, pc):
    if not pc or pc == "0":
        return ""
    try:
        p = subprocess.run(["addr2line", "-Cfie", exe, "0x" + pc], stdout=subprocess.PIPE, text=True, timeout=60)
        l = p.stdout.splitlines()
        return " <- ".join("%s %s" % (l[i][:120], l[i + 1].replace(REPO + "/", "")) for i in range(0, min(len(l) - 1, 8), 2))
    except Exception:
        return ""

def gate(exe, name, raw, prop, tmp):
    """Reproduce in fresh processes, minimise, reproduce again; returns (replay path, result) or None."""
    cls = re.search(r"^class (\S+)$", open(raw, errors="replace").read(), re.M).group(1)
    timing = cls == "hang"   # ended by the wall-clock limit: the class must come back, not the hash
    def twice(f):
        out = []
        for _ in range(2):
            code, r = run_json([exe, "replay", f, "--wall", "30"], 200)
            same = any(v["class"] == cls for v in r["violations"])
            if not same:
                return None
            out.append(r)
        if not timing and not loose and out[0] != out[1]:
            return None
        return out[0]
    loose = False
    r = twice(raw)
    if r is None: # undefined behaviour of the code can print garbage that differs: the class must come back
        loose = True
        r = twice(raw)
    if r is None:
        return None
    best = raw
    if not timing:
        small = os.path.join(tmp, "min.replay")
        subprocess.run([exe, "minimize", raw, small, "25"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
        if os.path.exists(small):
            r2 = twice(small)
            if r2 is not None:
                best, r = small, r2
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    seed = re.search(r"^seed (\d+)$", open(best, errors="replace").read(), re.M).group(1)
    dst = os.path.join(VERIF, "replays", "%s-%s-%s-%s.replay" % (prop, name, cls, seed))
    with open(dst, "w") as f:
        f.write(open(best, errors="replace").read())
        f.write("# executable %s\n# reproduce: python3 tools/check.py replay %s\n" % (os.path.basename(exe), os.path.relpath(dst, VERIF)))
    return dst, cls, r

def check(prop, tier):
    classes, plan = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    names = sorted({place(s)[0] for s in plan})
    try:
        exes = simbuild.build(names)
    except simbuild.BuildError as e:
        die(str(e))
    t_build = time.time() - T0
    cap = QUICK_TIME if tier == "quick" else THOROUGH_TIME
    tmp = tempfile.mkdtemp(prefix="simcheck-")
    tot, per, faults, probes, samples, found, ignored = {}, {}, {}, {}, [], [], {}
    start = time.time()
    try:
        for nth, (s, counts) in enumerate(plan.items()):
            exe, scn = place(s)
            runs = counts[0 if tier == "quick" else 1]
            left = cap - (time.time() - start)
            limit = min(left, max(10.0, 2.5 * left / (len(plan) - nth))) # a slow machine does not starve the last scenarios
            if left < 1:
                per[s] = {"runs": 0, "note": "time cap reached"}
                continue
            out = os.path.join(tmp, s)
            os.makedirs(out)
            cmd = [exes[exe], "batch", "--scenarios", scn, "--classes", ",".join(classes), "--seed", str(seed), "--runs", str(runs), "--time", "%.1f" % limit,
                   "--wall", "20", "--maxvio", "2", "--jobs", str(os.cpu_count() or 8), "--outdir", out]
            if tier == "thorough":
                cmd += ["--param", "thorough=1"]
            _, r = run_json(cmd, cap + 600)
            per[s] = {k: r[k] for k in ("runs", "inconclusive", "wall_s", "steps", "max_steps", "simtime_ns", "switches", "preemptions", "tasks", "messages", "allocations", "runs_with_switches", "distinct_interleavings", "distinct_executions", "fingerprint")}
            per[s]["executable"] = exe
            for k in ("runs", "inconclusive", "steps", "simtime_ns", "switches", "preemptions", "tasks", "messages", "allocations", "runs_with_switches", "distinct_interleavings", "distinct_executions"):
                tot[k] = tot.get(k, 0) + r[k]
            for k, v in r["faults"].items():
                f = faults.setdefault(k, {"injected": 0, "runs": 0})
                f["injected"] += v["injected"]; f["runs"] += v["runs"]
            for k, v in r["probes"].items():
                probes[k] = probes.get(k, 0) + v
            samples += r["samples"][:3]
            for k, v in r["classes"].items():
                if k not in classes:
                    ignored[k] = ignored.get(k, 0) + v
            for raw in sorted(glob.glob(os.path.join(out, "raw-*.replay"))):
                g = gate(exes[exe], s, raw, prop, tmp)
                if g:
                    found.append((s, exe) + g)
                    break
            else:
                if glob.glob(os.path.join(out, "raw-*.replay")):
                    die("a violation in scenario %s does not reproduce: simulator or code is not deterministic" % s)
            if found:
                break
    finally:
        keep = os.environ.get("SIM_KEEP")
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - start
    known = [] if found else known_findings(prop, exes)
    runs = tot.get("runs", 0)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": tot.get("distinct_interleavings", 0),
            "rule": "One case is one simulated run: workload, operands, schedule, message delays, chunking, heap placement and faults are drawn from one seed. It counts as non-trivial and distinct if at least one switch between live tasks or threads happened and the sequence of (task, switch point) is unlike that of every other run of the batch.",
            "samples": samples[:24],
            "distinct_executions": tot.get("distinct_executions", 0),
            "runs_with_context_switches": tot.get("runs_with_switches", 0),
            "inconclusive_runs": tot.get("inconclusive", 0),
            "simulated_runs_per_hour": int(runs / wall * 3600) if wall > 0 else 0,
            "seeds_per_hour": int(runs / wall * 3600) if wall > 0 else 0,
            "simulated_time_s": tot.get("simtime_ns", 0) / 1e9,
            "steps_instrumented_accesses": tot.get("steps", 0), "context_switches": tot.get("switches", 0), "preemption_points_drawn": tot.get("preemptions", 0),
            "tasks": tot.get("tasks", 0), "messages": tot.get("messages", 0), "allocations_by_repository_code": tot.get("allocations", 0),
            "faults_injected": faults, "rare_conditions_hit": probes, "per_scenario": per,
            "classes_judged": classes, "violations_of_other_properties_seen": ignored,
            "real_code": [REAL[e] for e in names], "stubs": STUB,
        },
        "wall_s": round(time.time() - T0, 2), "build_s": round(t_build, 2),
        "assumptions": ["HPX and Vc are not installed: the stand-ins implement the parts of their interfaces the code uses",
                        "memory accesses are sequentially consistent; inline assembly is executed but its accesses are not seen by the race and bounds checks",
                        "sampled: a clean batch is evidence over the seeds run, not a proof"],
        "known_findings": known,
        "violations": len(found),
        "violation_details": [{"scenario": s, "executable": e, "class": c, "replay": os.path.relpath(d, VERIF), "details": r["violations"], "input": r["note"]} for s, e, d, c, r in found],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d distinct interleavings, %.1f s (build %.1f s), faults %s" % (prop, tier, runs, tot.get("distinct_interleavings", 0), wall, t_build, {k: v["injected"] for k, v in faults.items()}))
    if ignored:
        print("also seen, judged by other checks: %s" % ignored)
    if found:
        for s, e, d, c, r in found:
            print("scenario %s, class %s, input: %s" % (s, c, r["note"]))
            for v in r["violations"][:4]:
                print("  %s: %s" % (v["class"], v["detail"]))
                sy = symbol(exes[e], v.get("pc"))
                if sy:
                    print("    at " + sy)
            print("VIOLATION property=%s replay=%s" % (prop, d))
        return 1
    return 0

def replay(path):
    t = open(path, errors="replace").read()
    exe = re.search(r"^# executable (\S+)$", t, re.M).group(1)
    try:
        exes = simbuild.build([exe])
    except simbuild.BuildError as e:
        die(str(e))
    p = subprocess.run([exes[exe], "replay", path] + sys.argv[3:])
    print("reproduced" if p.returncode == 1 else "not reproduced")
    return p.returncode

def determinism(runs):
    """Every scenario twice: other process, other worker count, other address-space layout."""
    exes = simbuild.build(sorted({place(s)[0] for s in WHERE}))
    bad = 0
    for s in WHERE:
        exe, scn = place(s)
        n = min(runs, 40) if "ship" in s else runs
        fp = []
        for jobs in (8, 3, 1, 8):
            _, r = run_json([exes[exe], "batch", "--scenarios", scn, "--classes", "none", "--seed", "77", "--runs", str(n), "--time", "900", "--wall", "60", "--maxvio", "1", "--jobs", str(jobs), "--outdir", "/tmp"], 1000)
            fp.append((r["fingerprint"], r["runs"], r["steps"], r["distinct_interleavings"]))
        ok = len(set(fp)) == 1
        bad += not ok
        print("%-14s %s %s" % (s, "same" if ok else "DIFFERENT", sorted(set(fp))), flush=True)
    return 1 if bad else 0

if __name__ == "__main__":
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == "determinism":
        sys.exit(determinism(int(sys.argv[2]) if len(sys.argv) > 2 else 3000))
    if len(sys.argv) < 3 or sys.argv[1] not in PROPS or sys.argv[2] not in ("quick", "thorough"):
        print(__doc__); sys.exit(2)
    try:
        sys.exit(check(sys.argv[1], sys.argv[2]))
    except Exception as e:
        die("%s: %s" % (type(e).__name__, e))
