#!/usr/bin/env python3
# Single source of MANIFEST.json (run by hand after editing).
import json, os
NOTE = {
 "C01": "Seeded search over simulated clusters; oracle: exact integer/dyadic product.",
 "C02": "Seeded search over worker counts and task interleavings; oracle: exact product.",
 "C03": "Seeded search over chunkings, worker counts and interleavings, small and shipped block sizes; oracle: exact product.",
 "C04": "Seeded search over OpenMP teams, interleavings, concurrent callers and clock jumps; oracle: exact product.",
 "C05": "Seeded search over OpenMP teams, interleavings and concurrent callers, with and without FMA, small and shipped block sizes; oracle: exact product. Inline assembly is executed, its accesses are not seen by the race check.",
 "C06": "Seeded search over histories of multiplications in one simulated session; oracle: exact product of each.",
 "C07": "Seeded fault injection (failing allocations, lost messages, dying localities, stalls, slow messages) with a fault-free follow-up in the same session; oracle: exact product or exception, memory checker, progress bound.",
 "C08": "Seeded search; the block requests arriving at simulated localities and the planned schedule are judged against the distribution rules.",
 "C09": "Seeded search over boxes, blockings, chunkings and interleavings; oracle: set of indices and order required by the statement.",
 "C10": "Happens-before race detector (vector clocks) and per-locality memory ownership, evaluated on every access of repository code in every simulated run.",
 "C11": "Progress within a step bound, deadlock detection when nothing is runnable, in every simulated run.",
 "C12": "Seeded search over whole-application runs with damaged results, payload bit flips and clock jumps; oracle: the application's final matrices judged independently.",
 "C13": "Seeded search over shapes, concurrent callers and failing allocations; oracle: index arithmetic of the statement.",
 "C14": "Allocation-aware bounds, lifetime and alignment checker on every instrumented access, randomised heap placement and stale contents; operands compared afterwards. Accesses by inline assembly and past the end of stack arrays are not seen.",
}
TECH = {i: "deterministic simulation, seeded schedule and fault search" for i in NOTE}
def commits():
    import subprocess
    o = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
    return [l.split()[0] for l in o.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
m = {"version": 1, "setup_cmd": "python3 tools/simbuild.py",
     "hooks": {"guard": "MATMUL_SIM_SMALL_BLOCKS", "enable": "-DMATMUL_SIM_SMALL_BLOCKS (tools/simbuild.py)", "source_commits": commits()},
     "checks": [{"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i, "technique": TECH[i], "level": "exploration",
                 "level_note": NOTE[i] + " Every run is a pure function of its seed; violations are replayed twice in fresh processes and minimised before they are reported. Trusts the HPX, Vc and OpenMP stand-ins; sampled, not exhaustive."} for i in sorted(NOTE)],
     "not_applicable": [
       {"property": "C15", "reason": "Performance on real hardware: a simulation replaces time and execution speed, so it can decide nothing about it."},
       {"property": "C16", "reason": "Pure sequential functions of their arguments: no schedule, clock, I/O, fault or concurrent caller for a simulation to vary. (Where they are used inside the algorithms and the application they run as real code under C01 to C14.)"}]}
open("/verif/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
