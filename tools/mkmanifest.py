#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "N01": "A pure function of a factor's inputs: no schedule, clock, I/O, fault or history enters it, so simulation would only be input generation; left to property-based testing.",
 "N02": "Pure floating-point functions of one 3-vector or matrix; nothing nondeterministic or multi-step for a simulator to control.",
 "N03": "The residual formulas are pure functions of the variables' values; a simulated schedule or fault adds nothing to deciding them.",
 "N04": "RobustLoss and the weighting are pure scalar functions; no schedule, fault or history.",
}
TECH = {
 "C08": "deterministic simulation: seeded thread schedules (one thread released at a time, preempted at basic blocks, allocations, locks) over independent problems, compared with solo runs",
 "C09": "deterministic simulation: seeded thread schedules over shared read-only objects, compared with sequential answers; ASan",
 "C10": "deterministic simulation with clock faults (jumps, stalls, coarse ticks, huge values), twin run under another clock",
 "C11": "deterministic simulation with stream faults (failing, short, throwing log sinks), twin run without logging",
 "C17": "deterministic simulation of object lifetimes: seeded drops, collector runs, failing calls and allocator reuse against the real Python module under ASan, compared with a reference-keeping twin",
}
DEF = "deterministic simulation with fault injection: seeded operation histories and faults against an executable reference model"
NOTE = {
 "C17": "Samples; CPython and pybind11 themselves run uninstrumented, a lifetime error is seen through ASan on the module's heap and through differing values.",
}
DEFN = "Samples seeded runs; a quiet batch is evidence for the explored runs, not a proof. Real library code throughout; heap, clocks, streams and scheduling simulated."
checks, na = [], []
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    prog = "check_py.py" if p == "C17" else "check.py"
    if not os.path.exists(f"{V}/{prog}"):
        na.append({"property": p, "reason": "check under construction"})
        continue
    checks.append({"property": p, "quick_cmd": f"python3 {prog} {p} quick", "thorough_cmd": f"python3 {prog} {p} thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": TECH.get(p, DEF), "level": "exploration", "level_note": NOTE.get(p, DEFN)})
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
