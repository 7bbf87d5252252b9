#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: seeded simulation of one property on /repo's current working tree.

Exit 0: every run explored satisfied the property.  Exit 1 + "VIOLATION property=<id> replay=<path>": it does not.
Exit 2: the check could not answer (build failure, run without result, irreproducible report)."""
import json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build  # noqa: E402

QUICK_S, THOROUGH_S, WORKERS = 32.0, 420.0, 8
RULE = ("One case = one run: a workload drawn from the seed (variables, factors, edit/evaluate/optimize/observe operations, swarm-chosen "
        "fault kinds, clock mode, heap fill, thread schedule) executed in its own process by the simulator against the real library. "
        "Non-trivial = the run performed at least one comparison of this property's oracle AND its event log (all values, outcomes and "
        "fault effects) hashes differently from every other run of its worker.")
REAL = ["src/factorama/*.cpp and *.hpp (all variables, factors, FactorGraph, SparseOptimizer, Stopwatch, numerical Jacobian), compiled from /repo's working tree with ASan and block coverage",
        "Eigen 3.4 (with its assertions reporting to the simulator)", "libstdc++ containers, iostreams and shared_ptr"]
STUB = ["heap (malloc/operator new wrapped: fill pattern, failures)", "clocks (clock_gettime, gettimeofday, time)", "stdout/stderr stream buffers",
        "thread scheduler (real threads, one released at a time, preempted at basic blocks, allocations and synchronisation)",
        "user callbacks: faulty subclasses of the library's own variables and factors that inherit the real arithmetic"]


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)


def replay(exe, path, symbolize=False):
    env = dict(os.environ)
    if symbolize:
        env["ASAN_OPTIONS"] = "symbolize=1"
        for p in ("/usr/lib/llvm-18/bin/llvm-symbolizer", "/usr/bin/llvm-symbolizer-18", "/usr/bin/llvm-symbolizer"):
            if os.path.exists(p):
                env["ASAN_SYMBOLIZER_PATH"] = p
                break
    try:
        r = sh([exe, "replay", path], env=env, timeout=150)
        return json.loads(r.stdout)
    except Exception as e:  # noqa: BLE001
        return {"err": True, "violations": [], "hash": "", "stderr": str(e)}


def has(rep, prop, cls):
    return any(v["prop"] == prop and v["cls"] == cls for v in rep["violations"])


def known(prop):
    out = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) class=(\S+) detail=/(.*)/ (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    secs = float(os.environ.get("SIM_SECONDS", THOROUGH_S if tier == "thorough" else QUICK_S))
    t0 = time.time()
    exe = build.build()
    t_build = time.time() - t0
    print(f"{prop}: seed {seed}, tier {tier}, simulator built in {t_build:.1f}s", flush=True)
    tmp = tempfile.mkdtemp(prefix="run.", dir=build.B)
    try:
        return run(prop, tier, seed, secs, exe, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, secs, exe, tmp, t0, t_build):
    base = seed * 1000000000
    ps = []
    for i in range(WORKERS):
        o = f"{tmp}/w{i}.json"
        ps.append((o, subprocess.Popen([exe, "batch", prop, str(base + i), str(WORKERS), "1000000000", str(secs), o],
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    res = []
    for o, p in ps:
        try:
            p.wait(timeout=secs + 240)
        except subprocess.TimeoutExpired:
            p.kill()
        try:
            res.append(json.load(open(o)))
        except Exception:  # noqa: BLE001
            print(f"{prop}: worker without result", file=sys.stderr)
    if len(res) < WORKERS // 2:
        print(f"{prop}: too few workers finished", file=sys.stderr)
        return 2
    explore_s = time.time() - t0 - t_build
    errs = sum(r["errors"] for r in res)
    runs = sum(r["runs"] for r in res)
    for r in res:
        if r["errinfo"]:
            print(f"{prop}: run without answer: {r['errinfo'][:400]}", file=sys.stderr)

    # --- violations: reproduce, minimise, report
    kn = known(prop)
    reported, irre, seen, silenced = [], 0, set(), set()
    for r in sorted((r for r in res if r["violation"]), key=lambda r: r["violation"]["seed"]):
        v = r["violation"]
        first = next((x for x in v["violations"] if x["prop"] == prop), None)
        if first is None or first["cls"] in seen:
            continue
        k = next((k for k in kn if k[0] == first["cls"] and k[1].search(first["detail"])), None)
        if k:
            silenced.add(k[2])
            continue
        a, b = replay(exe, v["file"]), replay(exe, v["file"])
        if not (has(a, prop, first["cls"]) and has(b, prop, first["cls"]) and a["hash"] == b["hash"]):
            irre += 1
            print(f"{prop}: seed {v['seed']} reported {first['cls']} ({first['detail']}) but a replay in a fresh process did not: {a['violations']} {b['violations']}", file=sys.stderr)
            continue
        seen.add(first["cls"])
        os.makedirs(f"{V}/replays", exist_ok=True)
        path = f"{V}/replays/{prop}-{first['cls']}-{v['seed']}.plan"
        m = sh([exe, "min", v["file"], path, prop, first["cls"], "25" if tier == "quick" else "60"])
        if m.returncode or not has(replay(exe, path), prop, first["cls"]):
            shutil.copy(v["file"], path)
        fin = replay(exe, path, symbolize=True)
        det = next((x["detail"] for x in fin["violations"] if x["cls"] == first["cls"]), first["detail"])
        print(f"{prop}: seed {v['seed']} violates the property [{first['cls']}]: {det}")
        print("  minimised plan (replay with: python3 /verif/replay.py FILE):")
        for l in open(path):
            print("    " + l.rstrip()[:300])
        for l in (fin.get("stderr") or "").splitlines()[:14]:
            print("    | " + l[:220])
        reported.append(path)
        if len(reported) >= 2:
            break
    for s in [k[2] for k in kn]:
        print(f"KNOWN-FINDING: property={prop} {s}")

    # --- determinism: the same seed in another process, under another worker, must log the same events
    mism = []
    sample = []
    if not reported:
        for r in res:
            sample += r["det"][: 3 if tier == "quick" else 40]
        for s, h in sample[: 24 if tier == "quick" else 300]:
            o = f"{tmp}/det.json"
            sh([exe, "batch", prop, str(s), "1", "1", "100", o])
            try:
                d = json.load(open(o))["det"]
            except Exception:  # noqa: BLE001
                d = []
            if not d or d[0][1] != h:
                mism.append(s)

    def tot(k):
        m = {}
        for r in res:
            for a, b in r[k].items():
                m[a] = m.get(a, 0) + b
        return dict(sorted(m.items()))
    states = set()
    for r in res:
        states.update(r["states"])
    fired = tot("fired")
    wall = time.time() - t0
    distinct = sum(min(r["nontrivial"], r["distinct_runs"]) for r in res)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": distinct, "rule": RULE,
            "samples": [s for r in res[:2] for s in r["samples"][:1]] or [s for r in res for s in r["samples"][:1]][:1],
            "oracle_comparisons": sum(r["compares"] for r in res), "operations": sum(r["steps"] for r in res),
            "runs_per_hour": int(runs / max(explore_s, 1e-3) * 3600), "seeds": "one seed per run, so seeds per hour = runs per hour",
            "simulated_seconds": sum(r["sim_ns"] for r in res) / 1e9,
            "faults_fired": fired, "faults_armed": tot("armed"), "operations_by_kind": tot("ops"), "probes": tot("probes"),
            "distinct_states": len(states),
            "state_measure": "(operation kind, method, final status, iteration count, outcome, set of faults that took effect) tuples, hashed",
            "distinct_library_blocks": max([r["coverage"] for r in res] or [0]),
            "preemptions": sum(r["switches"] for r in res),
            "distinct_schedules": sum(r["distinct_schedules"] for r in res),
            "distinct_preemption_points": max([r["pairs"] for r in res] or [0]),
            "runs_without_answer": errs, "determinism_sample": len(sample[: 24 if tier == "quick" else 300]), "determinism_mismatches": len(mism),
            "real_components": REAL, "stubbed_components": STUB,
        },
        "assumptions": ["code outside the simulated seams (CPU arithmetic, libstdc++ internals) is deterministic",
                        "sampling: a clean batch is evidence for the explored runs only",
                        "floating-point comparisons between differently ordered sums use the tolerances stated in DESIGN.md"],
        "wall_s": round(wall, 2), "violations": len(reported),
    }
    os.makedirs(f"{V}/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {runs} runs, {distinct} distinct non-trivial, {sum(r['compares'] for r in res)} comparisons, faults {sum(fired.values())} of {len(fired)} kinds, {wall:.1f}s")
    if reported:
        for p in reported:
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    if irre:
        return 2
    if mism:
        print(f"{prop}: seeds {mism[:5]} did not repeat", file=sys.stderr)
        return 2
    if errs * 50 > runs or not runs or not distinct:
        print(f"{prop}: {errs} of {runs} runs gave no answer", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
