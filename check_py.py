#!/usr/bin/env python3
"""check_py.py C17 [quick|thorough]: seeded simulation of Python object lifetimes on /repo's current working tree.

Exit codes as check.py."""
import json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import build_py  # noqa: E402

PY = "/usr/bin/python3"
SIM = f"{V}/pysim/pysim.py"
QUICK_S, THOROUGH_S, WORKERS = 40.0, 420.0, 8
RULE = ("One case = one plan drawn from the seed (Python objects of all bound classes created, wired, used, dropped, boxed in reference cycles, collected, "
        "called wrongly, with re-entrant drops inside argument conversion and failing allocations), executed twice in forked interpreters: all references kept / dropped. "
        "Non-trivial = both executions logged outcomes and the log hash differs from every other run of its worker.")
REAL = ["the pybind11 extension module and package __init__ built from /repo's working tree with ASan", "all of src/factorama (ASan)", "CPython 3.12, pybind11, numpy (PYTHONMALLOC=malloc, heap under ASan's allocator: freed memory is poisoned and overwritten)"]
STUB = ["reference drops and collector runs (decided by the plan)", "allocations of the extension module (failures)", "argument conversion (__array__ hooks that drop references, collect or raise)", "stdout (/dev/null)"]


def sim(d, args, symbolize=False, hashseed="0", timeout=400):
    return subprocess.run([PY, SIM] + args, env=build_py.env(d, symbolize, hashseed), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)


def replay(d, path, symbolize=False, hashseed="0"):
    try:
        return json.loads(sim(d, ["replay", path], symbolize, hashseed).stdout)
    except Exception as e:  # noqa: BLE001
        return {"viol": [], "hash": "", "err": str(e), "stderr": ""}


def has(r, cls):
    return any(v[0] == cls for v in r["viol"])


def replay_main(f):
    r = replay(build_py.build(), f, True)
    print(json.dumps({k: r[k] for k in ("hash", "viol", "err")}, indent=1))
    print(r["stderr"][:3000])
    return 2 if r["err"] else 1 if r["viol"] else 0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    secs = float(os.environ.get("SIM_SECONDS", THOROUGH_S if tier == "thorough" else QUICK_S))
    t0 = time.time()
    d = build_py.build()
    t_build = time.time() - t0
    print(f"{prop}: seed {seed}, tier {tier}, module built in {t_build:.1f}s", flush=True)
    tmp = tempfile.mkdtemp(prefix="run.", dir=build_py.B)
    try:
        return run(prop, tier, seed, secs, d, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, secs, d, tmp, t0, t_build):
    base = seed * 1000000000
    ps = []
    for i in range(WORKERS):
        o = f"{tmp}/w{i}.json"
        ps.append((o, subprocess.Popen([PY, SIM, "batch", str(base + i), str(WORKERS), str(secs), o], env=build_py.env(d), stdout=subprocess.DEVNULL, stderr=open(o + ".err", "w"))))
    res = []
    for o, p in ps:
        try:
            p.wait(timeout=secs + 200)
        except subprocess.TimeoutExpired:
            p.kill()
        try:
            res.append(json.load(open(o)))
        except Exception:  # noqa: BLE001
            print(f"{prop}: worker without result: {open(o + '.err').read()[-600:]}", file=sys.stderr)
    if len(res) < WORKERS // 2:
        # the module cannot even be imported or used once: say so, but claim nothing
        print(f"{prop}: too few workers finished", file=sys.stderr)
        return 2
    explore_s = time.time() - t0 - t_build
    runs, errs = sum(r["runs"] for r in res), sum(r["errors"] for r in res)
    for r in res:
        if r["errinfo"]:
            print(f"{prop}: run without answer: {r['errinfo'][:300]}", file=sys.stderr)
    seen, reported, irre = set(), [], 0
    for v in sorted((v for r in res for v in r["viol"]), key=lambda v: v["seed"]):
        if v["cls"] in seen:
            continue
        f = f"{tmp}/v{v['seed']}.pyplan"
        json.dump({"property": prop, "seed": v["seed"], "ops": v["ops"]}, open(f, "w"))
        a, b = replay(d, f), replay(d, f, hashseed="77")
        if not (has(a, v["cls"]) and has(b, v["cls"]) and a["hash"] == b["hash"]):
            irre += 1
            print(f"{prop}: seed {v['seed']} reported {v['cls']} ({v['detail']}) but a replay in a fresh interpreter did not: {a['viol']} {b['viol']}", file=sys.stderr)
            continue
        seen.add(v["cls"])
        os.makedirs(f"{V}/replays", exist_ok=True)
        path = f"{V}/replays/{prop}-{v['cls']}-{v['seed']}.pyplan"
        sim(d, ["min", f, path, v["cls"], "25" if tier == "quick" else "60"])
        if not os.path.exists(path) or not has(replay(d, path), v["cls"]):
            shutil.copy(f, path)
        fin = replay(d, path, symbolize=True)
        det = next((x[1] for x in fin["viol"] if x[0] == v["cls"]), v["detail"])
        print(f"{prop}: seed {v['seed']} violates the property [{v['cls']}]: {det}")
        print("  minimised plan (replay with: python3 /verif/replay.py FILE):")
        for o in json.load(open(path))["ops"]:
            print("    " + json.dumps(o)[:200])
        n = 0
        for l in (fin.get("stderr") or "").splitlines():
            if re.search(r"ERROR|freed by|allocated by|READ|WRITE|factorama", l) and n < 14:
                print("    | " + l[:220])
                n += 1
        reported.append(path)
        if len(reported) >= 2:
            break
    mism, sample = [], []
    if not reported:
        for r in res:
            sample += r["hashes"][: 2 if tier == "quick" else 30]
        for s, h in sample:
            o = f"{tmp}/det.json"
            sim(d, ["batch", str(s), "1", "100", o, "1"], hashseed=str(s % 1000 + 1))
            try:
                if json.load(open(o))["hashes"][0][1] != h:
                    mism.append(s)
            except Exception:  # noqa: BLE001
                mism.append(s)

    def tot(k):
        m = {}
        for r in res:
            for a, b in r[k].items():
                m[a] = m.get(a, 0) + b
        return dict(sorted(m.items()))
    fired = tot("fired")
    distinct = sum(r["distinct"] for r in res)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": {
        "evaluations": runs, "distinct_nontrivial": distinct, "rule": RULE, "samples": [s for r in res for s in r["samples"]][:2],
        "oracle_comparisons": sum(r["compares"] for r in res), "operations": sum(r["ops"] for r in res),
        "runs_per_hour": int(runs / max(explore_s, 1e-3) * 3600), "seeds": "one seed per run, two executions each",
        "simulated_time": "none: no clock enters this property",
        "faults_fired": fired, "operations_by_kind": tot("stat"), "distinct_states": sum(r["states"] for r in res),
        "state_measure": "vectors of (operation or fault kind, capped count) per run, summed over workers",
        "runs_without_answer": errs, "determinism_sample": len(sample), "determinism_mismatches": len(mism),
        "real_components": REAL, "stubbed_components": STUB},
        "assumptions": ["CPython, numpy and pybind11 are correct", "reads of freed memory by uninstrumented code show as overwritten values or through ASan's interceptors",
                        "sampling: a clean batch is evidence for the explored runs only"],
        "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop}: {runs} runs, {distinct} distinct, {ev['coverage']['oracle_comparisons']} comparisons, faults {sum(fired.values())} of {len(fired)} kinds, {time.time() - t0:.1f}s")
    if reported:
        for p in reported:
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    if irre or mism or errs * 50 > runs or not runs:
        print(f"{prop}: irreproducible {irre}, determinism mismatches {mism[:5]}, no answer {errs} of {runs}", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
