#!/usr/bin/env python3
"""replay.py FILE: re-executes a replay file exactly (fresh build of /repo if needed) and reports what it violates."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
f = sys.argv[1]
if f.endswith(".pyplan"):
    import check_py
    sys.exit(check_py.replay_main(f))
import build, check  # noqa: E402
r = check.replay(build.build(), f, symbolize=True)
print(json.dumps({k: r.get(k) for k in ("hash", "violations", "fired")}, indent=1))
print((r.get("stderr") or "")[:3000])
sys.exit(2 if r.get("err") else 1 if r["violations"] else 0)
