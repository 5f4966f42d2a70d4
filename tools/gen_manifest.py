#!/usr/bin/env python3
# Writes MANIFEST.json from props.py, properties.jsonl and the reasons below.
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from props import PROPS
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with seeded fault injection", "level": "exploration",
        "level_note": "Seeded search over schedules and faults of the real code in one process, each run repeatable from its seed; oracle: " + p["oracle"] + ". Assumes: " + "; ".join(p["assumptions"]) + "."})
na = [{"property": i, "reason": NA.get(i, "No check yet.")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks, "not_applicable": na,
 "notes": "No hooks were needed in /repo: the seams are the compiler's memory-access instrumentation, the pthread/clock/allocator symbols, and the library's own template parameters, so the shipped code is simulated unchanged. Replay a finding with build/<hash>/<binary> --replay FILE [-v]."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
