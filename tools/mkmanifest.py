#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a monitor in harness/checks."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
cfg = json.load(open(os.path.join(H, "harness", "checks.json")))
TECH = {"plain": "runtime monitoring of randomized runs of the real code", "asan": "AddressSanitizer + UBSan monitoring of hostile workloads",
        "tsan": "ThreadSanitizer and output comparison on concurrent models"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in cfg and os.path.exists(os.path.join(H, "harness", "checks", i + ".cpp")):
        c = cfg[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "technique": c.get("technique") or TECH[c.get("mode", "plain")], "level": "exploration",
                       "level_note": c.get("note", "held on the randomized executions counted in the evidence file; says nothing about inputs not driven")})
    else:
        na.append({"property": i, "reason": "the monitor for this property is not finished yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "HYDROBRICKS_MONITOR", "enable": "harness/CMakeLists.txt compiles /repo/core/src with -DHYDROBRICKS_MONITOR",
               "source_commits": ["f5d7364", "3733113"]},
     "checks": checks, "not_applicable": na,
     "notes": "All checks build from /repo's working tree into /verif/build (git-ignored) and run with python3 run.py ID; see DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
