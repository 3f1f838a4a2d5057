#!/usr/bin/env python3
# Writes MANIFEST.json. A property not in CHECKS must be in NA.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
EXPL = "stateless model checking of the real code: exhaustive deviation-bounded exploration of goroutine schedules, timer orders and enumerated faults under a controlled scheduler in a patched Go runtime"
ENUM = "exhaustive enumeration of inputs/operation sequences within stated bounds, executed on the real code under a controlled scheduler and compared with a reference model"
exec(open(os.path.join(root, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        tech, note = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA[i]})
m = {"version": 1, "setup_cmd": "go version", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Nothing is prebuilt: every check instruments and compiles /repo's working tree itself (about 20 s)."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
