#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    s = PROPS[i]
    specs = sorted({p["module"] for p in s["parts"]} | {m["module"] for m in s.get("models", [])})
    checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                   "technique": "TLA+ specification (%s) checked with TLC; trace validation of histories recorded from the real code" % ", ".join(specs),
                   "level": "model_checking",
                   "level_note": s.get("note", "TLC checks the specification exhaustively within the bounds of its configurations; the code is bound to it by validating every recorded history (exact for the histories run, sampled over schedules and inputs).")})
na = [{"property": i, "reason": "the check is not built yet"} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Language: TLA+ with TLC. The conformance driver (harness/) is compiled into the willow module with go build -overlay from /repo's working tree on every run; no hooks are needed in /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
