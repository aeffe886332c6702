#!/usr/bin/env python3
"""explain.py HISTORIES.ndjson MODULE [n]: re-check histories and show where rejected ones stop"""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vcommon as v
w = v.Work("explain"); w.prop = "explain"
try:
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 5
    c, rej, g, d = v.validate(w, sys.argv[2], sys.argv[1])
    for name, at, of in rej[:n]:
        h, e, o = v.explain(sys.argv[1], name, at)
        print("==", name, at, of, "EVENT", e); print("   OP", str(o)[:900])
        if len(sys.argv) > 4:
            for i, x in enumerate(h["ev"][max(0, at-int(sys.argv[4])):at]):
                print("     ", x["e"], x["t"], x["o"], str(h["ops"][x["o"]-1] if x["e"]=="inv" else ("" if x["o"] else x))[:300])
finally:
    w.close()
