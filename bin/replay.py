#!/usr/bin/env python3
"""replay.py OUT.json: show a recorded violation and let TLC judge the recorded history again"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vcommon as v
r = json.load(open(sys.argv[1]))
if "history" not in r:
    print(json.dumps(r, indent=1)); sys.exit(0)
w = v.Work("replay"); w.prop = "replay"
try:
    p = w.path("h.ndjson"); open(p, "w").write(json.dumps(r["history"]) + "\n")
    c, rej, g, d = v.validate(w, r["spec"], p)
    h = r["history"]
    for name, at, of in rej:
        for i, x in enumerate(h["ev"][:at]):
            o = h["ops"][x["o"] - 1] if x.get("o") else x
            mark = "  <== refused" if i == at - 1 else ""
            print("%9d us %-5s op%-4d %s%s" % (x["t"], x["e"], x["o"], json.dumps({k: o[k] for k in o if k not in ("tinv", "tres") and (k != "r" or x["e"] == "res")}), mark))
    print("REFUSED" if rej else "ACCEPTED")
finally:
    w.close()
