#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property: model-checks the specification, runs the real code (the conformance driver is compiled
from /repo's working tree) and lets TLC decide whether the specification explains what the code did."""
import json, os, re, sys, time, random, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vcommon as v
from vcommon import log, Violation, CheckError
from props import PROPS

LEVEL = "model_checking"


def known_findings(prop):
    p = os.path.join(v.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop and f["status"] == "known"]


def sample(path, k=1, maxops=8):
    out = []
    for i, line in enumerate(open(path)):
        if i >= k:
            break
        h = json.loads(line)
        out.append({"history": h["name"], "cfg": h["cfg"], "events": len(h["ev"]),
                    "first_operations": [{x: o[x] for x in o if x not in ("tinv", "tres")} for o in h["ops"][:maxops]]})
    return out


def report(prop, module, path, rej):
    """write one replay file per check: the first rejected history, with the event the specification refuses"""
    name, at, of = sorted(rej, key=lambda r: r[1])[0]
    h, e, o = v.explain(path, name, at)
    rp = v.save_replay(prop, name, {
        "property": prop, "spec": module, "rejected_history": name,
        "rejected_event_index": at, "event": e, "operation": o,
        "how_to_replay": "python3 bin/replay.py %s" % os.path.join("out", prop, name + ".json"),
        "other_rejected": [r[0] for r in rej[1:20]], "history": h})
    raise Violation("%s: no behaviour of the specification explains event %d of history %s: %s -> %s" % (
        module, at, name, {k: o.get(k) for k in o if k not in ("r", "tinv", "tres")},
        json.dumps(o.get("r"))[:300] if e.get("e") == "res" else e.get("e")), rp)


def run(prop, tier):
    spec = PROPS[prop]
    w = v.Work(prop)
    w.prop = prop
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "models": [], "drivers": []}
    seed = v.SEED
    kfs = known_findings(prop)
    seen_kf = set()
    try:
        # 1. the specification itself
        for m in spec.get("models", []):
            if m.get("tier", "quick") == "thorough" and tier != "thorough":
                continue
            st = v.model(w, m["module"], m.get("thorough_cfg", m["cfg"]) if tier == "thorough" else m["cfg"],
                         extra=m.get("extra", ()), workers=m.get("workers", 8), violates=m.get("violates"))
            cov["states"] += st[1]
            cov["transitions"] += st[0]
            cov["models"].append({"module": m["module"], "cfg": m["cfg"], "distinct_states": st[1], "exhaustive": not m.get("extra")})
        # 2. the real code against the specification
        binary = v.build(w)
        racebin = None
        rounds = spec.get("rounds", 4) if tier == "thorough" else 1
        for rd in range(rounds):
            for part in spec["parts"]:
                if part.get("tier", "quick") == "thorough" and tier != "thorough":
                    continue
                n = part["n"] if tier == "quick" else part.get("nt", part["n"] * 4)
                b = binary
                if part.get("race"):
                    racebin = racebin or v.build(w, race=True)
                    b = racebin
                infile = None
                if part.get("gen"):
                    infile = v.generate(w, part["gen"], n, seed + rd)
                path, stats = v.run_driver(w, b, part["driver"], part["workload"], n, seed + 1000 * rd, tier, infile=infile,
                                           budget=part.get("budget", 300))
                checked, rej, gen, dist = v.validate(w, part["module"], path)
                cov["states"] += dist
                cov["transitions"] += gen
                cov["traces_validated_against_impl"] += checked - len(rej)
                if rd == 0:
                    cov["drivers"].append({"driver": part["driver"], "workload": part["workload"], "spec": part["module"], **stats})
                    cov["samples"] += sample(path)
                bad = []
                for r in rej:
                    kf = [f for f in kfs if re.search(f["match"], r[0])]
                    if kf:
                        seen_kf.add(kf[0]["id"])
                    else:
                        bad.append(r)
                if bad:
                    report(prop, part["module"], path, bad)
                # 3. the binding is not vacuous: corrupted histories must be refused
                if tier == "thorough" and rd == 0 and part.get("mutate", True):
                    m, refused = v.mutation_selftest(w, part["module"], path, seed)
                    cov.setdefault("corrupted_histories", 0)
                    cov.setdefault("corrupted_histories_refused", 0)
                    cov["corrupted_histories"] += m
                    cov["corrupted_histories_refused"] += refused
                os.unlink(path)
        return cov, 0, None, [f for f in kfs if f["id"] in seen_kf]
    except Violation as e:
        return cov, 1, e, []
    finally:
        w.close()


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else v.TIER
    t = time.time()
    try:
        cov, bad, viol, kfs = run(prop, tier)
    except CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (prop, e))
        sys.exit(2)
    ev = {"property": prop, "tier": tier, "seed": v.SEED, "level": LEVEL, "coverage": cov,
          "assumptions": PROPS[prop].get("assumptions", []), "wall_s": round(time.time() - t, 2), "violations": bad}
    if not cov["samples"]:
        cov["samples"] = [{"note": "no history was completed before the violation", "what": viol.what if viol else ""}]
    os.makedirs(os.path.join(v.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(v.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for f in kfs:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if viol:
        print(viol.what)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(viol.replay, v.VERIF)))
        sys.exit(1)
    print("OK property=%s states=%d traces=%d wall=%.1fs" % (prop, cov["states"], cov["traces_validated_against_impl"], ev["wall_s"]))


main()
