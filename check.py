#!/usr/bin/env python3-vt
"""Decide one property (or all) by static analysis of /repo's working tree.

usage: python3-vt check.py <property id> [--root DIR]
exit 0: held on everything analysed; 1: VIOLATION; 2: the check could not be carried out
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)


def known():
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                out.append(l[7:])
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    root = "/repo"
    if "--root" in sys.argv:
        root = sys.argv[sys.argv.index("--root") + 1]
        args = [a for a in args if a != root]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    from sa import harness
    harness.ROOT = root
    from sa.harness import Report, Missing
    rep = Report(prop, tier, seed)
    rule = importlib.import_module("sa.rules." + prop.lower())
    err = None
    try:
        rule.run(rep)
    except Missing as e:
        err = "anchor missing: %s" % e
    except SyntaxError as e:
        err = "source does not parse: %s" % e
    except Exception:
        err = traceback.format_exc()
    viol, found = [], []
    kn = known()
    for v in rep.violations:
        line = "property=%s %s %s" % (prop, v["rule"], v["where"])
        hit = [k for k in kn if k.startswith(line)]
        (found if hit else viol).append((v, hit))
    n_d = sum(1 for o in rep.obls if o["status"] == "discharged")
    n_v = sum(1 for o in rep.obls if o["status"] == "violated")
    n_u = sum(1 for o in rep.obls if o["status"] == "undecided")
    out = os.path.join(HERE, "evidence")
    os.makedirs(out, exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": rule.EXPLAIN.strip(),
            "obligations": len(rep.obls), "discharged": n_d, "violated": n_v, "undecided": n_u,
            "functions_analysed": len(rep.functions), "functions": sorted(rep.functions),
            "call_sites_resolved": rep.call_sites, "effect_events": rep.n_events,
            "valuations": rep.evaluations, "obligation_list": rep.obls, "samples": rep.samples,
            "error": err,
        },
        "assumptions": rep.assumptions + [
            "numpy, pandas, scipy, sklearn, joblib and tqdm behave as modelled in sa/lib.py and sa/evalt.py",
            "loops over collections of unknown length are analysed for at most %d iterations per summary" % 5,
        ],
        "wall_s": round(time.time() - t0, 3), "violations": len(viol),
    }
    with open(os.path.join(out, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for o in rep.obls:
        if o["status"] != "discharged" or "-v" in sys.argv[1:]:
            print("%-10s %6.1fs %s %s" % (o["status"].upper(), o["seconds"], o["name"], o.get("why", "")))
    print("%s: %d obligations, %d discharged, %d violated, %d undecided; %d functions, %d valuations, %.1fs" % (
        prop, len(rep.obls), n_d, n_v, n_u, len(rep.functions), rep.evaluations, time.time() - t0))
    for v, hit in found:
        print("KNOWN-FINDING: property=%s %s at %s: %s" % (prop, v["rule"], v["where"], v["message"]))
    if viol:
        rp = os.path.join(out, prop + ".violation.json")
        with open(rp, "w") as f:
            json.dump([v for v, _ in viol], f, indent=1, default=str)
        for v, _ in viol:
            print("  %s at %s: %s" % (v["rule"], v["where"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if err:
        print(err, file=sys.stderr)
        return 2
    if n_d == 0:
        print("nothing could be decided", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
