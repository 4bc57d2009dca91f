"""Writes /verif/MANIFEST.json: one check per property that has a rule, the rest under not_applicable."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

VAL = "abstract interpretation of the source into gated value summaries, compared with the specification by random interpretation"
EFF = "abstract interpretation: effect and event analysis over all paths"
TECH = {
    "C04": VAL + " (heap links as typestate)",
    "C07": "abstract interpretation: order and multiplicity of effects along every path",
    "C13": EFF + " plus before/after comparison of the summarised heap",
    "C14": VAL + "; ownership (sharing) analysis as supporting evidence",
    "C15": EFF + " with ownership of caller-supplied storage",
    "C17": "abstract interpretation: order and multiplicity of effects along every path; value summaries of recorded series",
    "C22": "who-may-call rule for random sources over the resolved program; abstract interpretation of the prefetching samplers",
    "C23": "resolved-reference analysis: names, members, parameters and calls checked against the abstract heap of every public function",
    "C29": "abstract interpretation with constant folding of the retention test: order and multiplicity of recording effects",
    "C31": "abstract interpretation of the proposers into gated value summaries; exact enumeration of their discrete draws on the value graph",
    "C32": "abstract interpretation: path completion (every path re-entering the same call is reported), value summaries of the completed paths",
    "C24": "abstract interpretation: reachable exceptions and their guards (exception-path analysis)",
}
NOTE = ("Decides the property for the code of /repo's working tree without running it: sa/interp.py interprets the syntax tree of the package over symbolic "
        "inputs (joins at every branch, summaries for loops over rows), sa/evalt.py compares the summarised result with the specification on random valuations "
        "of the symbols (one-sided error: a reported violation is a concrete valuation of the code's own value graph). "
        "Bounded: small numbers of trees, chains, folds and sweeps, and matrices of a few rows and columns per obligation, listed in the evidence; "
        "numpy, scipy, pandas, sklearn, joblib are trusted as modelled in sa/lib.py. Obligations the interpreter cannot decide are counted as undecided, never as violations.")
EXTRA = {
    "C13": " Caches that only remember what would be recomputed are allowed.",
    "C14": " Sharing between a snapshot and the live model is reported only when a value read back later differs.",
    "C22": " Statistical quality of numpy's generator is out of scope.",
    "C23": " Covers the package's own objects; members of third-party objects are checked only where modelled.",
}
NA = {
    "C26": "convergence and calibration are properties of the limit distribution of a Markov chain; no sound static argument in reach bounds it (the kernel's ingredients are decided by C09-C12)",
    "C27": "termination depends on runtime values (a tree sampler retries until a random choice succeeds); no static ranking argument holds, and with one move probability set to zero it does not hold (data without any usable split are decided by C32)",
    "C28": "overflow and NaN depend on the magnitudes of runtime floating-point values; a sound interval analysis from unbounded inputs cannot exclude them",
}


def main():
    rules = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "sa", "rules")) if f[0] == "c" and f[1:3].isdigit())
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
    for p in props:
        if p in rules:
            m["checks"].append({"property": p, "quick_cmd": "python3-vt check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % p,
                                "technique": TECH.get(p, VAL), "level": "other", "level_note": NOTE + EXTRA.get(p, "")})
        else:
            m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check built yet")})
    m["notes"] = "No hooks in /repo. Repairs of genuine defects are the fix: commits listed in known_findings.txt."
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")


if __name__ == "__main__":
    main()
