"""Writes design/bounds.json from the evidence of the last run of every check."""
import glob, json
d = {}
for f in glob.glob("/verif/evidence/C??.json"):
    e = json.load(open(f)); c = e["coverage"]
    d[e["property"]] = {"obligations": c["obligations"], "functions": c["functions_analysed"], "seconds": max(1, round(e["wall_s"]))}
json.dump(dict(sorted(d.items())), open("/verif/design/bounds.json", "w"), indent=0)
