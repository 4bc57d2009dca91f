"""Writes /verif/DESIGN.md."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {m["property"]: m["reason"] for m in json.load(open(HERE + "/MANIFEST.json"))["not_applicable"]}
out = [open(HERE + "/design/head.md").read()]
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
bounds = json.load(open(HERE + "/design/bounds.json"))
for p in props:
    i = p["id"]
    out.append("### %s %s\n\n" % (i, p["title"]))
    if i in NA:
        out.append("Not applicable: %s.\n\n" % NA[i])
        continue
    r = importlib.import_module("sa.rules." + i.lower())
    out.append(r.EXPLAIN.strip() + "\n\n")
    b = bounds.get(i, {})
    if b:
        out.append("*%s obligations, %s functions analysed, %s s (quick).*\n\n" % (b["obligations"], b["functions"], b["seconds"]))
catch = json.load(open(HERE + "/design/catch.json"))
out.append("## 3. Planted bugs\n\nEach passes the stable tests, has a demonstration that fails with it and passes without it (`seeded/<id>/`). "
           "%d of %d are caught by the check of their own property.\n\n| bug | what it breaks | needs | check |\n|---|---|---|---|\n" % (sum(c["result"] == "caught" for c in catch.values()), len(catch)))
for s, c in sorted(catch.items()):
    out.append("| %s | %s | %s | %s %s |\n" % (s, c["breaks"].replace("|", "/"), c["needs"].replace("|", "/"), c["property"], c["result"]))
out.append("\n" + open(HERE + "/design/robust.md").read() + "\n" + open(HERE + "/design/tail.md").read())
open(HERE + "/DESIGN.md", "w").write("".join(out))
