"""Runs every check's own property (and optionally all checks) against every planted bug; writes design/catch.json.
usage: catch.py [ID...]"""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
OUT = V + "/design/catch.json"


def one(s):
    d = tempfile.mkdtemp(prefix="catch")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
        if subprocess.call(["git", "-C", d + "/r", "apply", "%s/seeded/%s/patch.diff" % (V, s)]) != 0:
            return s, {"result": "does not apply"}
        meta = json.load(open("%s/seeded/%s/meta.json" % (V, s)))
        p = meta["property"]
        c = subprocess.run(["python3-vt", V + "/check.py", p, "--root", d + "/r"], capture_output=True, text=True)
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        return s, {"property": p, "needs": meta["needs"], "breaks": meta["what_it_breaks"], "result": "caught" if c.returncode == 1 and v else "missed"}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    allseeds = sorted(os.listdir(V + "/seeded"))
    res = {k: v for k, v in res.items() if k in allseeds}
    with ThreadPoolExecutor(5) as ex:
        for s, r in ex.map(one, sys.argv[1:] or allseeds):
            res[s] = r
            if r["result"] != "caught":
                print(s, r, flush=True)
    json.dump(res, open(OUT, "w"), indent=1, sort_keys=True)
    print(len(res), "seeds", sum(r["result"] == "caught" for r in res.values()), "caught")


main()
