"""Confirms planted bugs. usage: plant.py SPEC.py [ID...]

SPEC.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new)], demo (python source), needs, breaks.
Each is tried in scratch copies of /repo: it must apply, pass the stable tests, and its demo must pass without it and fail with it.
What holds all that is written to /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor

OUT = "/verif/seeded"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nexport PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def copy(d):
    subprocess.check_call(["git", "clone", "-q", "/repo", d])


def tests(d):
    env = dict(ENV, PYTHONPATH=d)
    x = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "--tb=no", "-p", "no:cacheprovider", "--timeout=300", "-rA", "tests"], cwd=d, env=env, capture_output=True, text=True)
    fails = [l for l in x.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
    bad = []
    for l in fails:
        name = l.split()[1]
        if any(os.path.basename(name).split("::")[0][:-3] in s and name.split("::")[-1] in s for s in STABLE):
            bad.append(name)
    return bad


def one(s):
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        clean, bad, sd = tmp + "/clean", tmp + "/bad", tmp + "/demo"
        copy(clean); copy(bad); os.mkdir(sd)
        for f, old, new in s["edits"]:
            p = os.path.join(bad, "bartpy", f)
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], "REJECTED: %d matches of %r in %s" % (t.count(old), old[:60], f)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=bad, capture_output=True, text=True).stdout
        open(sd + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(sd + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(sd + "/demo.sh", 0o755)
        b = tests(bad)
        if b:
            return s["id"], "REJECTED: tests fail %s" % b[:3]
        r1 = subprocess.run(["bash", sd + "/demo.sh"], cwd=clean, env=ENV, capture_output=True, text=True)
        if r1.returncode != 0:
            return s["id"], "REJECTED: demo fails on the clean tree: %s" % (r1.stdout + r1.stderr)[-500:]
        r2 = subprocess.run(["bash", sd + "/demo.sh"], cwd=bad, env=ENV, capture_output=True, text=True)
        if r2.returncode == 0:
            return s["id"], "REJECTED: demo passes with the bug"
        o = os.path.join(OUT, s["id"])
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(sd + "/" + f, o + "/" + f)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        c = subprocess.run(["python3-vt", "/verif/check.py", s["property"], "--root", bad], capture_output=True, text=True)
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        return s["id"], "%s rc=%d %s | demo: %s" % ("CAUGHT" if c.returncode == 1 and v else "MISSED", c.returncode, s["property"], (r2.stdout + r2.stderr).strip().splitlines()[-1][:120])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    if sys.argv[2:]:
        seeds = [s for s in seeds if s["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(5) as ex:
        for i, r in ex.map(one, seeds):
            print(i, r, flush=True)


main()
