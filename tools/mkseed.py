"""Builds a planted bug: mkseed.py SPEC.py ID...  (SPEC defines SEEDS: id -> dict).
Confirms in a scratch copy of /repo: the patch changes original lines, the demo
passes without and fails with it, the existing tests pass with it."""
import json, os, shutil, subprocess, sys, re
BASE = "0d1035f"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           MPLCONFIGDIR="/opt/mplcache", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")

def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)

def make(sid, s, check=True, tests=True):
    d = "/tmp/sd/w-" + sid
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d)
    for (f, old, new) in s["edits"]:
        p = d + "/allantools/" + f
        t = open(p).read()
        n = t.count(old)
        if n != 1 and not old.startswith("@"):
            return "%s: old text occurs %d times in %s" % (sid, n, f)
        open(p, "w").write(t.replace(old, new))
    diff = sh(["git", "-C", d, "diff"]).stdout
    for f, old, new in s["edits"]:
        orig = sh(["git", "-C", "/repo", "show", BASE + ":allantools/" + f]).stdout.splitlines()
    removed = [x[1:] for x in diff.splitlines() if x.startswith("-") and not x.startswith("---")]
    bad = [x for x in removed if x not in orig and x.strip()]
    if bad:
        return "%s: not an original line: %s" % (sid, bad)
    out = "/verif/seeded/" + sid
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                                      'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\nimport allantools\n" + s["demo"].strip() + "\n")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    a = sh(["bash", out + "/demo.sh"], cwd="/repo", env=ENV)
    b = sh(["bash", out + "/demo.sh"], cwd=d, env=ENV)
    msg = "%s %s: demo clean=%d patched=%d" % (sid, s["property"], a.returncode, b.returncode)
    ok = a.returncode == 0 and b.returncode != 0
    if a.returncode: msg += a.stderr[-500:]
    if ok and tests:
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-p", "no:xdist", "-x",
                "--randomly-seed=0", "--randomly-dont-reorganize", "tests"], cwd=d, env=ENV)
        last = r.stdout.strip().splitlines()[-1]
        fails = [x for x in r.stdout.splitlines() if x.startswith("FAILED")]
        msg += " | tests rc=%d %s %s" % (r.returncode, last, fails[:1])
        ok = ok and r.returncode == 0
    if check:
        r = sh([sys.executable, "/verif/sa/check.py", s["property"]], env=dict(os.environ, VERIF_REPO=d))
        msg += " | check rc=%d %s" % (r.returncode, "CAUGHT" if r.returncode == 1 else "missed")
    shutil.rmtree(d, ignore_errors=True)
    if not ok:
        shutil.rmtree(out, ignore_errors=True)
        msg += "  DROPPED"
    return msg

if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:] or sorted(ns["SEEDS"])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(7) as ex:
        for m in ex.map(lambda i: make(i, ns["SEEDS"][i]), ids):
            print(m, flush=True)
