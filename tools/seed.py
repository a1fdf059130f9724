#!/usr/bin/env python3
"""Try planted bugs in scratch copies of /repo (development aid).

  seed.py ID...      for each: patch applies, demo 0 -> nonzero, stable tests pass, the property's check reports it
  seed.py --check ID only the property's check       --all: every check, to say which report it
"""
import json, os, subprocess, sys, time, shutil, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **k):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return p.returncode, p.stdout


def missing(w):
    rc, out = sh(". /opt/vp/env.sh; export PYTHONPATH=%s/python PYTHONDONTWRITEBYTECODE=1; $PY -m pytest -q -p no:cacheprovider -n 6 --timeout=300 "
                 "--continue-on-collection-errors --tb=line --disable-warnings -o junit_family=xunit2 --junitxml=%s/junit.xml python/test; "
                 "/usr/bin/python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml" % (w, w, w, w), cwd=w)
    return sorted(STABLE - set(json.load(open(w + "/out.json"))["passed"]))


only, every = "--check" in sys.argv, "--all" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    res = {}
    w = tempfile.mkdtemp(prefix="sd_")
    try:
        sh("cp -a /repo/. %s && git -C %s checkout -- ." % (w, w))
        if not only:
            res["demo0"] = sh("bash %s/demo.sh" % d, cwd=w)[0]
        rc, out = sh("git -C %s apply %s/patch.diff" % (w, d))
        res["apply"] = rc
        if rc == 0:
            if not only:
                res["demo1"] = sh("bash %s/demo.sh" % d, cwd=w)[0]
                res["missing"] = missing(w)
            for c in (["C%02d" % k for k in range(1, 22)] if every else [meta["property"]]):
                t = time.time()
                rc, out = sh("VERIF_REPO_PYTHON=%s/python VERIF_EVIDENCE=%s VERIF_REPLAYS=%s VERIF_SEED=1 VERIF_TIER=quick python3 run.py check %s"
                             % (w, w + "/.ev", w + "/.rp", c), cwd=V)
                res[c] = (rc, round(time.time() - t))
                lines = [l for l in out.splitlines() if "VIOLATION" in l]
                if rc not in (0, 1):
                    print(out[-2000:])
                if lines and c == meta["property"]:
                    print("   ", [l for l in out.splitlines() if l.strip() and "VIOLATION" not in l and "cases" not in l][:3])
    finally:
        shutil.rmtree(w)
    ok = (only or (res["demo0"] == 0 and res.get("demo1"))) and res.get(meta["property"], (9,))[0] == 1 and not res.get("missing")
    print(i, meta["property"], "OK " if ok else "***", res, flush=True)
