#!/usr/bin/env python3
"""Entry point of every check.

  run.py check C01             generated search (VERIF_SEED, VERIF_TIER in the environment)
  run.py replay FILE           re-run one saved case
  run.py selftest              import everything and run one case of each sub-check
"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from harness.env import PY, VERIF, worker_env  # noqa: E402


def reexec():
    """Run under the project's interpreter with a pinned environment."""
    if os.environ.get("VERIF_INNER") != "1":
        e = worker_env()
        e["VERIF_INNER"] = "1"
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], e)


def load_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)


def get_sub(prop, name):
    from harness.env import setup_path
    setup_path()
    mod = importlib.import_module("checks.%s" % prop.lower())
    for s in mod.SUBS + list(getattr(mod, "FINDING_SUBS", [])):
        if s.name == name:
            return s
    raise SystemExit("no sub-check %s in %s" % (name, prop))


def save_replay(prop, v):
    from harness.core import digest
    d = os.environ.get("VERIF_REPLAYS") or os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s.json" % (prop, v["sub"], digest(v["case"])))
    with open(p, "w") as f:
        json.dump({"property": prop, "sub": v["sub"], "case": v["case"], "message": v["message"]}, f, indent=1)
    return p


def regress(prop):
    """Plain replays of every committed regression case (library bypassed)."""
    from harness.core import evaluate
    d = os.path.join(VERIF, "regress", prop)
    n, bad = 0, []
    if os.path.isdir(d):
        for name in sorted(os.listdir(d)):
            with open(os.path.join(d, name)) as f:
                rec = json.load(f)
            kind, out = evaluate(get_sub(prop, rec["sub"]), rec["case"])
            n += 1
            if kind == "violation":
                bad.append({"sub": rec["sub"], "case": rec["case"], "message": out})
            elif kind == "invalid":
                raise SystemExit("regression case %s/%s is no longer valid: %s" % (prop, name, out))
    return n, bad


def findings(prop):
    from harness.core import evaluate
    for k in load_findings()["findings"]:
        if k["property"] != prop or k.get("status") != "known":
            continue
        kind, out = evaluate(get_sub(prop, k["sub"]), k["case"])
        if kind == "violation":
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            print("note: listed finding no longer reproduces: %s" % k["what"])


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    nsh = int(os.environ.get("VERIF_SHARDS", str(min(8, os.cpu_count() or 1))))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    from harness.env import setup_path
    setup_path()
    mod = importlib.import_module("checks.%s" % prop.lower())

    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    viol = []
    try:
        procs = []
        for k in range(nsh):
            out = os.path.join(tmp, "s%d" % k)
            args = [PY, "-m", "harness.worker", prop, str(k), str(nsh), tier, str(seed), out]
            if only:
                args.append(only)
            procs.append((k, out, subprocess.Popen(
                args, cwd=VERIF, env=worker_env(),
                stdout=open(out + ".log", "w"), stderr=subprocess.STDOUT)))
        nreg, viol = regress(prop)
        findings(prop)
        pending, rcs = list(procs), {}
        stopped = False
        while pending:
            for item in list(pending):
                rc = item[2].poll()
                if rc is not None:
                    rcs[item[0]] = rc
                    pending.remove(item)
            if os.path.exists(os.path.join(tmp, "any.stop")) and not stopped:
                stopped = True
                for k, out, p in procs:
                    open(out + ".stop", "w").close()
                tstop = time.time()
            if stopped and pending and time.time() - tstop > 40:
                for item in pending:
                    item[2].kill()
                    item[2].wait()
                    rcs[item[0]] = 0
                pending = []
            time.sleep(0.05)
        merged, errors, truncated = {}, [], False
        for k, out, p in procs:
            if os.path.exists(out):
                with open(out) as f:
                    for r in json.load(f):
                        m = merged.setdefault(r["name"], {"evaluations": 0, "invalid": 0, "nontrivial": set(),
                                                          "classes": {}, "samples": [], "wall": 0.0})
                        m["evaluations"] += r["evaluations"]
                        m["invalid"] += r["invalid"]
                        m["nontrivial"].update(r["nontrivial"])
                        m["samples"] += r["samples"]
                        m["wall"] = max(m["wall"], r["wall"])
                        truncated |= r["truncated"]
                        for c, n in r["classes"].items():
                            m["classes"][c] = m["classes"].get(c, 0) + n
                        if r["violation"]:
                            viol.append(r["violation"])
            elif not stopped or rcs.get(k, 0) != 0:
                errors.append((k, rcs.get(k), open(out + ".log").read()[-3000:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    rules = "; ".join("%s: %s" % (s.name, s.rule) for s in mod.SUBS)
    samples = []
    for name in sorted(merged):
        samples += merged[name]["samples"][:1]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(m["evaluations"] for m in merged.values()) + nreg,
            "distinct_nontrivial": sum(len(m["nontrivial"]) for m in merged.values()),
            "rule": "cases drawn by Hypothesis, one seed per (property, sub-check, shard); non-trivial means — " + rules,
            "samples": samples,
            "regression_cases": nreg,
            "by_sub": {n: {"evaluations": m["evaluations"], "distinct_nontrivial": len(m["nontrivial"]),
                           "invalid": m["invalid"], "classes": dict(sorted(m["classes"].items())),
                           "wall_s": round(m["wall"], 1)} for n, m in sorted(merged.items())},
            "truncated_by_time_budget": truncated,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n, m in sorted(ev["coverage"]["by_sub"].items()):
        print("%s.%s: %d cases, %d distinct non-trivial, %d outside domain, %.1fs %s" % (
            prop, n, m["evaluations"], m["distinct_nontrivial"], m["invalid"], m["wall_s"], m["classes"]))
    if viol:
        viol.sort(key=lambda v: (len(json.dumps(v["case"])), v["sub"]))
        done = set()
        for v in viol:
            if v["sub"] in done:
                continue
            done.add(v["sub"])
            print("  %s: %s" % (v["sub"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, save_replay(prop, v)))
        return 1
    if errors:
        for k, rc, log in errors:
            print("harness error in shard %s (rc %s):\n%s" % (k, rc, log))
        return 3
    print("%s held on everything explored: %d cases (%d distinct non-trivial), %.1fs" % (
        prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 0


def main():
    reexec()
    cmd = sys.argv[1]
    if cmd == "check":
        rc = check(sys.argv[2])
        sys.stdout.flush()
        os._exit(rc)
    if cmd == "replay":
        from harness.core import evaluate
        with open(sys.argv[2]) as f:
            rec = json.load(f)
        kind, out = evaluate(get_sub(rec["property"], rec["sub"]), rec["case"])
        print(kind, out if isinstance(out, str) else "")
        if kind == "violation":
            print("VIOLATION property=%s replay=%s" % (rec["property"], os.path.abspath(sys.argv[2])))
            sys.exit(1)
        sys.exit(0)
    if cmd == "selftest":
        from harness.env import setup_path
        setup_path()
        import hypothesis
        print("hypothesis", hypothesis.__version__)
        for name in sorted(os.listdir(os.path.join(VERIF, "checks"))):
            if name.endswith(".py") and name[0] == "c":
                m = importlib.import_module("checks." + name[:-3])
                print(name, [s.name for s in m.SUBS])
        sys.exit(0)
    raise SystemExit(__doc__)


if __name__ == "__main__":
    main()
