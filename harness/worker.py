"""One shard of one property's check.  Usage: python -m harness.worker PROP SHARD NSHARDS TIER SEED OUT [SUB]"""
import importlib
import json
import os
import sys
import time
import zlib

from .env import setup_path

setup_path()

from .core import Violation, canon, digest, evaluate  # noqa: E402

SHRINK_S = 25.0         # wall budget for shrinking one failure
SHRINK_EVALS = 400


class _Stop(BaseException):
    """Ends a Hypothesis run from inside the test (not an Exception on purpose)."""


def run_sub(prop, sub, shard, nshards, tier, seed, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    total = sub.quick if tier == "quick" else sub.thorough
    total = max(1, int(total * float(os.environ.get("VERIF_SCALE", "1"))))
    n = total // nshards + (1 if shard < total % nshards else 0)
    res = {"name": sub.name, "evaluations": 0, "invalid": 0, "nontrivial": [], "classes": {},
           "samples": [], "violation": None, "truncated": False}
    if n == 0:
        return res
    st = {"best": None, "t0": None, "evals": 0}
    seen = set()
    s = zlib.crc32(("%s/%s/%d/%d" % (prop, sub.name, shard, seed)).encode())

    def body(case):
        if st["best"] is None and time.time() > deadline:
            res["truncated"] = True
            raise _Stop()
        if st["best"] is not None:
            st["evals"] += 1
            if st["evals"] > SHRINK_EVALS or time.time() - st["t0"] > SHRINK_S:
                raise _Stop()
        kind, out = evaluate(sub, case)
        if st["best"] is None:
            res["evaluations"] += 1
        if kind == "invalid":
            res["invalid"] += 1
            return
        if kind == "violation":
            c = canon(case)
            if st["best"] is None:
                st["t0"] = time.time()
                st["best"] = (len(c), case, out)
            elif len(c) <= st["best"][0]:
                st["best"] = (len(c), case, out)
            raise Violation(out)
        if st["best"] is None:
            for k in out.classes:
                res["classes"][k] = res["classes"].get(k, 0) + 1
            if out.nontrivial:
                d = digest(case)
                if d not in seen:
                    seen.add(d)
                    res["nontrivial"].append(d)
                    if len(res["samples"]) < 1 and len(seen) >= min(3, n):
                        res["samples"].append({"sub": sub.name, "case": case, "note": out.note})

    test = given(sub.strategy())(body)
    test = hypothesis.seed(s)(settings(
        max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
        report_multiple_bugs=False, phases=[Phase.generate, Phase.shrink],
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                               HealthCheck.large_base_example])(test))
    try:
        test()
    except _Stop:
        pass
    except Violation:
        pass
    except Exception as e:
        # Hypothesis reports a failure that did not reproduce as Flaky; the recorded case stands.
        if st["best"] is None or "Flaky" not in type(e).__name__:
            raise
    if st["best"] is not None:
        res["violation"] = {"sub": sub.name, "case": st["best"][1], "message": st["best"][2]}
    return res


def main():
    prop, shard, nshards, tier, seed, out = sys.argv[1:7]
    only = sys.argv[7] if len(sys.argv) > 7 else None
    shard, nshards, seed = int(shard), int(nshards), int(seed)
    mod = importlib.import_module("checks.%s" % prop.lower())
    budget = float(os.environ.get("VERIF_BUDGET_S", "420" if tier == "quick" else "3000"))
    deadline = time.time() + budget
    results = []
    subs = [s for s in mod.SUBS if only is None or s.name == only]
    stop = out + ".stop"
    for sub in subs:
        if os.path.exists(stop):
            break
        t = time.time()
        r = run_sub(prop, sub, shard, nshards, tier, seed, deadline)
        r["wall"] = time.time() - t
        results.append(r)
        if r["violation"]:
            open(os.path.join(os.path.dirname(out), "any.stop"), "w").close()
            break
    with open(out + ".tmp", "w") as f:
        json.dump(results, f)
    os.rename(out + ".tmp", out)


if __name__ == "__main__":
    main()
