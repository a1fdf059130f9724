"""C11: the meaning of a model file does not depend on numbering, order or formatting."""
import json
import os
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks.c10 import compare
from harness import env, jsonmodel as jm, sim
from harness.core import Info, Sub, need

ASSUMPTIONS = [
    "models as in C10; one file is compared with 2 rewritings of it, or with itself under 3 hash seeds",
    "the order of nestedElemIds and elemIds is kept: it names the conductors; so is the order of the two nodes of a junction pair",
    "numbers are rewritten as integer, decimal or exponential text of the same double",
    "ideal shorts are 1e10 S in the code: models with shorts are compared to 2e-3 of the peak",
]


@st.composite
def case(draw):
    return {"M": draw(jm.model()), "styles": [draw(st.integers(1, 10 ** 6)) for _ in range(2)]}


def probes(M, p):
    names = ["probe%d" % i for i in range(len(M["probes"]))]
    need(sorted(p.probes) == sorted(names), "probes %s, expected %s" % (sorted(p.probes), names))
    return [p.probes[n] for n in names]


def run(c):
    M = c["M"]
    A = probes(M, jm.run_file(M))
    x = 0.0
    for s in c["styles"]:
        x = max(x, compare(M, probes(M, jm.run_file(M, s)), A, "rewritten file"))
    return Info(x > 1e-200, jm.classes(M))


# ---- the same file under other hash seeds -------------------------------------------------------------------------

CHILD = """
import sys, json
sys.path[:0] = [%r, %r]
from harness import env
env.setup_path()
import numpy as np
from src.jsonParser import Parser
out = []
for path, T, dt in json.load(open(sys.argv[1])):
    p = Parser(path)
    p.run(T) if dt is None else p.run(T, dt)
    out.append({k: [q.t.tolist(), q.val.tolist()] for k, q in p.probes.items()})
json.dump(out, open(sys.argv[2], "w"))
"""


class Rec:
    def __init__(self, x):
        self.t, self.val = np.array(x[0]), np.array(x[1])


@st.composite
def seed_case(draw):
    ms = draw(st.lists(jm.model(steps_max=8), min_size=3, max_size=8))
    return {"Ms": ms, "seeds": draw(st.lists(st.integers(0, 4294967295), min_size=3, max_size=3, unique=True))}


def run_seeds(c):
    with tempfile.TemporaryDirectory(prefix="verif_c11_") as d:
        jobs = []
        for i, M in enumerate(c["Ms"]):
            dt = jm.model_dt(M) * (M["dt"] or 1.0)
            f = os.path.join(d, "m%d.json" % i)
            with open(f, "w") as g:
                json.dump(jm.write(M), g)
            jobs.append([f, sim.until(M["steps"], dt), None if M["dt"] is None else dt])
        with open(os.path.join(d, "jobs"), "w") as g:
            json.dump(jobs, g)
        runs = []
        for s in c["seeds"]:
            e = dict(env.worker_env(), PYTHONHASHSEED=str(s))
            o = os.path.join(d, "out")
            r = subprocess.run([env.PY, "-c", CHILD % (env.REPO_PYTHON, env.VERIF), os.path.join(d, "jobs"), o], env=e,
                               capture_output=True, text=True)
            need(r.returncode == 0, "run under hash seed %d failed: %s" % (s, r.stderr.strip().splitlines()[-1:]))
            runs.append(json.load(open(o)))
            os.unlink(o)
    x = 0.0
    for k, M in enumerate(c["Ms"]):
        recs = []
        for r in runs:
            names = ["probe%d" % i for i in range(len(M["probes"]))]
            need(sorted(r[k]) == sorted(names), "probes %s, expected %s" % (sorted(r[k]), names))
            recs.append([Rec(r[k][n]) for n in names])
        for r in recs[1:]:
            x = max(x, compare(M, r, recs[0], "file under another hash seed"))
    return Info(x > 1e-200, ["models%d" % len(c["Ms"])])


SUBS = [Sub("rewrite", case, run, 500, 8000, "some source drove a probe"),
        Sub("hashseed", seed_case, run_seeds, 24, 240, "some source drove a probe")]
