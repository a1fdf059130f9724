"""C10: a parsed model simulates exactly the system its file describes."""
import json

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from harness import jsonmodel as jm, sim
from harness.core import Info, Sub, close, need

import src.mtl as mtl

ASSUMPTIONS = [
    "1-3 bundles, up to 3 levels, 1-2 cables per level, 1-2 conductors per cable, 2-5 cells, 4-15 steps",
    "every termination or junction holds whole cable ends; sources at resistive or reactive branches only",
    "the system by hand is built through MTL, MTLD, Network and MTLN, which the other properties judge",
    "waveform functions are those of src/waveforms.py, which C16 judges; here only that each value reaches its parameter",
    "a source at a junction acts in series with its branch, positive towards the first node of the pair",
]


def compare(M, A, B, what):
    need(len(A) == len(B), "%s: %d probes, expected %d" % (what, len(A), len(B)))
    peak = {}
    for p, b in zip(M["probes"], B):
        peak[p["type"]] = max(peak.get(p["type"], 1e-300), np.max(np.abs(b.val)))
    for i, (p, a, b) in enumerate(zip(M["probes"], A, B)):
        close(a.t, b.t, "%s: times of probe %d" % (what, i), 1e-9)
        # a weakly coupled conductor is judged on its own scale, down to the rounding of the strongest one
        own = np.max(np.abs(b.val), axis=0)[None, :] * np.ones_like(b.val)
        scale = 2e-3 * peak[p["type"]] if jm.has_shorts(M) else 1e-7 * own + 1e-12 * peak[p["type"]]
        close(a.val, b.val, "%s: %s of probe %d" % (what, p["type"], i), 1.0, scale=scale)
    return max(peak.values())


def run(M):
    h = jm.run_hand(M)
    p = jm.run_file(M)
    names = ["probe%d" % i for i in range(len(M["probes"]))]
    need(sorted(p.probes) == sorted(names), "probes %s, expected %s" % (sorted(p.probes), names))
    need(len(p.bundles) == len(M["bundles"]), "%d bundles, expected %d" % (len(p.bundles), len(M["bundles"])))
    x = compare(M, [p.probes[n] for n in names], h.probes, "model file")
    return Info(x > 1e-200, jm.classes(M))


# ---- runs with an external field ----------------------------------------------------------------------------------

@st.composite
def field_case(draw):
    # the separations are given once for all bundles: they must agree in size
    M = draw(jm.model(max_bundles=1, steps_max=8, max_cells=4))
    b = M["bundles"][0]
    n, N = b["levels"][0][0]["n"], sum(b["ndiv"])
    i = draw(st.integers(0, N - 1))
    return {"M": M, "A": [draw(st.sampled_from([0.0, 1.0, -2.0])) for _ in range(3)], "t0": draw(st.integers(0, 5)),
            "grad": [draw(st.sampled_from([0.0, 0.0, 1.0])) for _ in range(3)],
            "h": [[[draw(st.sampled_from([0.0, 0.01, -0.02])) for _ in range(3)] for _ in range(N + 1)] for _ in range(n)],
            "local": [i, draw(st.integers(i + 1, N))] if draw(st.booleans()) else None}


def field(c, dt):
    x, y, z, t = sp.symbols("x y z t")
    g = sp.exp(-((t - c["t0"] * dt) / (2 * dt)) ** 2) * (1 + c["grad"][0] * x + c["grad"][1] * y + c["grad"][2] * z)
    return mtl.Field(*[a * g for a in c["A"]])


def run_field(c):
    M = c["M"]
    dt0 = jm.model_dt(M)
    d = np.array(c["h"])
    b = M["bundles"][0]
    u, _ = sim.grid(b)
    loc = None if c["local"] is None else [u[k].copy() for k in c["local"]]
    h = jm.build_hand(M)
    h.m.add_external_field(field(c, dt0), d) if loc is None else \
        h.m.add_localized_external_field(b["name"], field(c, dt0), d, loc)
    T = sim.until(M["steps"], h.dt)
    h.m.run_until(T) if M["dt"] is None else h.m.run_until(T, dt=h.dt)
    p = jm.parse(json.dumps(jm.write(M)))
    dt = 0 if M["dt"] is None else h.dt
    if loc is None:
        p.runWithExternalField(T, dt, field(c, dt0), d)
    else:
        p.runWithLocalizedExternalField(T, dt, p.bundles[0].name, field(c, dt0), d, loc)
    x = compare(M, [p.probes["probe%d" % i] for i in range(len(M["probes"]))], h.probes, "model file in a field")
    lit = any(c["A"]) and np.any(d)
    return Info(x > 1e-200 and lit, ["local" if loc else "everywhere"] + (["lit"] if lit else []))


SUBS = [Sub("model", jm.model, run, 1200, 12000, "some source drove a probe"),
        Sub("field", field_case, run_field, 480, 2400, "the field is not zero and something was recorded")]
