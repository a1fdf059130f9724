"""C01: a line's recorded history satisfies the discrete telegrapher's equations and its terminations."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, kirchhoff as kh, sim
from harness.core import Info, Sub, need

ASSUMPTIONS = [
    "sources are sampled at the start of each step (one-step latency of the scheme is part of the contract)",
    "relative tolerance 1e-9 of the terms in each balance",
]


@st.composite
def case(draw):
    spec = draw(gen.line(max_n=3, max_cells=9))
    steps = draw(gen.count(3, 40))
    return {"line": spec, "steps": steps, "drives": draw(gen.drives(spec["n"], steps)),
            "dt": draw(st.sampled_from([None, None, 0.9, 0.5]))}


def run(c):
    s = c["line"]
    n = s["n"]
    dt = None if c["dt"] is None else c["dt"] * sim.cfl(s)
    line, u, du, dt, V, I, fns = sim.run_line(s, c["drives"], c["steps"], dt)
    need(V.shape == (c["steps"] + 1, n, len(u)), "history has shape %s" % (V.shape,))
    L, C, R, G = sim.arr(s["L"]), sim.arr(s["C"]), sim.mat(s["R"], n), sim.mat(s["G"], n)
    kh.cells(V, I, du, dt, L, R)
    kh.interior(V, I, du, dt, C, G)
    for side, z in (("S", s["Zs"]), ("L", s["Zl"])):
        kh.terminal(V, I, du, dt, C, G, sim.zmat(z, n), kh.source_samples(fns, side, n, c["steps"], dt), side,
                    "termination law at the %s end" % side)
    cls = ["n%d" % n, "seg%d" % len(s["ndiv"])]
    cls += ["R"] if s["R"] is not None else []
    cls += ["G"] if s["G"] is not None else []
    cls += ["unequal_ndiv"] if len(set(s["ndiv"])) > 1 else []
    cls += ["dt_set"] if c["dt"] is not None else []
    return Info(np.max(np.abs(I)) > 0, cls)


SUBS = [
    Sub("balance", case, run, 4800, 40000, "some current flowed"),
]
