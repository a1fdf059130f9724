"""C15: a localized field drive acts over exactly its extent."""
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import block_diag

from harness import gen, kirchhoff as kh, sim, system as sy
from harness.core import Info, Sub, need

ASSUMPTIONS = [
    "in each step a cell sees the mean of the drive half a step before and half a step after the step's start",
    "start and end are given in the running order of the line",
]


@st.composite
def point(draw, N):
    return [draw(st.integers(0, N - 1)), draw(st.sampled_from([0.0, 0.0, 1.0, 0.5, 0.25, 0.9, 0.37, 0.04]))]


@st.composite
def case(draw):
    S = draw(sy.system(max_bundles=2, max_levels=2, steps_max=12, max_cells=7, zt=False, disp=False, shorts=False))
    drives = []
    for _ in range(draw(st.integers(1, 3))):
        bi = draw(st.integers(0, len(S["bundles"]) - 1))
        b = S["bundles"][bi]
        N = sum(b["ndiv"])
        p, q = sorted([draw(point(N)), draw(point(N))], key=lambda x: x[0] + x[1])
        drives.append({"b": bi, "p": p, "q": q, "c": draw(st.integers(0, sum(sy.n_of_levels(b)) - 1)),
                       "w": draw(gen.wave(S["steps"])), "z": draw(st.booleans()),
                       "t": draw(st.sampled_from(["localized efield drive", "localized efield drive", "efield", "Planewave"]))})
    return {"S": S, "drives": drives, "dt": draw(st.sampled_from([None, None, 0.7]))}


def run(c):
    S = c["S"]
    dt = sy.system_dt(S) * (c["dt"] or 1.0)
    req = None if c["dt"] is None else dt
    r = sy.build_system(S, req)
    T = S["steps"]
    emf = {}
    cls = set()
    tm = np.arange(T) * dt
    for d in c["drives"]:
        b = S["bundles"][d["b"]]
        u, du = sim.grid(b)
        pos = [u[k] + f * (u[k + 1] - u[k]) for k, f in (d["p"], d["q"])]
        f = sim.wavefn(d["w"], dt)
        arg = [sim.place_arg(u, p, d["z"]) for p in pos]
        if d["z"] and sim.on_axis(u):
            cls.add("float")
        r.mds[d["b"]].add_localized_longitudinal_field(arg[0], arg[1], d["c"], f, d["t"])
        e = np.array([0.5 * (f(t + dt / 2) + f(t - dt / 2)) for t in tm])
        x = emf.setdefault(d["b"], np.zeros((T, sum(sy.n_of_levels(b)), len(du))))
        part = {}
        for k in range(len(du)):
            lo, hi = max(0.0, sum(d["p"]) - k), min(1.0, sum(d["q"]) - k)
            if hi - lo > 1e-6:
                part[k] = hi - lo
        for k, fr in part.items():
            x[:, d["c"], k] += e * fr / (len(part) if d["t"] == "Planewave" else 1)
        cls.add(d["t"].split()[0])
        cls.add("same_cell" if d["p"][0] == d["q"][0] else "span")
        cls.add("partial" if d["p"][1] % 1 or d["q"][1] % 1 else "grid_nodes")
        if len(b["ndiv"]) > 1:
            cls.add("bent")
    r.m.run_until(sim.until(T, dt)) if req is None else r.m.run_until(sim.until(T, dt), dt=req)
    big = 0.0
    for bi, b in enumerate(S["bundles"]):
        V, I = r.rec[bi].history()
        need(len(V) == T + 1, "wrong number of rows")
        du = sim.grid(b)[1]
        ls = [s for lv in b["levels"] for s in lv]
        L, R = block_diag(*[sim.arr(s["L"]) for s in ls]), block_diag(*[sim.mat(s["R"], s["n"]) for s in ls])
        C, G = block_diag(*[sim.arr(s["C"]) for s in ls]), block_diag(*[sim.mat(s["G"], s["n"]) for s in ls])
        x = emf.get(bi, np.zeros((T, len(L), len(du))))
        kh.cells(V, I, du, dt, L, R, "voltage law with the drive's field in bundle %d" % bi, extra=x)
        kh.interior(V, I, du, dt, C, G)
        big = max(big, np.max(np.abs(x)))
    if len(c["drives"]) > 1:
        cls.add("several")
    return Info(big > 0, sorted(cls))


SUBS = [Sub("extent", case, run, 2400, 16000, "some drive delivered a field")]
