"""C09: lumped dispersive elements."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import dispersive as dp, gen, kirchhoff as kh, sim, system as sy
from harness.core import Info, Sub, need

ASSUMPTIONS = [
    "the element sits in the cell that starts at the grid node nearest to its position (the last cell for the end node)",
    "convolutions are evaluated for currents linear within each step; complex poles come in conjugate pairs",
]


@st.composite
def case(draw):
    spec = draw(gen.line(max_n=3, max_cells=7))
    steps = draw(gen.count(4, 40))
    N = sum(spec["ndiv"])
    els, used = [], set()
    for _ in range(draw(st.integers(1, 3))):
        node = draw(st.integers(0, N))
        c = draw(st.integers(0, spec["n"] - 1))
        cell = min(node, N - 1)
        if (cell, c) in used:
            continue
        used.add((cell, c))
        els.append({"node": node, "off": draw(st.sampled_from([0.0, 0.0, 0.3])) if node < N else 0.0,
                    "c": c, "m": draw(sy.model())})
    return {"line": spec, "steps": steps, "drives": draw(gen.drives(spec["n"], steps)), "els": els,
            "dt": draw(st.sampled_from([None, None, 0.9, 0.5])), "mode": draw(st.sampled_from(["line", "line", "bundle"]))}


def run(c):
    s = c["line"]
    n, N = s["n"], sum(s["ndiv"])
    u, du = sim.grid(s)
    dt = sim.cfl(s) * (c["dt"] or 1.0)
    line = sim.build_mtl(s)
    for e in c["els"]:
        k = e["node"]
        pos = u[k].copy() if e["off"] == 0.0 else u[k] + e["off"] * min(du[k], du[k - 1] if k else du[k]) / du[k] * (u[k + 1] - u[k])
        line.add_dispersive_connector(pos, e["c"], copy.deepcopy(e["m"]))
    if c["mode"] == "line":
        if c["dt"] is not None:
            line.set_time_step(1, dt)
        fns = sim.add_drives(line, u, c["drives"], dt)
        rec = sim.Recorder(line, u)
        line.run_until(sim.until(c["steps"], dt))
    else:
        S = bundle_system(c)
        md = sy.mtl.MTLD({0: [line]}, name="b0")
        nets = [sy.build_net(x, [md], [{0: [line]}], dt) for x in S["nets"]]
        m = sy.mtln.MTLN([md], nets)
        rec = sim.Recorder(md, u)
        m.run_until(sim.until(c["steps"], dt), **({} if c["dt"] is None else {"dt": dt}))
    V, I = rec.history()
    extra, mag = np.zeros((c["steps"], n, N)), np.zeros((c["steps"], n, N))
    used = {}
    for e in c["els"]:
        k = min(e["node"], N - 1)
        d, g = dp.drop(e["m"], I[:, e["c"], k], dt)
        extra[:, e["c"], k] += d / du[k]
        mag[:, e["c"], k] += g / du[k]
        used[(k, e["c"])] = e
    L, R = sim.arr(s["L"]), sim.mat(s["R"], n)
    I1, I0 = I[1:], I[:-1]
    parts = [kh.mul(L, I1) / dt, -kh.mul(L, I0) / dt, kh.mul(R, I1) / 2, kh.mul(R, I0) / 2,
             V[1:, :, 1:] / du, -V[1:, :, :-1] / du]
    r, sc = kh.terms(*parts)
    kh.check(r + extra, sc + mag, "voltage law of a cell with a lumped element", 1e-7,
             np.max(np.abs(V)) / np.min(du))
    kh.interior(V, I, du, dt, sim.arr(s["C"]), sim.mat(s["G"], n), tol=1e-7)
    cls = ["mode_" + c["mode"], "els%d" % len(c["els"])]
    for e in c["els"]:
        m = e["m"]
        cls += (["cte"] if m["cte"] else []) + (["prop"] if m["prop"] else []) + ["poles%d" % len(m["poles"]["real"])]
        cls += ["complex"] if any(m["poles"]["imag"]) else []
        cls += ["end_node"] if e["node"] == N else []
    return Info(np.max(np.abs(extra)) > 1e-9 * np.max(np.abs(V)) / np.max(du), sorted(set(cls)))


def bundle_system(c):
    """Terminations of the same line, as networks (zero impedances become 50 ohm)."""
    s = c["line"]
    nets, nid = [], 0
    for side, z in (("S", s["Zs"]), ("L", s["Zl"])):
        ids = list(range(nid, nid + s["n"]))
        nid += s["n"]
        br = []
        for k, a in enumerate(ids):
            R = (z[k] if isinstance(z, list) else z) or 50.0
            b = {"t": "R", "a": a, "b": None, "R": R}
            w = [d["w"] for d in c["drives"] if d["c"] == k and d["e"] == side]
            if w:
                b["w"] = w[0]
            br.append(b)
        nets.append({"level": 0, "ends": [{"b": 0, "k": 0, "side": side, "ids": ids}], "br": br})
    return {"nets": nets}


SUBS = [Sub("drop", case, run, 3200, 20000, "an element's voltage was not negligible")]
