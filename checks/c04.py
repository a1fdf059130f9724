"""C04: passive systems never gain energy once their sources are silent."""
import copy

import numpy as np
from hypothesis import strategies as st
from scipy.linalg import block_diag

from harness import gen, kirchhoff as kh, sim, system as sy
from harness.core import Info, Sub, Violation, need

ASSUMPTIONS = [
    "stored energy is the scheme's own: V.C.V/2 over the nodes + I.L.I/2 over the cells at half a step earlier - dt/2 I.dV, "
    "which is non-negative up to the stability limit and loses exactly the resistive losses of each step",
    "systems with reactive or dispersive elements, whose own energy is not observable, are judged by their peak amplitude",
]


def energy(V, I, du, dt, C, L):
    """W[t] of the state (V at step t, I half a step later is the last one used: I[t-1/2] is recorded in row t-1)."""
    # row m of V is the voltage after step m; row m of I is the current computed after it.  State: V[m], I[m-1].
    d = np.concatenate([[du[0] / 2], 0.5 * (du[1:] + du[:-1]), [du[-1] / 2]])
    v, i = V[1:], I[:-1]
    return (0.5 * np.einsum("tnk,nm,tmk,k->t", v, C, v, d) + 0.5 * np.einsum("tnk,nm,tmk,k->t", i, L, i, du)
            - 0.5 * dt * np.einsum("tnk,tnk->t", i, v[:, :, 1:] - v[:, :, :-1]))


def judge(W, Ws, start, what):
    """W must not increase from row start on."""
    ref = np.max(W[max(0, start - 3):]) if len(W) > start else 0.0
    dW = np.diff(W[start:])
    tol = 1e-9 * np.maximum.accumulate(Ws)[start + 1:] if len(dW) else 0.0
    bad = np.nonzero(dW > tol)[0]
    if len(bad):
        k = int(bad[0])
        raise Violation("%s: stored energy grew from %.9g to %.9g in step %d with silent sources" % (
            what, W[start + k], W[start + k + 1], start + k + 2))
    if len(W) > start and np.min(W[start:]) < -1e-7 * np.max(Ws):
        raise Violation("%s: stored energy became negative (%.3g)" % (what, np.min(W[start:])))
    return ref


def cut(f, stop, dt):
    return lambda t: f(t) if -0.25 * dt < t < (stop - 0.5) * dt else 0.0


@st.composite
def line_case(draw):
    s = draw(gen.line(max_n=3, max_cells=8))
    on = draw(st.integers(2, 12))
    return {"line": s, "on": on, "off": draw(st.integers(20, 120)), "drives": draw(gen.drives(s["n"], on)),
            "dt": draw(st.sampled_from([None, 0.99, 0.7, 0.3]))}


def run_line(c):
    s = c["line"]
    n = s["n"]
    u, du = sim.grid(s)
    dt = sim.cfl(s) * (c["dt"] or 1.0)
    line = sim.build_mtl(s)
    if c["dt"]:
        line.set_time_step(1, dt)
    for d in c["drives"]:
        line.add_voltage_source(sim.end_pos(u, d["e"]), d["c"], cut(sim.wavefn(d["w"], dt), c["on"], dt))
    rec = sim.Recorder(line, u)
    line.run_until(sim.until(c["on"] + c["off"], dt))
    V, I = rec.history()
    need(np.isfinite(V).all() and np.isfinite(I).all(), "non-finite values")
    W = energy(V, I, du, dt, sim.arr(s["C"]), sim.arr(s["L"]))
    Ws = energy(np.abs(V), np.abs(I), du, 0.0, np.abs(sim.arr(s["C"])), np.abs(sim.arr(s["L"])))
    judge(W, Ws, c["on"] + 2, "line")
    cls = ["n%d" % n] + (["R"] if s["R"] is not None else []) + (["G"] if s["G"] is not None else [])
    cls += ["lossless"] if s["R"] is None and s["G"] is None else []
    return Info(W[c["on"] + 2] > 1e-12 * np.max(Ws) > 0, cls + ["bent"] * (len(s["ndiv"]) > 1))


def net_case():
    @st.composite
    def g(draw):
        S = draw(sy.system(max_bundles=3, max_levels=2, steps_max=10, max_cells=5, zt=False, disp=False,
                           kinds=["R", "R", "R", "open"], shorts=False))
        return {"S": S, "off": draw(st.integers(20, 100)), "dt": draw(st.sampled_from([None, 0.9, 0.4]))}
    return g()


def mats(b):
    ls = [s for lv in b["levels"] for s in lv]
    return block_diag(*[sim.arr(s["C"]) for s in ls]), block_diag(*[sim.arr(s["L"]) for s in ls])


def run_net(c):
    S = c["S"]
    dt = sy.system_dt(S) * (c["dt"] or 1.0)
    on = S["steps"]
    r = sy.build_system(S, dt, wrap=lambda b, f: cut(f, on, dt))
    r.m.run_until(sim.until(on + c["off"], dt), dt=dt)
    W = Ws = 0.0
    for rec, b in zip(r.rec, S["bundles"]):
        V, I = rec.history()
        need(np.isfinite(V).all() and np.isfinite(I).all(), "non-finite values")
        C, L = mats(b)
        du = sim.grid(b)[1]
        W = W + energy(V, I, du, dt, C, L)
        Ws = Ws + energy(np.abs(V), np.abs(I), du, 0.0, np.abs(C), np.abs(L))
    judge(W, Ws, on + 2, "network")
    cls = ["bundles%d" % len(S["bundles"])]
    cls += ["junction"] if any(len(n["ends"]) > 1 for n in S["nets"]) else []
    cls += ["open"] if any(not [b for b in n["br"]] for n in S["nets"]) else []
    cls += ["links"] if any(b["b"] is not None for n in S["nets"] for b in n["br"]) else []
    return Info(W[on + 2] > 1e-12 * np.max(Ws) > 0, cls)


# ---- reactive and dispersive elements: bounded however long ------------------------------------------------------

@st.composite
def reactive_case(draw):
    S = draw(sy.system(max_bundles=2, max_levels=1, steps_max=10, max_cells=4, zt=False, disp=True,
                       kinds=["R", "C", "LC", "RLC", "RLC", "open", "short"]))
    return {"S": S, "off": draw(st.integers(300, 700)), "dt": draw(st.sampled_from([None, None, 0.9, 0.4]))}


def run_reactive(c):
    S = c["S"]
    dt = sy.system_dt(S) * (c["dt"] or 1.0)
    on, off = S["steps"], c["off"]
    r = sy.build_system(S, dt, wrap=lambda b, f: cut(f, on, dt))
    r.m.run_until(sim.until(on + off, dt), dt=dt)
    H = [rec.history() for rec in r.rec]
    for k, q in enumerate(("voltage", "current")):
        a = np.max(np.stack([np.max(np.abs(h[k]), axis=(1, 2)) for h in H]), axis=0)
        need(np.isfinite(a).all(), "non-finite %s" % q)
        h = on + off // 2
        first, last = np.max(a[:h]), np.max(a[h:])
        need(last <= 1.5 * first + 1e-300, "%s keeps growing with silent sources: peak %.4g before and %.4g after step %d"
             % (q, first, last, h))
    cls = sorted({b["t"] for n in S["nets"] for b in n["br"]})
    cls += ["disp"] if any(b["disp"] for b in S["bundles"]) else []
    pk = max(np.max(np.abs(h[0])) for h in H)
    return Info(pk > 0 and (cls != ["R"]), cls)


SUBS = [
    Sub("line", line_case, run_line, 1200, 12000, "energy was stored when the sources fell silent"),
    Sub("network", net_case, run_net, 640, 6000, "energy was stored when the sources fell silent"),
    Sub("reactive", reactive_case, run_reactive, 240, 3000, "a reactive, shorted or dispersive element took part"),
]
