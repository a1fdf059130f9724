"""C03: superposition, homogeneity, time invariance, causality and silence."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen, sim, system as sy
from harness.core import Info, Invalid, Sub, close, need

ASSUMPTIONS = [
    "sources are quiet before t=0, so that a delayed source is the same source later",
    "ideal shorts are realised by a 1e10 S conductance: systems with shorts are compared to 2e-3",
]

WEIGHT = st.sampled_from([1.0, -1.0, 2.0, 0.5, -3.0, 100.0, 1e-3])


@st.composite
def net_case(draw):
    S = draw(sy.system(max_bundles=2, max_levels=2, steps_max=20, max_cells=5, multi=True))
    for n in S["nets"]:
        for b in n["br"]:
            if "w" in b:
                b["g"] = draw(st.integers(0, 1))
    d = draw(st.integers(1, 8))
    return {"S": S, "a": draw(WEIGHT), "b": draw(WEIGHT), "delay": d,
            "efield": draw(efield(S)), "dt": draw(st.sampled_from([None, None, 0.7]))}


@st.composite
def efield(draw, S):
    out = []
    for _ in range(draw(st.integers(0, 2))):
        bi = draw(st.integers(0, len(S["bundles"]) - 1))
        N = sum(S["bundles"][bi]["ndiv"])
        i = draw(st.integers(0, N - 1))
        out.append({"b": bi, "i": i, "j": draw(st.integers(i + 1, N)),
                    "c": draw(st.integers(0, sum(sy.n_of_levels(S["bundles"][bi])) - 1)),
                    "w": draw(gen.wave(S["steps"])), "g": draw(st.integers(0, 1))})
    return out


def go(c, dt, weights, delay, steps, req):
    """History with the sources of group k multiplied by weights[k] (None: absent) and delayed."""
    S = c["S"]

    def mk(g, f):
        if weights[g] is None:
            return None
        w = weights[g]
        return lambda t: w * f(t - delay * dt) if t > (delay - 0.25) * dt else 0.0
    r = sy.build_system(S, req, wrap=lambda b, f: mk(b["g"], f))
    for e in c["efield"]:
        f = mk(e["g"], sim.wavefn(e["w"], dt))
        if f is not None:
            u, _ = sim.grid(S["bundles"][e["b"]])
            r.mds[e["b"]].add_localized_longitudinal_field(u[e["i"]].copy(), u[e["j"]].copy(), e["c"], f, "efield")
    T = sim.until(steps, dt)
    r.m.run_until(T) if req is None else r.m.run_until(T, dt=req)
    return [rec.history() for rec in r.rec]


def compare(what, got, want, tol):
    for bi in range(len(got)):
        for k, q in enumerate(("voltage", "current")):
            sc = max(max(np.max(np.abs(h[k])) for h in want), max(np.max(np.abs(h[k])) for h in got))
            close(got[bi][k], want[bi][k], "%s: %s of bundle %d at (step, conductor, place)" % (what, q, bi), tol, scale=sc)


def run_net(c):
    S = c["S"]
    srcs = [b["g"] for n in S["nets"] for b in n["br"] if "w" in b] + [e["g"] for e in c["efield"]]
    dt = sy.system_dt(S) * (c["dt"] or 1.0)
    req = None if c["dt"] is None else dt
    T, d = S["steps"], c["delay"]
    tol = 2e-3 if any(b["t"] == "short" for n in S["nets"] for b in n["br"]) else 1e-8
    A = go(c, dt, [1.0, None], 0, T, req)
    B = go(c, dt, [None, 1.0], 0, T, req)
    AB = go(c, dt, [c["a"], c["b"]], 0, T, req)
    sup = [tuple(c["a"] * x + c["b"] * y for x, y in zip(p, q)) for p, q in zip(A, B)]
    # cancellation of two large responses is judged on their own scale
    sc = [tuple(np.full((1,), abs(c["a"]) * np.max(np.abs(x)) + abs(c["b"]) * np.max(np.abs(y))) for x, y in zip(p, q))
          for p, q in zip(A, B)]
    for bi in range(len(AB)):
        for k, q in enumerate(("voltage", "current")):
            s = max(x[k][0] for x in sc)
            close(AB[bi][k], sup[bi][k], "superposition: %s of bundle %d at (step, conductor, place)" % (q, bi), tol, scale=s)
    D = go(c, dt, [c["a"], c["b"]], d, T + d, req)
    for h in D:
        for x in h:
            need(not np.any(x[:d + 1]), "something was recorded before the sources acted")
    compare("delayed by %d steps" % d, [tuple(x[d:] for x in h) for h in D], AB, tol)
    Z = go(c, dt, [None, None], 0, T, req)
    need(not any(np.any(x) for h in Z for x in h), "a silent system did not stay at zero")
    pk = max(np.max(np.abs(h[0])) for h in AB)
    cls = ["groups%d" % len(set(srcs)), "sources%d" % min(5, len(srcs))]
    cls += ["efield"] if c["efield"] else []
    cls += ["zt"] if any(b["zt"] for b in S["bundles"]) else []
    cls += ["disp"] if any(b["disp"] for b in S["bundles"]) else []
    cls += ["dt_set"] if c["dt"] else []
    return Info(pk > 0 and len(set(srcs)) == 2, cls)


# ---- single lines ----------------------------------------------------------------------------------------------

@st.composite
def line_case(draw):
    s = draw(gen.line(max_n=3, max_cells=8))
    steps = draw(gen.count(4, 30))
    dr = draw(gen.drives(s["n"], steps, min_size=2, max_size=5))
    for i, x in enumerate(dr):
        x["g"] = i if i < 2 else draw(st.integers(0, 1))
    N = sum(s["ndiv"])
    disp = [{"cell": draw(st.integers(0, N - 1)), "c": draw(st.integers(0, s["n"] - 1)), "m": draw(sy.model())}
            for _ in range(draw(st.integers(0, 1)))]
    return {"line": s, "steps": steps, "drives": dr, "disp": disp, "a": draw(WEIGHT), "b": draw(WEIGHT),
            "delay": draw(st.integers(1, 10)), "dt": draw(st.sampled_from([None, 0.7]))}


def run_line(c):
    s = c["line"]
    u, _ = sim.grid(s)
    dt = sim.cfl(s) * (c["dt"] or 1.0)

    def go1(weights, delay, steps):
        line = sim.build_mtl(s)
        for e in c["disp"]:
            line.add_dispersive_connector(u[e["cell"]].copy(), e["c"], copy.deepcopy(e["m"]))
        if c["dt"]:
            line.set_time_step(1, dt)
        for x in c["drives"]:
            w = weights[x["g"]]
            if w is not None:
                f = sim.wavefn(x["w"], dt)
                line.add_voltage_source(sim.end_pos(u, x["e"]), x["c"],
                                        (lambda w, f: lambda t: w * f(t - delay * dt) if t > (delay - 0.25) * dt else 0.0)(w, f))
        rec = sim.Recorder(line, u)
        line.run_until(sim.until(steps, dt))
        return rec.history()
    T, d = c["steps"], c["delay"]
    A, B, AB = go1([1.0, None], 0, T), go1([None, 1.0], 0, T), go1([c["a"], c["b"]], 0, T)
    D = go1([c["a"], c["b"]], d, T + d)
    for k, q in enumerate(("voltage", "current")):
        x, y = c["a"] * A[k], c["b"] * B[k]
        close(AB[k], x + y, "superposition: %s at (step, conductor, place)" % q, 1e-8,
              scale=np.max(np.abs(x)) + np.max(np.abs(y)))
        need(not np.any(D[k][:d + 1]), "something was recorded before the sources acted")
        close(D[k][d:], AB[k], "delayed by %d steps: %s at (step, conductor, place)" % (d, q), 1e-8)
    need(not any(np.any(x) for x in go1([None, None], 0, T)), "a silent line did not stay at zero")
    return Info(np.max(np.abs(AB[0])) > 0 and len({x["g"] for x in c["drives"]}) == 2,
                ["n%d" % s["n"], "drives%d" % len(c["drives"])] + (["disp"] if c["disp"] else []))


SUBS = [
    Sub("line", line_case, run_line, 1600, 12000, "both source groups present and something was recorded"),
    Sub("network", net_case, run_net, 1000, 8000, "both source groups present and something was recorded"),
]
