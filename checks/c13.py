"""C13: one stable time step is shared by everything in a run."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen, laws, sim, system as sy
from harness.core import Info, Sub, close, need

ASSUMPTIONS = [
    "final times are not exact multiples of the step, so that the number of whole steps is unambiguous",
    "convergence is tested for smooth excitations lasting many steps, starting at half the stable step",
]

FRAC = st.sampled_from([0.1, 0.5, 0.9])


# ---- everything in a run uses the same step ----------------------------------------------------------------------

@st.composite
def shared_case(draw):
    S = draw(sy.system(max_bundles=3, max_levels=2, steps_max=16, max_cells=4, disp=True, shorts=False))
    # make speeds and cell sizes of the bundles differ
    for b in S["bundles"]:
        f = draw(st.sampled_from([1.0, 1.0, 0.5, 3.0]))
        for lv in b["levels"]:
            for s in lv:
                s["C"] = [[gen.rnd(x * f) for x in r] for r in s["C"]]
    how = draw(st.sampled_from(["default", "default", "argument", "attribute"]))
    return {"S": S, "how": how, "f": 1.0 if how == "default" else draw(st.sampled_from([0.9, 0.5, 0.17])),
            "frac": draw(FRAC), "order": draw(st.permutations(list(range(len(S["bundles"]))))),
            "probes": [[draw(st.integers(0, sum(b["ndiv"]))), draw(st.sampled_from(["voltage", "current"]))]
                       for b in S["bundles"]]}


def run_shared(c):
    S = c["S"]
    T = S["steps"]
    dt0 = sy.system_dt(S)
    dt = dt0 * c["f"]
    r = sy.build_system(S, dt, record=False, order=c["order"])
    m = r.m
    for b, md in zip(S["bundles"], r.mds):
        close(md.dt, sy.bundle_dt(b), "default time step of bundle %s" % b["name"], 1e-9)
    close(m.dt, dt0, "default time step of the network", 1e-9)
    ps = [md.add_probe(sim.grid(b)[0][k].copy(), kind) for md, b, (k, kind) in zip(r.mds, S["bundles"], c["probes"])]
    rec = [sim.Recorder(md, sim.grid(b)[0]) for md, b in zip(r.mds, S["bundles"])]
    final = (T + c["frac"]) * dt
    if c["how"] == "argument":
        m.run_until(final, dt=dt)
    else:
        if c["how"] == "attribute":
            m.dt = dt
        m.run_until(final)
    close(m.dt, dt, "time step of the run", 1e-9)
    for b, p, (k, kind), rc in zip(S["bundles"], ps, c["probes"], rec):
        lab = np.arange(1, T + 1) * dt
        for q in [p] + rc.pv + rc.pi:
            need(len(q.t) == T, "%d rows recorded in bundle %s during %g steps" % (len(q.t), b["name"], T + c["frac"]))
            close(q.t, lab + (dt / 2 if q.type == "current" else 0.0),
                  "time labels of a %s probe of bundle %s" % (q.type, b["name"]), 1e-9)
    r.H = [rc.history() for rc in rec]
    r.dt = dt
    for b, (V, I) in zip(S["bundles"], r.H):
        laws.bundle(b, V, I, dt)
    sy.node_laws(S, r, tol=1e-7)
    pk = max(np.max(np.abs(V)) for V, I in r.H)
    dts = [sy.bundle_dt(b) for b in S["bundles"]]
    return Info(pk > 0 and (c["f"] != 1.0 or max(dts) > 1.05 * min(dts)),
                [c["how"], "bundles%d" % len(dts)] + ["disp"] * any(b["disp"] for b in S["bundles"])
                + ["zt"] * any(b["zt"] for b in S["bundles"]) + ["steps_differ" if max(dts) > 1.05 * min(dts) else "steps_equal"])


# ---- single lines ----------------------------------------------------------------------------------------------------

@st.composite
def line_case(draw):
    s = draw(gen.line(max_n=4, max_cells=9))
    return {"line": s, "steps": draw(st.integers(2, 30)), "frac": draw(FRAC),
            "set": draw(st.one_of(st.none(), st.tuples(st.integers(2, 400), st.sampled_from([0.9, 0.5, 0.11])).map(list))),
            "drives": draw(gen.drives(s["n"], 10))}


def run_line(c):
    s = c["line"]
    line = sim.build_mtl(s)
    u, du = sim.grid(s)
    dt = sim.cfl(s)
    close(line.dt, dt, "default time step", 1e-9)
    close(line.get_max_timestep(), dt, "largest stable time step", 1e-9)
    v = np.asarray(line.get_phase_velocities())
    ref = np.sort(1 / np.sqrt(np.linalg.eigvals(sim.arr(s["L"]) @ sim.arr(s["C"])).real))
    need(v.shape == (len(du), s["n"]), "phase velocities have shape %s for %d cells and %d conductors" % (
        v.shape, len(du), s["n"]))
    for k in range(len(du)):
        close(np.sort(v[k]), ref, "phase velocities in cell %d" % k, 1e-6)
    if c["set"]:
        dt = dt * c["set"][1]
        line.set_time_step(c["set"][0], dt * c["set"][0])
        close(line.dt, dt, "requested time step", 1e-12)
    sim.add_drives(line, u, c["drives"], dt)
    pv, pi = line.add_probe(u[0].copy(), "voltage"), line.add_probe(u[-1].copy(), "current")
    T = c["steps"]
    line.run_until((T + c["frac"]) * dt)
    for p, off in ((pv, 0.0), (pi, 0.5)):
        need(len(p.t) == T, "%d rows recorded during %g steps" % (len(p.t), T + c["frac"]))
        close(p.t, (np.arange(1, T + 1) + off) * dt, "time labels of the %s probe" % p.type, 1e-9)
    return Info(bool(np.any(pv.val) or np.any(pi.val)), ["n%d" % s["n"]] + ["set"] * bool(c["set"]))


# ---- refinement ---------------------------------------------------------------------------------------------------------

@st.composite
def refine_case(draw):
    S = draw(sy.system(max_bundles=2, max_levels=2, steps_max=4, max_cells=4, disp=True, shorts=False, sources=False,
                       kinds=["R", "R", "R", "C"], multi=False, link_w=False))
    S["steps"] = draw(st.integers(60, 120))
    # terminate everything: no undriven resonance at the grid's own frequency
    for net in S["nets"]:
        for e in net["ends"]:
            for i in e["ids"]:
                if not any(b["a"] == i and b["b"] is None and b["t"] == "R" for b in net["br"]):
                    net["br"] = [b for b in net["br"] if not (b["a"] == i and b["b"] is None)]
                    net["br"].append({"t": "R", "a": i, "b": None, "R": draw(gen.pos(10.0, 500.0))})
    r = [b for n in S["nets"] for b in n["br"] if b["t"] == "R" and b["b"] is None]
    for b in draw(st.permutations(r))[:draw(st.integers(1, 2))]:
        b["w"] = {"k": "gauss", "A": 1.0, "t0": 0, "w": 0}
    return {"S": S, "width": draw(st.sampled_from([12, 18])), "f": 0.5}


def run_refine(c):
    S = c["S"]
    dt0 = sy.system_dt(S) * c["f"]
    out = []
    for k in (1, 2, 4, 8):
        dt = dt0 / k
        Q = copy.deepcopy(S)
        for n in Q["nets"]:
            for b in n["br"]:
                if "w" in b:
                    b["w"] = {"k": "gauss", "A": 1.0, "t0": 3.5 * c["width"] * k, "w": c["width"] * k}
        Q["steps"] = S["steps"] * k
        r = sy.run_system(Q, dt=dt)
        # voltages are labelled at whole steps, currents half a step later: interpolate to the same instants
        out.append([(V[::k], (0.5 * (I[1:] + I[:-1]))[k - 1::k]) for V, I in r.H])
    sc = [max(np.max(np.abs(h[q])) for h in out[-1]) for q in (0, 1)]
    d = []
    for a, b in zip(out[:-1], out[1:]):
        d.append(max(max(np.max(np.abs(x[q] - y[q])) / (sc[q] or 1.0) for x, y in zip(a, b)) for q in (0, 1)))
    # first-order or better: each halving halves the change; allow 0.8 away from the asymptotic regime
    need(d[1] <= 0.85 * d[0] + 1e-6 and d[2] <= 0.75 * d[1] + 1e-6,
         "halving the step does not converge: relative changes %s" % ["%.3g" % x for x in d])
    need(d[0] < 0.5, "halving the step changes the result by %.3g" % d[0])
    return Info(sc[0] > 1e-6, ["disp"] * any(b["disp"] for b in S["bundles"]) + ["zt"] * any(b["zt"] for b in S["bundles"])
                + ["change<%g" % next(x for x in (1e-4, 1e-3, 1e-2, 0.1, 1.0) if d[0] < x)])


SUBS = [
    Sub("shared", shared_case, run_shared, 600, 10000, "a signal was present and the step was requested or the bundles' own steps differ"),
    Sub("line", line_case, run_line, 800, 12000, "a signal was present"),
    Sub("refine", refine_case, run_refine, 120, 1500, "a voltage above 1e-6 was present"),
]
