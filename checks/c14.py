"""C14: an external field drives lines as the scattered-field model prescribes."""
import copy
import math

import numpy as np
import sympy as sp
from hypothesis import strategies as st
from scipy.linalg import block_diag

from harness import gen, kirchhoff as kh, laws, sim, system as sy
from harness.core import Info, Sub, close, need

import src.mtl as mtl

ASSUMPTIONS = [
    "a field is sampled at the start of each step (the one-step latency of the scheme is part of the contract), the "
    "longitudinal part as the mean of the two half steps around it",
    "each conductor keeps one separation from the reference along the line",
    "a field acts on the cells and nodes between the nodes nearest to the ends of its extent; fields are applied to the "
    "outermost level of a bundle, one field per line",
]

GX, GW = np.polynomial.legendre.leggauss(12)
GX, GW = 0.5 * (GX + 1), 0.5 * GW


# ---- fields: sum of (a + B r) g(t - phase(r)), with phases in time steps ------------------------------------------

def vec(hi=1.0):
    return st.lists(st.one_of(st.just(0), st.integers(-200, 200)).map(lambda k: gen.rnd(hi * k / 200)), min_size=3, max_size=3)


@st.composite
def field(draw, steps, travel=True):
    out = []
    for _ in range(draw(st.integers(1, 2))):
        a = draw(vec(5.0))
        if not any(a):
            a[draw(st.integers(0, 2))] = 1.0
        B = [draw(vec()) for _ in range(3)] if draw(st.booleans()) else None
        kap = draw(vec(2.0)) if travel and draw(st.booleans()) else None
        out.append({"a": a, "B": B, "kap": kap, "v": bool(kap) and draw(st.booleans()),
                    "g": {"k": draw(st.sampled_from(["gauss", "sin", "cte", "lin"])), "A": draw(st.sampled_from([1.0, -2.0, 30.0])),
                          "t0": draw(st.integers(0, max(1, steps // 2))), "w": draw(st.integers(2, 8))}})
    return out


def g_eval(g, tau, m):
    if g["k"] == "gauss":
        return g["A"] * m.exp(-((tau - g["t0"]) / g["w"]) ** 2)
    if g["k"] == "sin":
        return g["A"] * m.sin((tau - g["t0"]) / g["w"])
    if g["k"] == "lin":
        return g["A"] * (0.1 * tau + 1.0)
    return g["A"] * (1.0 + 0.0 * tau)


def as_field(terms, dt, zero=False):
    """The field as the user writes it: sympy expressions of x, y, z, t (and v)."""
    x, y, z, t, v = sp.symbols("x y z t v")
    r = (x, y, z)
    E = [sp.Integer(0)] * 3
    for f in terms:
        tau = t / dt
        if f["kap"]:
            p = sum(k * q for k, q in zip(f["kap"], r))
            tau = tau - (p / (v * dt) if f["v"] else p)
        g = sp.sympify(g_eval(f["g"], tau, sp))
        for i in range(3):
            E[i] += (f["a"][i] + (sum(b * q for b, q in zip(f["B"][i], r)) if f["B"] else 0)) * g
    if zero:
        E = [0 * e for e in E]
    return mtl.Field(*E)


def value(terms, r, t, dt, v):
    """E at positions r [..., 3] and times t [T] -> [T, ..., 3], with numpy only."""
    r = np.asarray(r, float)
    out = 0.0
    for f in terms:
        tau = (t / dt).reshape((-1,) + (1,) * (r.ndim - 1))
        if f["kap"]:
            p = r @ np.array(f["kap"])
            tau = tau - (p / (v * dt) if f["v"] else p)
        else:
            tau = tau + np.zeros(r.shape[:-1])
        e = np.array(f["a"]) + (r @ np.array(f["B"]).T if f["B"] else np.zeros_like(r))
        out = out + g_eval(f["g"], tau, np)[..., None] * e
    return out


def oracle(terms, u, sep, T, dt, v, n, rng=None):
    """e_L[T, n, cells] averaged over the step, e_T[T+1, n, nodes]; zero outside the nodes i..j of rng."""
    N = len(u) - 1
    eL, eT = np.zeros((T, n, N)), np.zeros((T + 1, n, N + 1))
    tm = np.arange(T) * dt
    tt = np.arange(-1, T) * dt
    tang = np.diff(u, axis=0)
    tang /= np.linalg.norm(tang, axis=1)[:, None]
    mid = 0.5 * (u[1:] + u[:-1])
    i, j = (0, N) if rng is None else rng
    for c, d in enumerate(sep):
        d = np.array(d)
        for h in (0.5 * dt, -0.5 * dt):
            dE = value(terms, mid + d, tm + h, dt, v) - value(terms, mid, tm + h, dt, v)
            eL[:, c, i:j] += 0.5 * np.einsum("tki,ki->tk", dE, tang)[:, i:j]
        pts = u[:, None, :] + GX[None, :, None] * d
        eT[:, c, i:j + 1] = np.einsum("tksi,i,s->tk", value(terms, pts, tt, dt, v), d, GW)[:, i:j + 1]
    return eL, eT


def strength(terms, u, T, dt, v):
    """Largest magnitude of the field on the line: differences of the field are rounded relative to it.

    Far before a pulse the field is a vanishing part of its amplitude and no rounding is relative to it.
    """
    amp = sum(abs(f["g"]["A"]) * (np.max(np.abs(f["a"])) + np.max(np.abs(f["B"] or 0))) for f in terms)
    return float(np.max(np.abs(value(terms, u, np.arange(-1, T + 1) * dt, dt, v)))) + 1e-6 * amp


def speed(specs):
    return max(1 / math.sqrt(np.min(np.linalg.eigvals(sim.arr(s["L"]) @ sim.arr(s["C"])).real)) for s in specs)


def seps(n):
    return st.lists(vec(0.05), min_size=n, max_size=n)


def dist(sep, nodes):
    return np.repeat(np.array(sep, float)[:, None, :], nodes, axis=1)


@st.composite
def extent(draw, N):
    if draw(st.integers(0, 2)):
        return None
    i = draw(st.integers(0, N - 1))
    return [i, draw(st.integers(i + 1, N))]


def kinds(fs):
    return ["travels"] * any(f["kap"] for f in fs) + ["symbol_v"] * any(f["v"] for f in fs) + ["gradient"] * any(f["B"] for f in fs)


# ---- one line ------------------------------------------------------------------------------------------------------

@st.composite
def line_case(draw):
    s = draw(gen.line(max_n=2, max_cells=6))
    steps = draw(st.integers(3, 14))
    return {"line": s, "steps": steps, "sep": draw(seps(s["n"])), "F": draw(field(steps)),
            "ext": draw(extent(sum(s["ndiv"]))), "dt": draw(st.sampled_from([None, None, 0.7])),
            "drives": draw(gen.drives(s["n"], steps)) if draw(st.integers(0, 2)) == 0 else []}


def drive(line, u, c, dt, terms=None, sep=None, zero=False):
    F = as_field(c["F"] if terms is None else terms, dt, zero)
    D = dist(c["sep"] if sep is None else sep, len(u))
    if c.get("ext"):
        line.add_external_field(F, D, [u[c["ext"][0]].copy(), u[c["ext"][1]].copy()])
    else:
        line.add_external_field(F, D)


def simulate(c, terms=None, sep=None, spec=None, zero=False):
    s = c["line"] if spec is None else spec
    dt = sim.cfl(s) * (c.get("dt") or 1.0)
    line = sim.build_mtl(s)
    u, du = sim.grid(s)
    if c.get("dt"):
        line.set_time_step(1, dt)
    fns = sim.add_drives(line, u, c.get("drives", []), dt)
    drive(line, u, c, dt, terms, sep, zero)
    rec = sim.Recorder(line, u)
    line.run_until(sim.until(c["steps"], dt))
    V, I = rec.history()
    sampled_alike(line, c["steps"])
    return V, I, u, du, dt, fns


def sampled_alike(obj, k):
    """Sampling sources and fields at the object's own time, or at a time given to it, is the same thing."""
    if not hasattr(obj, "update_sources"):
        return
    obj.time = k // 2 * float(obj.dt)
    snap = []
    for args in ((), (float(obj.time), float(obj.dt))):
        obj.update_sources(*args)
        snap.append({a: x.copy() for a, x in vars(obj).items() if isinstance(x, np.ndarray) and x.dtype.kind == "f"})
    for a in snap[0]:
        need(a in snap[1] and np.array_equal(snap[0][a], snap[1][a]),
             "sources and fields sampled at the object's own time differ from those sampled at the same time given (%s)" % a)


def line_laws(s, V, I, u, du, dt, eL, eT, fns, T, E0):
    n = s["n"]
    L, C, R, G = sim.arr(s["L"]), sim.arr(s["C"]), sim.mat(s["R"], n), sim.mat(s["G"], n)
    W = V + eT
    kh.cells(W, I, du, dt, L, R, "voltage law of an illuminated cell", extra=eL, tol=1e-8,
             floor=max(E0, np.max(np.abs(eT)) / np.min(du)))
    kh.interior(W, I, du, dt, C, G, "charge balance of an illuminated node", tol=1e-8,
                floor=np.max(np.abs(C)) / dt * (np.max(np.abs(eT)) + 1e-3 * E0))
    for side, z in (("S", s["Zs"]), ("L", s["Zl"])):
        kh.terminal(V, I, du, dt, C, G, sim.zmat(z, n), kh.source_samples(fns, side, n, T, dt), side,
                    "termination law at the illuminated %s end" % side, tol=1e-8, E=eT, low=1e-3 * E0)


def run_line(c):
    s = c["line"]
    V, I, u, du, dt, fns = simulate(c)
    eL, eT = oracle(c["F"], u, c["sep"], c["steps"], dt, speed([s]), s["n"], c["ext"])
    line_laws(s, V, I, u, du, dt, eL, eT, fns, c["steps"], strength(c["F"], u, c["steps"], dt, speed([s])))
    return Info(bool(np.any(eL) or np.any(eT)) and bool(np.any(I)),
                ["n%d" % s["n"]] + ["extent"] * bool(c["ext"]) + ["e_L"] * bool(np.any(eL)) + ["e_T"] * bool(np.any(eT))
                + ["sources"] * bool(c["drives"]) + kinds(c["F"]))


# ---- plane waves given by their angles --------------------------------------------------------------------------------

@st.composite
def wave_case(draw):
    s = draw(gen.line(max_n=2, max_cells=5))
    steps = draw(st.integers(3, 12))
    ang = st.one_of(gen.pos(0.1, 1.4), gen.pos(1.7, 3.0))
    return {"line": s, "steps": steps, "sep": draw(seps(s["n"])), "polar": draw(ang),
            "azimuth": draw(st.one_of(gen.pos(-3.0, -1.7), gen.pos(-1.4, -0.1), gen.pos(0.1, 1.4))),
            "pol": draw(gen.pos(-3.0, 3.0)), "net": draw(st.booleans()),
            "g": {"k": draw(st.sampled_from(["gauss", "sin"])), "A": draw(st.sampled_from([1.0, 20.0])),
                  "t0": draw(st.integers(0, 6)), "w": draw(st.integers(2, 6))}}


def run_wave(c):
    s = c["line"]
    n, T = s["n"], c["steps"]
    p, a, d = c["polar"], c["azimuth"], c["pol"]
    u, du = sim.grid(s)
    dt = sim.cfl(s)
    v = speed([s])
    pw = mtl.PlaneWave(lambda t: g_eval(c["g"], t / dt, sp), p, a, d)
    # unit vectors of the incoming direction and of the two polarisations orthogonal to it
    to = np.array([math.cos(p), math.sin(p) * math.cos(a), math.sin(p) * math.sin(a)])
    e1 = np.array([math.sin(p), -math.cos(p) * math.cos(a), -math.cos(p) * math.sin(a)])
    e2 = np.array([0.0, -math.sin(a), math.cos(a)])
    E = math.sin(d) * e1 + math.cos(d) * e2
    terms = [{"a": list(E), "B": None, "kap": list(-to / (v * dt)), "v": False, "g": c["g"]}]
    eL, eT = oracle(terms, u, c["sep"], T, dt, v, n)
    E0 = strength(terms, u, T, dt, v)
    line = sim.build_mtl(dict(s, Zs=0.0, Zl=0.0) if c["net"] else s)
    D = dist(c["sep"], len(u))
    if not c["net"]:
        line.add_planewave(pw, D)
        rec = sim.Recorder(line, u)
        line.run_until(sim.until(T, dt))
        V, I = rec.history()
        line_laws(s, V, I, u, du, dt, eL, eT, {}, T, E0)
    else:
        md = mtl.MTLD({0: [line]}, name="b")
        S = single_system(s, T)
        nets = [sy.build_net(w, [md], [{0: [line]}], dt) for w in S["nets"]]
        m = sy.mtln.MTLN([md], nets)
        m.add_planewave(pw, D)
        rec = sim.Recorder(md, u)
        m.run_until(sim.until(T, dt))
        V, I = rec.history()
        laws.bundle(S["bundles"][0], V, I, dt, field=(eL, eT, 1e-3 * E0), tol=1e-7)
        r = sy.Run()
        r.H, r.dt = [(V, I)], dt
        sy.node_laws(S, r, tol=1e-7, fields=[eT], low=1e-3 * E0)
    return Info(bool(np.any(I)) and bool(np.any(eL)), ["net" if c["net"] else "line", "n%d" % n])


def ends(z, n):
    z = z if isinstance(z, list) else [z] * n
    return [x or 1.0 for x in z]


def single_system(s, T):
    """The line as a bundle terminated by two networks."""
    n = s["n"]
    b = {"name": "b", "nodes": s["nodes"], "ndiv": s["ndiv"], "zt": [], "czt": [], "disp": [],
         "levels": [[{"n": n, "L": s["L"], "C": s["C"], "R": s["R"], "G": s["G"], "name": "l"}]]}
    nets = []
    for q, (side, z) in enumerate((("S", s["Zs"]), ("L", s["Zl"]))):
        ids = list(range(q * n, q * n + n))
        nets.append({"level": 0, "ends": [{"b": 0, "k": 0, "side": side, "ids": ids}],
                     "br": [{"t": "R", "a": i, "b": None, "R": x} for i, x in zip(ids, ends(z, n))]})
    return {"steps": T, "bundles": [b], "nets": nets}


# ---- networks ------------------------------------------------------------------------------------------------------------

@st.composite
def net_case(draw):
    S = draw(sy.system(max_bundles=2, max_levels=2, steps_max=12, max_cells=4, disp=True, shorts=False, max_poles=1))
    N = [sum(b["ndiv"]) for b in S["bundles"]]
    n0 = [sum(s["n"] for s in b["levels"][0]) for b in S["bundles"]]
    lit = [draw(st.integers(0, 3)) > 0 for _ in N]
    if not any(lit):
        lit[0] = True
    # the same speed for the symbol v only exists in bundles with one level
    F = draw(field(S["steps"], travel=True))
    for f in F:
        f["v"] = f["v"] and all(len(b["levels"]) == 1 for b in S["bundles"])
    return {"S": S, "F": F, "lit": lit, "sep": [draw(seps(k)) for k in n0],
            "ext": [draw(extent(k)) for k in N], "before": draw(st.booleans()), "dt": draw(st.sampled_from([1.0, 1.0, 0.8])),
            "all": draw(st.booleans())}


def run_net(c):
    S = c["S"]
    T = S["steps"]
    dt = sy.system_dt(S) * c["dt"]
    r = sy.Run()
    r.dt = dt
    built = [sy.build_bundle(b) for b in S["bundles"]]
    r.mds, r.lines = [x[0] for x in built], [x[1] for x in built]
    us = [sim.grid(b)[0] for b in S["bundles"]]
    m = sy.mtln.MTLN()
    for md in r.mds:
        m.add_bundle(md)
    # add_external_field of the manager lights every bundle with one set of separations
    together = c["all"] and all(c["lit"]) and len({(len(u), len(q)) for u, q in zip(us, c["sep"])}) == 1
    seps_, exts = list(c["sep"]), list(c["ext"])
    if together:
        seps_, exts = [c["sep"][0]] * len(us), [None] * len(us)

    def light():
        F = as_field(c["F"], dt)
        if together:
            m.add_external_field(F, dist(seps_[0], len(us[0])))
            return
        for b, u, md, q, e, on in zip(S["bundles"], us, r.mds, seps_, exts, c["lit"]):
            if on and e:
                m.add_localized_external_field(b["name"], F, dist(q, len(u)), [u[e[0]].copy(), u[e[1]].copy()])
            elif on:
                md.add_external_field(F, dist(q, len(u)))
    if c["before"]:
        light()
    for w in S["nets"]:
        m.add_network(sy.build_net(w, r.mds, r.lines, dt))
    if not c["before"]:
        light()
    rec = [sim.Recorder(md, u) for md, u in zip(r.mds, us)]
    m.run_until(sim.until(T, dt), dt=dt)
    r.H = [q.history() for q in rec]
    eTs, hot = [], False
    E0 = max(strength(c["F"], u, T, dt, speed([s for lv in b["levels"] for s in lv])) for b, u in zip(S["bundles"], us))
    for b, u, (V, I), q, e, on in zip(S["bundles"], us, r.H, seps_, exts, c["lit"]):
        n = V.shape[1]
        eL, eT = np.zeros((T, n, len(u) - 1)), np.zeros((T + 1, n, len(u)))
        if on:
            eL, eT = oracle(c["F"], u, q, T, dt, speed([s for lv in b["levels"] for s in lv]), n, e)
        eTs.append(eT)
        hot = hot or bool(np.any(eT) or np.any(eL))
        laws.bundle(b, V, I, dt, field=(eL, eT, 1e-3 * E0))
    sy.node_laws(S, r, tol=1e-7, fields=eTs, low=1e-3 * E0)
    return Info(hot and sy.peak(r) > 0,
                ["bundles%d" % len(us), "all_together" if together else "one_by_one", "before" if c["before"] else "after"]
                + ["levels"] * any(len(b["levels"]) > 1 for b in S["bundles"]) + ["extent"] * any(exts) + kinds(c["F"]))


# ---- the same in both models, and relations between fields ------------------------------------------------------------------

@st.composite
def same_case(draw):
    c = draw(line_case())
    s = c["line"]
    s["Zs"], s["Zl"] = ends(s["Zs"], s["n"]), ends(s["Zl"], s["n"])
    c["drives"], c["dt"] = [], None
    rel = draw(st.sampled_from(["network", "motion", "sum", "scale", "zero_field", "zero_separation", "small"]))
    c["rel"] = rel
    if rel == "motion":
        c["perm"], c["sign"] = draw(st.permutations([0, 1, 2])), [draw(st.sampled_from([1.0, -1.0])) for _ in range(3)]
        c["angle"], c["shift"] = draw(st.sampled_from([0.0, 0.6435, 1.0])), draw(vec(2.0))
    if rel == "sum":
        c["F2"] = draw(field(c["steps"]))
    if rel == "small":
        for f in c["F"]:
            f["kap"] = f["kap"] and [max(-1.0, min(1.0, k)) for k in f["kap"]]
    c["k"] = draw(st.sampled_from([-1.0, 0.25, 7.0, 1e3]))
    return c


def moved(c):
    s = copy.deepcopy(c["line"])
    M = np.zeros((3, 3))
    for i, (p, q) in enumerate(zip(c["perm"], c["sign"])):
        M[i, p] = q
    ca, sa = math.cos(c["angle"]), math.sin(c["angle"])
    M = np.array([[ca, -sa, 0], [sa, ca, 0], [0, 0, 1.0]]) @ M
    t = np.array(c["shift"])
    s["nodes"] = [list(M @ np.array(p) + t) for p in s["nodes"]]
    F = []
    for f in c["F"]:
        # E'(r') = M E(M^T (r' - t)); the phase keeps its value: shift the time origin instead
        g = copy.deepcopy(f)
        a, B = np.array(f["a"]), np.array(f["B"]) if f["B"] else np.zeros((3, 3))
        B2 = M @ B @ M.T
        g["a"], g["B"] = list(M @ a - B2 @ t), B2.tolist() if f["B"] else None
        if f["kap"]:
            k2 = M @ np.array(f["kap"])
            g["kap"], g["shift"] = list(k2), float(k2 @ t)
        F.append(g)
    return s, F, [list(M @ np.array(d)) for d in c["sep"]]


def run_same(c):
    s, rel = c["line"], c["rel"]
    n, T = s["n"], c["steps"]
    V, I, u, du, dt, _ = simulate(c)
    E0 = strength(c["F"] + c.get("F2", []), u, T, dt, speed([s])) * np.sum(du)
    z0 = 1 / (speed([s]) * np.min(np.diag(sim.arr(s["C"]))))
    floor = [1e-4 * E0, 1e-4 * E0 / z0]
    pk = [max(np.max(np.abs(x)), f) for x, f in zip((V, I), floor)]
    info = Info(np.max(np.abs(I)) > 0, [rel] + kinds(c["F"]))

    def same(V2, I2, what, tol=1e-8, k=1.0):
        close(V2, k * V, what + ": voltages", tol, abs(k) * pk[0])
        close(I2, k * I, what + ": currents", tol, abs(k) * pk[1])

    if rel == "network":
        S = single_system(s, T)
        line = sim.build_mtl(dict(s, Zs=0.0, Zl=0.0))
        md = mtl.MTLD({0: [line]}, name="b")
        drive(md, u, c, dt)
        rec = sim.Recorder(md, u)
        m = sy.mtln.MTLN([md], [sy.build_net(w, [md], [{0: [line]}], dt) for w in S["nets"]])
        m.run_until(sim.until(T, dt), dt=dt)
        same(*rec.history(), "line in a network against the same line alone")
        sampled_alike(md, T)
    elif rel == "motion":
        s2, F2, sep2 = moved(c)
        # tau' = t - k2.r' must equal t - k.r = t - k2.r' + k2.shift
        V2, I2 = simulate_shifted(c, s2, F2, sep2)
        same(V2, I2, "line and field moved rigidly", 1e-7)
    elif rel == "sum":
        V1, I1 = simulate(c, terms=c["F2"])[:2]
        V2, I2 = simulate(c, terms=c["F"] + c["F2"])[:2]
        for a, b, q in ((V2, V + V1, "voltages"), (I2, I + I1, "currents")):
            close(a, b, "response to the sum of two fields: " + q, 1e-8,
                  max([np.max(np.abs(x)) for x in ((V, V1) if q == "voltages" else (I, I1))] + [floor[q != "voltages"]]))
    elif rel == "scale":
        F2 = copy.deepcopy(c["F"])
        for f in F2:
            f["g"]["A"] *= c["k"]
        same(*simulate(c, terms=F2)[:2], "response to a scaled field", k=c["k"])
    elif rel == "zero_field":
        V2, I2 = simulate(c, zero=True)[:2]
        need(not np.any(V2) and not np.any(I2), "a zero field drives a response")
    elif rel == "zero_separation":
        V2, I2 = simulate(c, sep=[[0.0] * 3] * n)[:2]
        need(not np.any(V2) and not np.any(I2), "a conductor at the reference is driven")
    elif rel == "small":
        h = [1e-4 * np.array(d) for d in c["sep"]]
        V1, I1 = simulate(c, sep=[list(d) for d in h])[:2]
        V2, I2 = simulate(c, sep=[list(2 * d) for d in h])[:2]
        for a, b, q in ((V2, V1, "voltages"), (I2, I1, "currents")):
            close(a, 2 * b, "response to a doubled small separation: " + q, 1e-3, 2 * np.max(np.abs(b)) + 1e-4 * floor[q != "voltages"])
    return info


def simulate_shifted(c, s2, F2, sep2):
    """As simulate, with each travelling term advanced by its own delay (built in the field expression)."""
    terms = []
    for g in F2:
        p0 = g.pop("shift", 0.0)
        if g["kap"] and not g["v"]:
            gg = dict(g["g"])
            if gg["k"] in ("gauss", "sin"):
                gg["t0"] = gg["t0"] - p0
            elif gg["k"] == "lin":
                # A (0.1 (tau + p0) + 1): written as a lin term plus a constant one
                terms.append(dict(g, g={"k": "cte", "A": gg["A"] * 0.1 * p0, "t0": 0, "w": 2}, kap=None))
            terms.append(dict(g, g=gg))
        elif g["kap"]:
            dt = sim.cfl(s2)
            q = p0 / (speed([s2]) * dt)
            gg = dict(g["g"])
            if gg["k"] in ("gauss", "sin"):
                gg["t0"] = gg["t0"] - q
            elif gg["k"] == "lin":
                terms.append(dict(g, g={"k": "cte", "A": gg["A"] * 0.1 * q, "t0": 0, "w": 2}, kap=None))
            terms.append(dict(g, g=gg))
        else:
            terms.append(g)
    return simulate(c, terms=terms, sep=sep2, spec=s2)[:2]


# ---- a field that derives from a potential drives nothing ------------------------------------------------------------------------

@st.composite
def static_case(draw):
    s = draw(gen.line(max_n=2, max_cells=6))
    s["G"] = None
    B = [draw(vec(5.0)) for _ in range(3)]
    B = [[B[max(i, j)][min(i, j)] for j in range(3)] for i in range(3)]
    a = draw(vec(5.0))
    return {"line": s, "steps": draw(st.integers(3, 12)), "sep": draw(seps(s["n"])), "ext": None,
            "F": [{"a": a, "B": B, "kap": None, "v": False, "g": {"k": "cte", "A": 1.0, "t0": 0, "w": 2}}]}


def run_static(c):
    V, I, u, du, dt, _ = simulate(c)
    eL, eT = oracle(c["F"], u, c["sep"], c["steps"], dt, speed([c["line"]]), c["line"]["n"])
    f = max(np.max(np.abs(eT)), np.max(np.abs(eL * du)))
    tol = 1e-9 * f + 1e-13 * strength(c["F"], u, c["steps"], dt, 1.0) * np.sum(du)
    z = math.sqrt(np.min(np.diag(sim.arr(c["line"]["L"]))) / np.max(np.diag(sim.arr(c["line"]["C"]))))
    need(np.max(np.abs(V)) <= tol and np.max(np.abs(I)) * z <= tol,
         "a static field derived from a potential drives up to %.3g V and %.3g A (transverse voltages up to %.3g V)" % (
             np.max(np.abs(V)), np.max(np.abs(I)), f))
    return Info(np.max(np.abs(eL)) > 0 and np.max(np.abs(eT)) > 0, ["seg%d" % len(c["line"]["ndiv"])])


SUBS = [
    Sub("line", line_case, run_line, 640, 12000, "the field has a component along a cell or a separation and a current flowed"),
    Sub("wave", wave_case, run_wave, 160, 2400, "the longitudinal field differs between conductor and reference and a current flowed"),
    Sub("network", net_case, run_net, 480, 8000, "a bundle was driven by the field"),
    Sub("relations", same_case, run_same, 200, 3000, "the field drives a current"),
    Sub("static", static_case, run_static, 160, 2400, "both the longitudinal and the transverse terms are non-zero"),
]
