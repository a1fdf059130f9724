"""C02: travel, reflection, modal speeds and steady states of uniform lines."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, sim, system as sy
from harness.core import Info, Sub, close, need

ASSUMPTIONS = [
    "sources are sampled at the start of each step (one-step latency of the scheme is part of the contract)",
    "a terminal source is quiet before t=0",
]


def equal_cells(max_cells):
    """Polylines whose cells all have the same length."""
    @st.composite
    def g(draw):
        geo = draw(gen.geometry(max_cells=max_cells, max_seg=2))
        P, nd = np.array(geo["nodes"]), geo["ndiv"]
        du = np.linalg.norm(P[1] - P[0]) / nd[0]
        out = [P[0]]
        for a, b, m in zip(P[:-1], P[1:], nd):
            out.append(out[-1] + (b - a) / np.linalg.norm(b - a) * du * m)
        return {"nodes": [[float(x) for x in p] for p in out], "ndiv": nd}
    return g()


def quiet(f, dt):
    return lambda t: f(t) if t > -0.25 * dt else 0.0


def run_uniform(s, dt, drives, steps, mode):
    """History of the line with built-in terminations (mode 'line') or resistor networks (mode 'net')."""
    u, _ = sim.grid(s)
    n = s["n"]
    line = sim.build_mtl(s)
    fns = {(d["c"], d["e"]): quiet(sim.wavefn(d["w"], dt), dt) for d in drives}
    if mode == "line":
        for (c, e), f in fns.items():
            line.add_voltage_source(position=sim.end_pos(u, e), conductor=c, magnitude=f)
        rec = sim.Recorder(line, u)
        line.run_until(sim.until(steps, dt))
    else:
        md = sy.mtl.MTLD({0: [line]}, name="b0")
        nw = []
        for side, z, first in (("S", s["Zs"], 0), ("L", s["Zl"], n)):
            net = sy.networks.Network({line: {"side": side, "bundle": md, "connections": [
                [first + k, k, {"connectorType": "Conn_R"}] for k in range(n)]}})
            for k in range(n):
                kw = {"Vt": fns[(k, side)]} if (k, side) in fns else {}
                net.connect_to_ground(first + k, R=z[k] if isinstance(z, list) else z, **kw)
            nw.append(sy.networks.NetworkD({0: net}))
        m = sy.mtln.MTLN([md], nw)
        rec = sim.Recorder(md, u)
        m.run_until(sim.until(steps, dt))
    return rec.history(), fns


# ---- bounce diagram ---------------------------------------------------------------------------------------------

@st.composite
def bounce_case(draw):
    n = draw(st.integers(1, 3))
    C = draw(gen.cmat(n))
    v = draw(st.sampled_from([3e8, 2e8, 1e8, 2.5e8]))
    s = {"n": n, "C": C, "v": v, "R": None, "G": None}
    s.update(draw(equal_cells(8)))
    mode = draw(st.sampled_from(["line", "line", "net"]))
    one = st.one_of(st.sampled_from([50.0, 10.0, 1e3, 1e5] + ([0.0] if mode == "line" else [])), gen.pos(0.5, 500.0))
    for k in ("Zs", "Zl"):
        s[k] = [draw(one) for _ in range(n)]
    s["matched"] = draw(st.sampled_from([None, None, "S", "L"])) if n == 1 else None
    steps = draw(st.integers(6, 60))
    return {"line": s, "mode": mode, "steps": steps, "drives": draw(gen.drives(n, steps))}


def run_bounce(c):
    s = dict(c["line"])
    n, N, v = s["n"], sum(s["ndiv"]), s["v"]
    C = sim.arr(s["C"])
    L = np.linalg.inv(C) / v ** 2
    s["L"] = ((L + L.T) / 2).tolist()
    du = sim.grid(s)[1][0]
    dt = du / v
    Y = v * C
    if s["matched"]:
        s["Zs" if s["matched"] == "S" else "Zl"] = [float(1 / Y[0, 0])]
    (V, I), fns = run_uniform(s, dt, c["drives"], c["steps"], c["mode"])
    T = c["steps"]
    need(len(V) == T + 1, "recorded %d steps, expected %d: the default step is not one cell per step" % (len(V) - 1, T))
    one = np.eye(n)
    Zs, Zl = np.diag(s["Zs"]), np.diag(s["Zl"])
    # f[k, m]: forward wave at node k after step m; g: backward wave
    f, g = np.zeros((N + 1, T + 1, n)), np.zeros((N + 1, T + 1, n))
    src = lambda e, m: np.array([fns[(k, e)]((m - 1) * dt) if (k, e) in fns else 0.0 for k in range(n)])
    for m in range(1, T + 1):
        f[1:, m] = f[:-1, m - 1]
        g[:-1, m] = g[1:, m - 1]
        f[0, m] = np.linalg.solve(one + Zs @ Y, (Zs @ Y - one) @ g[0, m] + src("S", m))
        g[N, m] = np.linalg.solve(one + Zl @ Y, (Zl @ Y - one) @ f[N, m] + src("L", m))
    want = np.transpose(f + g, (1, 2, 0))
    close(V, want, "voltage of the bounce diagram at (step, conductor, node)", 1e-7)
    # currents: forward wave leaving node k minus backward wave arriving from node k+1
    wi = np.zeros((T + 1, n, N))
    for m in range(1, T + 1):
        wi[m] = (Y @ (f[:-1, m] - (g[1:, m])).T)
    close(I[1:], wi[1:], "current of the bounce diagram at (step, conductor, cell)", 1e-7)
    refl = T > 2 * N
    return Info(np.max(np.abs(V)) > 0 and T > N, ["n%d" % n, c["mode"]] + (["reflected"] if refl else []) +
                (["matched"] if s["matched"] else []) + (["bent"] if len(s["ndiv"]) > 1 else []))


# ---- modes ------------------------------------------------------------------------------------------------------

@st.composite
def modal_case(draw):
    n = draw(st.integers(1, 4))
    s = {"n": n, "L": draw(gen.lmat(n)), "C": draw(gen.cmat(n)), "R": None, "G": None, "Zs": 0.0, "Zl": 0.0}
    s.update(draw(gen.geometry(max_cells=9, max_seg=2, uniform=draw(st.booleans()))))
    steps = draw(st.integers(6, 40))
    return {"line": s, "steps": steps, "mode": draw(st.integers(0, n - 1)), "w": draw(gen.wave(steps)),
            "e": draw(st.sampled_from(["S", "L"])), "dt": draw(st.sampled_from([None, None, 0.8, 0.4]))}


def run_modal(c):
    s = c["line"]
    n, N = s["n"], sum(s["ndiv"])
    L, C = sim.arr(s["L"]), sim.arr(s["C"])
    u, du = sim.grid(s)
    # modal analysis through the symmetric form C^1/2 L C^1/2
    w, U = np.linalg.eigh(C)
    Ch = U @ np.diag(np.sqrt(w)) @ U.T
    lam, X = np.linalg.eigh(Ch @ L @ Ch)
    q = np.linalg.solve(Ch, X[:, c["mode"]])      # voltage shape of the mode: L C q = lam q
    lam = lam[c["mode"]]
    dt = sim.cfl(s) * (c["dt"] or 1.0)
    line = sim.build_mtl(s)
    if c["dt"]:
        line.set_time_step(1, dt)
    f = sim.wavefn(c["w"], dt)
    q = q / np.max(np.abs(q))
    for k in range(n):
        line.add_voltage_source(position=sim.end_pos(u, c["e"]), conductor=k,
                                magnitude=(lambda a: lambda t: a * f(t))(float(q[k])))
    rec = sim.Recorder(line, u)
    line.run_until(sim.until(c["steps"], dt))
    V, I = rec.history()
    T = c["steps"]
    # scalar line of speed 1/sqrt(lam): shorted at one end, driven at the other
    a = np.zeros((T + 1, N + 1))
    b = np.zeros(N)
    d = 0.5 * (du[1:] + du[:-1])
    drive, other = (0, N) if c["e"] == "S" else (N, 0)
    y = 0.0
    for m in range(1, T + 1):
        a[m, 1:-1] = a[m - 1, 1:-1] - dt * (b[1:] - b[:-1]) / d
        y = f((m - 1) * dt) + f((m - 2) * dt) - y
        a[m, drive], a[m, other] = y, 0.0
        b = b - dt / lam * (a[m, 1:] - a[m, :-1]) / du
    # scale: the gap between the modes makes the other modes' rounding visible, nothing more
    close(V, np.einsum("n,tk->tnk", q, a), "voltage of mode %d" % c["mode"], 1e-7)
    need(np.isfinite(I).all(), "non-finite current")
    return Info(np.max(np.abs(a)) > 0, ["n%d" % n, "end_" + c["e"]] + (["dt_set"] if c["dt"] else []))


# ---- steady state -----------------------------------------------------------------------------------------------

@st.composite
def dc_case(draw):
    n = draw(st.integers(1, 3))
    s = draw(sy.pul(n, True))
    s.update(draw(gen.geometry(max_cells=5, max_seg=2)))
    for k in ("Zs", "Zl"):
        s[k] = [draw(gen.pos(0.4, 2.5)) for _ in range(n)]          # of the conductor's own characteristic impedance
    dr = [{"c": k, "e": e, "A": draw(st.sampled_from([1.0, -2.0, 0.5, 10.0]))}
          for k in range(n) for e in ("S", "L") if draw(st.booleans())]
    return {"line": s, "drives": dr or [{"c": 0, "e": "S", "A": 1.0}], "mode": draw(st.sampled_from(["line", "net"]))}


def run_dc(c):
    s = dict(c["line"])
    n, N = s["n"], sum(s["ndiv"])
    L, C, R, G = sim.arr(s["L"]), sim.arr(s["C"]), sim.mat(s["R"], n), sim.mat(s["G"], n)
    own = np.sqrt(np.diag(L) / np.diag(C))
    for k in ("Zs", "Zl"):
        s[k] = [float("%.6g" % (a * b)) for a, b in zip(s[k], own)]
    u, du = sim.grid(s)
    dt = sim.cfl(s)
    slow = np.sqrt(np.max(np.linalg.eigvals(L @ C).real))
    steps = int(45 * 2 * np.sum(du) * slow / dt)
    dr = [{"c": d["c"], "e": d["e"], "w": {"k": "step", "A": d["A"], "t0": 0, "w": 1}} for d in c["drives"]]
    (V, I), _ = run_uniform(s, dt, dr, steps, c["mode"])
    # the grid's own highest frequency dies slowly: look at the smooth part of the end of the run
    k = max(8, steps // 4)
    win = np.hanning(k + 2)[1:-1]
    win /= np.sum(win)
    Ve, Ie = np.einsum("t,tnk->nk", win, V[-k:]), np.einsum("t,tnk->nk", win, I[-k:])
    # nodal analysis of the resistor ladder; lossless cells make all their nodes one node
    M = np.zeros(((N + 1) * n + N * n,) * 2)
    rhs = np.zeros(len(M))
    nv = (N + 1) * n
    vi = lambda k: slice(k * n, (k + 1) * n)
    ci = lambda k: slice(nv + k * n, nv + (k + 1) * n)
    for k in range(N + 1):
        own_len = (du[k] / 2 if k < N else 0) + (du[k - 1] / 2 if k else 0)
        M[vi(k), vi(k)] += G * own_len
        if k < N:
            M[vi(k), ci(k)] += np.eye(n)
        if k:
            M[vi(k), ci(k - 1)] -= np.eye(n)
    for k in range(N):
        M[ci(k), vi(k)] += np.eye(n)
        M[ci(k), vi(k + 1)] -= np.eye(n)
        M[ci(k), ci(k)] -= R * du[k]
    for side, z, k in (("S", s["Zs"], 0), ("L", s["Zl"], N)):
        M[vi(k), vi(k)] += np.diag(1 / np.array(z))
        for d in c["drives"]:
            if d["e"] == side:
                rhs[k * n + d["c"]] += d["A"] / z[d["c"]]
    x = np.linalg.solve(M, rhs)
    wv = x[:nv].reshape(N + 1, n).T
    wi = x[nv:].reshape(N, n).T
    sc = np.max(np.abs(wv)) + np.max(np.abs(wi)) * np.min(own)
    close(Ve, wv, "steady voltage at (conductor, node)", 1e-5, scale=sc)
    close(Ie, wi, "steady current at (conductor, cell)", 1e-5, scale=sc / np.min(own))
    return Info(sc > 0, ["n%d" % n, c["mode"]] + (["R"] if s["R"] is not None else []) + (["G"] if s["G"] is not None else []))


SUBS = [
    Sub("bounce", bounce_case, run_bounce, 3200, 20000, "a pulse crossed the line"),
    Sub("modes", modal_case, run_modal, 2400, 16000, "the mode was driven"),
    Sub("steady", dc_case, run_dc, 320, 2000, "a nonzero steady state"),
]
