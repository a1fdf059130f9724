"""C17: extracted scattering parameters describe the simulated line."""
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm

import src.networkExtraction as nx
from harness import gen, sim
from harness.core import Info, Invalid, Sub, close, need

ASSUMPTIONS = [
    "the line carries no sources of its own and all its terminal impedances are positive",
    "the run lasts until the response has died out (below 1e-11 of its start)",
    "a port is the plane in the middle of the end cell (mean of the two nodes next to it, current of that cell)",
]
MAX_STEPS = 3000


# ---- discrete reference: the leapfrog equations solved for one complex exponential ---------------------------------

def update_matrices(spec, dt):
    """V' = A V + B I + D (e' + e), I' = Q V' + P I on stacked nodes/cells; e are the terminal sources."""
    n = spec["n"]
    _, du = sim.grid(spec)
    N = len(du)
    L, C, R, G = sim.arr(spec["L"]), sim.arr(spec["C"]), sim.mat(spec["R"], n), sim.mat(spec["G"], n)
    Z = [sim.zmat(spec["Zs"], n), sim.zmat(spec["Zl"], n)]
    I = np.eye(n)
    nv, ni = n * (N + 1), n * N
    A, B, D = np.zeros((nv, nv)), np.zeros((nv, ni)), np.zeros((nv, 2 * n))
    Q, P = np.zeros((ni, nv)), np.zeros((ni, ni))
    b = lambda k: slice(k * n, (k + 1) * n)
    for k in range(1, N):
        w = 0.5 * (du[k - 1] + du[k])
        F = np.linalg.inv(w * (C / dt + G / 2))
        A[b(k), b(k)] = F @ (w * (C / dt - G / 2))
        B[b(k), b(k)], B[b(k), b(k - 1)] = -F, F
    for k, c, z, s, d in ((0, 0, Z[0], -1, du[0]), (N, N - 1, Z[1], 1, du[-1])):
        F = np.linalg.inv(z @ (d * (C / dt + G / 2)) + I)
        A[b(k), b(k)] = F @ (z @ (d * (C / dt - G / 2)) - I)
        B[b(k), b(c)] = s * 2 * F @ z
        D[b(k), b(0 if k == 0 else 1)] = F
    for k in range(N):
        F = np.linalg.inv(du[k] * (L / dt + R / 2))
        P[b(k), b(k)] = F @ (du[k] * (L / dt - R / 2))
        Q[b(k), b(k + 1)], Q[b(k), b(k)] = -F, F
    return A, B, D, Q, P


def decay(M):
    A, B, D, Q, P = M
    T = np.block([[A, B], [Q @ A, Q @ B + P]])
    w = np.linalg.eigvals(T)
    # at the default step the alternating mode is neither damped nor ever excited
    w = np.abs(w[np.abs(w + 1) > 1e-4])
    return max(0.1, float(np.max(w)) if w.size else 0.0)


def discrete_s(spec, dt, M, f, p1, p2):
    n = spec["n"]
    A, B, D, Q, P = M
    N = sum(spec["ndiv"])
    nv, ni = A.shape[0], P.shape[0]
    Z = {"S": np.diag(sim.zmat(spec["Zs"], n)), "L": np.diag(sim.zmat(spec["Zl"], n))}

    def waves(p, V, I, w):
        side, c = p
        a, b, s = (0, 1, 1.0) if side == "S" else (N - 1, N, -1.0)
        v = 0.5 * (V[a * n + c] + V[b * n + c])
        i = s * 0.5 * I[a * n + c] * (1 + 1 / w)
        z = Z[side][c]
        return 0.5 * (v + z * i) / np.sqrt(z), 0.5 * (v - z * i) / np.sqrt(z)

    S = np.zeros((len(f), 2, 2), complex)
    for k, fk in enumerate(f):
        w = np.exp(2j * np.pi * fk * dt)
        K = np.block([[np.eye(nv) * w - A, -B], [-Q * w, np.eye(ni) * w - P]])
        for col, (src, other) in enumerate(((p1, p2), (p2, p1))):
            rhs = np.zeros(nv + ni, complex)
            rhs[:nv] = D[:, (0 if src[0] == "S" else n) + src[1]] * (w + 1)
            X = np.linalg.solve(K, rhs)
            a1, b1 = waves(src, X[:nv], X[nv:], w)
            _, b2 = waves(other, X[:nv], X[nv:], w)
            S[k, col, col] = b1 / a1
            S[k, 1 - col, col] = b2 / a1
    return S


# ---- theory: the telegrapher's equations between the two port planes -------------------------------------------------

def theory_s(spec, length, f, p1, p2):
    n = spec["n"]
    L, C, R, G = sim.arr(spec["L"]), sim.arr(spec["C"]), sim.mat(spec["R"], n), sim.mat(spec["G"], n)
    Z = {"S": np.diag(sim.zmat(spec["Zs"], n)), "L": np.diag(sim.zmat(spec["Zl"], n))}
    S = np.zeros((len(f), 2, 2), complex)
    O, I = np.zeros((n, n)), np.eye(n)
    for k, fk in enumerate(f):
        jw = 2j * np.pi * fk
        T = expm(-length * np.block([[O, R + jw * L], [G + jw * C, O]]))  # [V, I] at the far end from the near end
        for col, (src, other) in enumerate(((p1, p2), (p2, p1))):
            E = {"S": np.zeros(n), "L": np.zeros(n)}
            E[src[0]][src[1]] = 1.0
            # V0 = Es - Zs I0 ; VL = El + Zl IL
            top = np.hstack([I, np.diag(Z["S"])])
            bot = np.hstack([I, -np.diag(Z["L"])]) @ T
            X = np.linalg.solve(np.vstack([top, bot]), np.concatenate([E["S"], E["L"]]))
            Y = T @ X
            V = {"S": X[:n], "L": Y[:n]}
            J = {"S": X[n:], "L": -Y[n:]}

            def wave(p, sign):
                z = Z[p[0]][p[1]]
                return 0.5 * (V[p[0]][p[1]] + sign * z * J[p[0]][p[1]]) / np.sqrt(z)
            S[k, col, col] = wave(src, -1) / wave(src, 1)
            S[k, 1 - col, col] = wave(other, -1) / wave(src, 1)
    return S


# ---- cases -----------------------------------------------------------------------------------------------------------

@st.composite
def line_case(draw, max_n=2, max_cells=7, uniform=False):
    s = draw(gen.line(max_n=max_n, max_cells=max_cells, max_seg=1 if uniform else 3, terminated=False))
    n = s["n"]
    z0 = float(np.sqrt(s["L"][0][0] / s["C"][0][0]))
    one = st.sampled_from([0.5, 0.8, 1.0, 1.5, 2.0]).map(lambda k: gen.rnd(k * z0))
    s["Zs"], s["Zl"] = [draw(one) for _ in range(n)], [draw(one) for _ in range(n)]
    if draw(st.booleans()) and n == 1:
        s["Zs"], s["Zl"] = s["Zs"][0], s["Zl"][0]
    ports = [(e, c) for e in "SL" for c in range(n)]
    p1 = draw(st.sampled_from(ports))
    p2 = draw(st.sampled_from([p for p in ports if p != p1]))
    return {"line": s, "p1": list(p1), "p2": list(p2), "m": draw(st.integers(8, 30)),
            "dt": draw(st.sampled_from([1.0, 1.0, 0.6])), "lo": draw(st.sampled_from([0.0, 0.1, 0.4])),
            "ran": draw(st.sampled_from([0, 0, 5]))}


def extract(c, spec, p1=None, p2=None):
    """Returns (frequencies, S, time step, update matrices, number of steps)."""
    dt = sim.cfl(spec)
    if c["dt"] != 1.0:
        dt *= c["dt"]
    M = update_matrices(spec, dt)
    rho = decay(M)
    if rho > 0.99:
        raise Invalid("the response dies out too slowly")
    fmax = 1.0 / (c["m"] * dt)
    steps = 8 * c["m"] + 10 + int(np.ceil(np.log(1e-11) / np.log(rho)))
    if steps > MAX_STEPS:
        raise Invalid("too long")
    # band edges off the frequency grid
    flo = c["lo"] * fmax + 0.377 / (steps * dt) if c["lo"] else 0.0
    fhi = fmax + 0.123 / (steps * dt)
    line = sim.build_mtl(spec)
    if c["dt"] != 1.0:
        line.set_time_step(1, dt)
    if c["ran"]:
        # whatever ran on the line before must not matter
        line.v[:] = 0.3
        line.i[:] = -0.01
        line.run_until(sim.until(c["ran"], dt))
    before = state(line)
    args = {}
    if p1 is not None:
        args = {"p1": tuple(p1), "p2": tuple(p2)}
    ntw = nx.extract_2p_network(line, flo, fhi, sim.until(steps, dt), **args)
    after = state(line)
    for k in before:
        need(np.array_equal(before[k], after[k]), "extraction changed the line's %s" % k)
    f = np.array(ntw.f)
    grid = np.fft.fftshift(np.fft.fftfreq(steps, dt))
    grid = grid[(grid >= flo) & (grid < fhi)]
    close(f, grid, "frequencies of the extracted network", rtol=1e-9)
    return f, np.array(ntw.s), dt, M, steps


def state(line):
    return {"v": line.v.copy(), "i": line.i.copy(), "time": np.array([line.time, line.dt]),
            "probes": np.array([len(line.probes), len(line.port_probes)]),
            "sources": np.array([[f(1e-9) for f in row] for row in line.v_sources], dtype=float),
            "r": line.r.copy(), "g": line.g.copy(), "zs": line.zs.copy(), "zl": line.zl.copy()}


def cclose(a, b, what, atol):
    a, b = np.asarray(a), np.asarray(b)
    close(np.real(a), np.real(b), what + " (real part)", rtol=0.0, atol=atol)
    close(np.imag(a), np.imag(b), what + " (imaginary part)", rtol=0.0, atol=atol)


def run_discrete(c):
    spec = c["line"]
    p1, p2 = tuple(c["p1"]), tuple(c["p2"])
    f, S, dt, M, steps = extract(c, spec, p1, p2)
    pick = np.unique(np.linspace(0, len(f) - 1, 25).astype(int))
    want = discrete_s(spec, dt, M, f[pick], p1, p2)
    for i in range(2):
        for j in range(2):
            cclose(S[pick, i, j], want[:, i, j], "S%d%d between %s and %s" % (i + 1, j + 1, p1, p2), 2e-6)
    _, S2, _, _, _ = extract(c, spec, p2, p1)
    cclose(S2[:, ::-1, ::-1], S, "S with the ports exchanged", 1e-9)
    if p1 == ("S", 0) and p2 == ("L", 0):
        _, S3, _, _, _ = extract(c, spec)
        cclose(S3, S, "S between the default ports", 1e-12)
    return Info(spec["n"] > 1 or abs(S[:, 0, 0]).max() > 1e-3, ["n=%d" % spec["n"], "same end" if p1[0] == p2[0] else "through"])


@st.composite
def theory_case(draw):
    c = draw(line_case(uniform=True))
    c["dt"] = 1.0
    c["m"] = draw(st.integers(30, 60))
    s = c["line"]
    # losses small per cell, so that the mesh resolves them
    u, du = sim.grid(s)
    if s["R"] is not None:
        s["R"] = (np.array(s["R"]) / (10 * max(1.0, du[0] * np.max(s["R"])))).tolist()
    if s["G"] is not None:
        s["G"] = (np.array(s["G"]) / (10 * max(1.0, 1e3 * du[0] * np.max(s["G"])))).tolist()
    c["matched"] = s["n"] == 1 and s["R"] is None and s["G"] is None and draw(st.booleans())
    if c["matched"]:
        z = float(np.sqrt(s["L"][0][0] / s["C"][0][0]))
        s["Zs"] = s["Zl"] = z
    return c


def run_theory(c):
    spec = c["line"]
    p1, p2 = tuple(c["p1"]), tuple(c["p2"])
    f, S, dt, M, steps = extract(c, spec, p1, p2)
    _, du = sim.grid(spec)
    want = theory_s(spec, float(np.sum(du)) - float(du[0]), f, p1, p2)
    w = 2 * np.pi * np.abs(f) * dt
    tol = THEORY * (w + 1e-6) + loss_error(spec, du)
    for i in range(2):
        for j in range(2):
            cclose(S[:, i, j], want[:, i, j], "S%d%d between %s and %s against theory" % (i + 1, j + 1, p1, p2), tol)
    cclose(S[:, 0, 1], S[:, 1, 0], "S12 against S21", tol)
    for k in range(len(f)):
        big = np.linalg.norm(S[k], 2)
        need(big <= 1 + tol[k], "the extracted network is active: norm %.9g at f=%g" % (big, f[k]))
    if c["matched"]:
        N = len(du)
        phase = np.exp(-2j * np.pi * f * dt * (N - 1))
        cclose(S[:, 0, 0], 0 * phase, "reflection at a matched port", 1e-6)
        cclose(S[:, 1, 1], 0 * phase, "reflection at the other matched port", 1e-6)
        cclose(S[:, 1, 0], phase, "transmission of a matched line", 1e-6)
        cclose(S[:, 0, 1], phase, "transmission of a matched line, backwards", 1e-6)
    return Info(True, ["matched" if c["matched"] else "general", "n=%d" % spec["n"]])


THEORY = 2.0  # the ports' terminations lie half a cell outside their planes; largest ratio met is about 0.7


def loss_error(spec, du):
    """The end half cells' losses lie outside the port planes."""
    z = float(np.sqrt(spec["L"][0][0] / spec["C"][0][0]))
    r = 0.0 if spec["R"] is None else float(np.max(spec["R"])) / z
    g = 0.0 if spec["G"] is None else float(np.max(spec["G"])) * z
    return 2.0 * float(du[0]) * (r + g)


SUBS = [
    Sub("discrete", line_case, run_discrete, 240, 6000, "two conductors, or some reflection"),
    Sub("theory", theory_case, run_theory, 160, 4000, "every case"),
]
