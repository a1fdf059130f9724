"""All laws of a bundle (per-unit-length, lumped elements, transfer impedances, fields) as one residual oracle."""
import numpy as np
from scipy.linalg import block_diag

from . import dispersive as dp, kirchhoff as kh, sim, system as sy


def couplings(b):
    """{(row, col): [models per cell]} of the whole bundle."""
    N = sum(b["ndiv"])
    cnt = sy.n_of_levels(b)
    out = {}

    def pairs(z):
        for o in z["oc"]:
            for i in z["ic"]:
                go, gi = sum(cnt[:z["ol"]]) + o, sum(cnt[:z["il"]]) + i
                if z["m"]["direction"] in ("in", "both"):
                    yield gi, go
                if z["m"]["direction"] in ("out", "both"):
                    yield go, gi
    for z in b["zt"]:
        for k in pairs(z):
            for x in out.setdefault(k, [[] for _ in range(N)]):
                x.append(z["m"])
    for z in b["czt"]:
        for k in pairs(z):
            out.setdefault(k, [[] for _ in range(N)])[0 if z["side"] == "initial" else N - 1] = [z["m"]]
    return out


def matrices(b):
    ls = [s for lv in b["levels"] for s in lv]
    return (block_diag(*[sim.arr(s["L"]) for s in ls]), block_diag(*[sim.mat(s["R"], s["n"]) for s in ls]),
            block_diag(*[sim.arr(s["C"]) for s in ls]), block_diag(*[sim.mat(s["G"], s["n"]) for s in ls]))


def bundle(b, V, I, dt, tol=1e-6, node_tol=1e-7, R=None, G=None, field=None):
    """Checks every cell and interior node of the bundle; returns the largest coupled drop and the cell scale.

    field: (e_L[T, n, cells], e_T[T+1, n, nodes], size of the field below which nothing is judged).

    R [cell, n, n] and G [node, n, n] replace the described ones (local edits).
    """
    if field is not None:
        V = V + field[1]
    T, n, N = len(V) - 1, V.shape[1], sum(b["ndiv"])
    du = sim.grid(b)[1]
    L, R0, C, G0 = matrices(b)
    R = R0 if R is None else R
    G = G0 if G is None else G
    drop, mag = np.zeros((T, n, N)), np.zeros((T, n, N))
    zt = 0.0
    memo = {}
    for (row, col), cells in couplings(b).items():
        for k, ms in enumerate(cells):
            for m in ms:
                key = (id(m), col, k)
                if key not in memo:
                    memo[key] = dp.drop(m, I[:, col, k], dt)
                d, g = memo[key]
                drop[:, row, k] -= d
                mag[:, row, k] += g
                zt = max(zt, np.max(np.abs(d)))
    for d in b["disp"]:
        row = sy.offset(b, d["level"], d["line"]) + d["c"]
        v, g = dp.drop(d["m"], I[:, row, d["cell"]], dt)
        drop[:, row, d["cell"]] += v / du[d["cell"]]
        mag[:, row, d["cell"]] += g / du[d["cell"]]
    I1, I0 = I[1:], I[:-1]
    parts = [kh.mul(L, I1) / dt, -kh.mul(L, I0) / dt, kh.mul(R, I1) / 2, kh.mul(R, I0) / 2,
             V[1:, :, 1:] / du, -V[1:, :, :-1] / du]
    if field is not None:
        parts.append(-field[0])
    res, sc = kh.terms(*parts)
    # each conductor is judged on its own scale: coupled voltages are small next to the driven ones
    et = 0.0 if field is None else np.max(np.abs(field[1])) + field[2]
    low = et / np.min(du)
    for k in range(n):
        kh.check((res + drop)[:, k:k + 1], (sc + mag)[:, k:k + 1],
                 "voltage law of conductor %d of bundle %s" % (k, b["name"]), tol,
                 max(1e-6 * np.max(sc), low))
    kh.interior(V, I, du, dt, C if G.ndim == 2 else np.repeat(C[None], len(G), axis=0), G, tol=node_tol,
                floor=np.max(np.abs(C)) / dt * et)
    return zt, np.max(sc)
