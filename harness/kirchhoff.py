"""Residual oracles: discrete Kirchhoff laws evaluated on an observed history.

They look only at recorded voltages and currents and at the user's own
parameters, so they do not depend on how the solver is organised.
"""
import numpy as np

from .core import Violation


def check(res, scale, what, tol=1e-9, floor=0.0):
    """res and scale share their shape; scale is the sum of magnitudes of the terms summed in res."""
    if not np.all(np.isfinite(res)):
        raise Violation("%s: non-finite values" % what)
    if res.size == 0:
        return
    # rounding of the largest quantities of the run reaches every balance of the same run
    s = scale + 1e-3 * max(np.max(scale), floor) + 1e-300
    r = np.abs(res) / s
    k = np.unravel_index(int(np.argmax(r)), r.shape)
    if r[k] > tol:
        raise Violation("%s violated at (step, conductor, place)=%s: residual %.3g of %.3g" % (
            what, tuple(int(i) for i in k), res[k], scale[k]))


def terms(*ts):
    """Sum and magnitude-sum of the given arrays."""
    s = sum(ts)
    m = sum(np.abs(t) for t in ts)
    return s, m


def mul(M, X):
    """M [k,n,n] or [n,n] applied to X [T,n,k]."""
    if M.ndim == 2:
        return np.einsum("ij,tjk->tik", M, X)
    return np.einsum("kij,tjk->tik", M, X)


def cells(V, I, du, dt, L, R, what="voltage law in a cell", extra=None, tol=1e-9, floor=0.0):
    """L dI/dt + R <I> + dV/du = extra, at every cell and step."""
    I1, I0 = I[1:], I[:-1]
    parts = [mul(L, I1) / dt, -mul(L, I0) / dt, mul(R, I1) / 2, mul(R, I0) / 2,
             V[1:, :, 1:] / du, -V[1:, :, :-1] / du]
    if extra is not None:
        parts += [-e for e in (extra if isinstance(extra, list) else [extra])]
    r, s = terms(*parts)
    check(r, s, what, tol, max(np.max(np.abs(V)) / np.min(du), floor))


def interior(V, I, du, dt, C, G, what="charge balance at an interior node", tol=1e-9, extra=None, floor=0.0):
    """C dV/dt + G <V> + dI/du = 0 at every interior node; the node owns half of each adjacent cell."""
    d = 0.5 * (du[1:] + du[:-1])
    V1, V0, I0 = V[1:, :, 1:-1], V[:-1, :, 1:-1], I[:-1]
    if C.ndim == 3:
        C, G = C[1:-1], G[1:-1]
    parts = [mul(C, V1) / dt, -mul(C, V0) / dt, mul(G, V1) / 2, mul(G, V0) / 2,
             I0[:, :, 1:] / d, -I0[:, :, :-1] / d]
    if extra is not None:
        parts += [-extra]
    r, s = terms(*parts)
    check(r, s, what, tol, max(np.max(np.abs(I)) / np.min(d), floor) if len(d) else 0.0)


def terminal(V, I, du, dt, C, G, Z, vs, side, what, tol=1e-9, E=None, low=0.0):
    """Half cell of charge + line current = (source - V)/Z at one end, written without dividing by Z.

    E[T+1, n, nodes] is the voltage of the transverse field, which charges the line besides V.
    vs[T+1, n]: source samples; row m is the sample used as 'old' in step m and row m+1 as 'new'.
    """
    k, j, sgn, d = (0, 0, 1.0, du[0]) if side == "S" else (-1, -1, -1.0, du[-1])
    v1, v0, i0 = V[1:, :, k], V[:-1, :, k], sgn * I[:-1, :, j]
    if C.ndim == 3:
        C, G = C[k], G[k]
    zc = d * (Z @ C) / dt
    zg = d * (Z @ G) / 2
    w1, w0 = (v1, v0) if E is None else (v1 + E[1:, :, k], v0 + E[:-1, :, k])
    parts = [w1 @ zc.T, -w0 @ zc.T, w1 @ zg.T, w0 @ zg.T, 2 * i0 @ Z.T, v1, v0, -vs[1:], -vs[:-1]]
    r, s = terms(*parts)
    floor = 0.0 if E is None else np.max(np.abs(zc)) * (np.max(np.abs(E)) + low)
    check(r, s, what, tol, max(np.max(np.abs(V)), floor))


def source_samples(fns, e, n, steps, dt):
    """Samples at (m-1) dt: the solver samples its sources at the beginning of the step it computes."""
    s = np.zeros((steps + 1, n))
    for (c, ee), f in fns.items():
        if ee == e:
            s[:, c] = [f((m - 1) * dt) for m in range(steps + 1)]
    return s
