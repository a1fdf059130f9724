"""Building systems through the public API and observing them through probes."""
import math

import numpy as np

import src.mtl as mtl
import src.mtln as mtln
import src.networks as networks


def arr(x):
    return np.array(x, dtype=float)


def mat(x, n):
    """R or G of a spec as an n x n matrix."""
    if x is None:
        return np.zeros((n, n))
    a = np.array(x, dtype=float)
    return a.reshape(1, 1) if a.ndim == 0 else a


def wavefn(w, dt):
    A, t0, s, k = float(w["A"]), w["t0"] * dt, w["w"] * dt, w["k"]
    if k == "step":
        return lambda t: A * float(t >= t0 - 0.25 * dt)
    if k == "gauss":
        return lambda t: A * math.exp(-((t - t0) / s) ** 2)
    if k == "sin":
        return lambda t: A * math.sin(2 * math.pi * t / (4 * s)) * float(t > 0)
    if k == "pulse":
        return lambda t: A * float(t0 - 0.25 * dt <= t <= t0 + s + 0.25 * dt)
    if k == "ramp":
        return lambda t: A * min(max(t - t0, 0.0) / s, 1.0)
    if k == "lin":
        return lambda t: A * max(t - t0, 0.0) / s
    raise KeyError(k)


def grid(spec):
    """Node positions and cell lengths of the discretised line, computed independently."""
    P = arr(spec["nodes"])
    u = [P[0]]
    for a, b, m in zip(P[:-1], P[1:], spec["ndiv"]):
        for k in range(1, m + 1):
            u.append(a + (b - a) * (k / m))
    u = np.array(u)
    return u, np.linalg.norm(np.diff(u, axis=0), axis=1)


def cfl(spec):
    """Largest stable step: shortest cell over the largest modal speed."""
    ev = np.linalg.eigvals(arr(spec["L"]) @ arr(spec["C"]))
    return float(np.min(grid(spec)[1]) * math.sqrt(np.min(ev.real)))


def mtl_args(spec):
    n = spec["n"]
    L, C = arr(spec["L"]), arr(spec["C"])
    kw = {}
    if n == 1:
        kw["l"], kw["c"] = float(L[0, 0]), float(C[0, 0])
    else:
        kw["l"], kw["c"] = L, C
    for key, name in (("R", "r"), ("G", "g")):
        if spec.get(key) is not None:
            a = np.array(spec[key], dtype=float)
            kw[name] = float(a) if a.ndim == 0 else a
    for key in ("Zs", "Zl"):
        z = spec.get(key, 0.0)
        kw[key] = arr(z) if isinstance(z, list) else float(z)
    kw["node_positions"] = arr(spec["nodes"])
    kw["ndiv"] = [int(k) for k in spec["ndiv"]]
    kw["name"] = spec.get("name", "line")
    return kw


def build_mtl(spec):
    return mtl.MTL(**mtl_args(spec))


def zmat(z, n):
    return np.diag(arr(z)) if isinstance(z, list) else float(z) * np.eye(n)


class Recorder:
    """Voltage probe at every node and current probe at every cell of a line or bundle."""

    def __init__(self, obj, u):
        self.obj, self.u = obj, u
        self.pv = [obj.add_probe(u[k].copy(), "voltage") for k in range(len(u))]
        self.pi = [obj.add_probe(u[k].copy(), "current") for k in range(len(u) - 1)]

    def history(self):
        """V[T+1, n, N+1], I[T+1, n, N] with the quiescent state first."""
        V = np.stack([p.val for p in self.pv], axis=2)
        I = np.stack([p.val for p in self.pi], axis=2)
        z = np.zeros((1,) + V.shape[1:])
        y = np.zeros((1,) + I.shape[1:])
        return np.concatenate([z, V]), np.concatenate([y, I])


def on_axis(u):
    return not np.any(u[:, :2])


def place_arg(u, p, number):
    """The position p on a line, given as a number where that is possible and asked for."""
    return float(p[2]) if number and on_axis(u) else np.array(p, dtype=float)


def end_pos(u, e):
    return u[0].copy() if e == "S" else u[-1].copy()


def add_drives(line, u, drs, dt):
    """Install terminal sources; returns {(c, e): fn}."""
    fns = {}
    for d in drs:
        f = wavefn(d["w"], dt)
        line.add_voltage_source(position=place_arg(u, end_pos(u, d["e"]), True), conductor=d["c"], magnitude=f)
        fns[(d["c"], d["e"])] = f
    return fns


def until(steps, dt):
    """A final time that is unambiguously `steps` whole steps long."""
    return (steps + 0.5) * dt


def run_line(spec, drs, steps, dt=None):
    """Returns (line, u, du, dt, V, I, source functions)."""
    line = build_mtl(spec)
    u, du = grid(spec)
    d = cfl(spec)
    if dt is not None:
        d = dt
        line.set_time_step(1, dt)
    fns = add_drives(line, u, drs, d)
    rec = Recorder(line, u)
    line.run_until(until(steps, d))
    V, I = rec.history()
    return line, u, du, d, V, I, fns
