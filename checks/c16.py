"""C16: waveforms have their declared shape at every instant."""
import math

import numpy as np
import sympy as sp
from hypothesis import strategies as st

import src.utils as utils
import src.waveforms as wf
from harness import gen
from harness.core import Info, Sub, Violation, close, need

ASSUMPTIONS = [
    "trapezoidal waves: positive rise and fall times, plateau of non-negative length, one pulse fits in a period",
    "double exponentials and 1-exp are not gated at t=0",
]


# ---- reference formulas: f(parameters, t), and where the function jumps ------------------------------------------

def ref_trap(p, t):
    T = 1.0 / p["f0"]
    r, f = p["rise"], p["fall"]
    flat = p["D"] * T - 0.5 * (r + f)
    m = t - T * math.floor(t / T)
    if m < r:
        return p["A"] * m / r
    if m < r + flat:
        return p["A"]
    if m < r + flat + f:
        return p["A"] * (1.0 - (m - r - flat) / f)
    return 0.0


REF = {
    "exp": lambda p, t: p["A"] * (1.0 - math.exp(-t / p["x0"])),
    "gaussian": lambda p, t: math.exp(-(t - p["x0"]) ** 2 / (2 * p["s0"] ** 2)),
    "gaussian_2": lambda p, t: p["A"] * math.exp(-((t - p["x0"]) / p["s0"]) ** 2),
    "square_pulse": lambda p, t: p["A"] if 0 <= t <= p["x0"] else 0.0,
    "triangle_pulse": lambda p, t: p["A"] * t / p["x0"] if 0 <= t <= p["x0"] else 0.0,
    "sin_sq_pulse": lambda p, t: p["A"] * math.sin(p["w"] * t) ** 2 if 0 <= t < math.pi / p["w"] else 0.0,
    "sin_pulse": lambda p, t: p["A"] * math.sin(p["w"] * t),
    "trapezoidal_wave": ref_trap,
    "ramp_pulse": lambda p, t: 0.0 if t < 0 else (p["A"] * t / p["x0"] if t < p["x0"] else p["A"]),
    "double_exp": lambda p, t: p["C"] * (math.exp(-p["a"] * t) - math.exp(-p["b"] * t)),
}

NUM = {
    "exp": lambda p, t: wf.exp(t, p["A"], p["x0"]),
    "gaussian": lambda p, t: wf.gaussian(t, p["x0"], p["s0"]),
    "gaussian_2": lambda p, t: wf.gaussian_2(t, p["A"], p["x0"], p["s0"]),
    "square_pulse": lambda p, t: wf.square_pulse(t, p["A"], p["x0"]),
    "triangle_pulse": lambda p, t: wf.triangle_pulse(t, p["A"], p["x0"]),
    "sin_sq_pulse": lambda p, t: wf.sin_sq_pulse(t, p["A"], p["w"]),
    "sin_pulse": lambda p, t: wf.sin_pulse(t, p["A"], p["w"]),
    "trapezoidal_wave": lambda p, t: wf.trapezoidal_wave(t, p["A"], p["rise"], p["fall"], p["f0"], p["D"]),
    "ramp_pulse": lambda p, t: wf.ramp_pulse(t, p["A"], p["x0"]),
    "double_exp": lambda p, t: wf.double_exp(t, p["C"], p["a"], p["b"]),
}

# symbolic form -> (reference, coordinates it travels along)
SYM = {
    "gaussian_2_sp": ("gaussian_2", "", lambda p, v: wf.gaussian_2_sp(p["A"], p["x0"], p["s0"])),
    "trapezoidal_wave_x_sp": ("trapezoidal_wave", "x", lambda p, v: wf.trapezoidal_wave_x_sp(
        p["A"], p["rise"], p["fall"], p["f0"], p["D"], v)),
    "trapezoidal_wave_sp": ("trapezoidal_wave", "x", lambda p, v: wf.trapezoidal_wave_sp(
        p["A"], p["rise"], p["fall"], p["f0"], p["D"], v)),
    "ramp_pulse_sp": ("ramp_pulse", "", lambda p, v: wf.ramp_pulse_sp(p["A"], p["x0"])),
    "ramp_pulse_x_sp": ("ramp_pulse", "x", lambda p, v: wf.ramp_pulse_x_sp(p["A"], p["x0"], v)),
    "ramp_pulse_y_sp": ("ramp_pulse", "y", lambda p, v: wf.ramp_pulse_y_sp(p["A"], p["x0"], v)),
    "ramp_pulse_z_sp": ("ramp_pulse", "z", lambda p, v: wf.ramp_pulse_z_sp(p["A"], p["x0"], v)),
    "double_exp_sp": ("double_exp", "", lambda p, v: wf.double_exp_sp(p["C"], p["a"], p["b"])),
    "double_exp_xy_sp": ("double_exp", "xy", lambda p, v: wf.double_exp_xy_sp(p["C"], p["a"], p["b"])),
    "double_exp_yz_sp": ("double_exp", "yz", lambda p, v: wf.double_exp_yz_sp(p["C"], p["a"], p["b"])),
    "double_exp_xz_sp": ("double_exp", "xz", lambda p, v: wf.double_exp_xz_sp(p["C"], p["a"], p["b"])),
}


def breaks(kind, p):
    """Instants where the shape changes, in increasing order (one period for periodic ones)."""
    if kind == "trapezoidal_wave":
        T = 1.0 / p["f0"]
        flat = p["D"] * T - 0.5 * (p["rise"] + p["fall"])
        return [0.0, p["rise"], p["rise"] + flat, p["rise"] + flat + p["fall"], T]
    if kind in ("sin_sq_pulse", "sin_pulse"):
        return [0.0, math.pi / p["w"] / 2, math.pi / p["w"]]
    if kind == "double_exp":
        return [0.0, 1 / p["a"], 1 / p["b"]]
    if kind in ("gaussian", "gaussian_2"):
        return [0.0, p["x0"] - p["s0"], p["x0"], p["x0"] + p["s0"]]
    return [0.0, p["x0"]]


def amplitude(kind, p):
    return abs(p.get("A", p.get("C", 1.0)))


@st.composite
def params(draw, kind, u=None):
    u = u or draw(st.sampled_from([1.0, 1e-9, 1e-6, 2.5e-8]))
    A = draw(st.one_of(st.sampled_from([1.0, -1.0, 0.0, 100.0]), st.integers(-5000, 5000).map(lambda k: k / 100)))
    one = gen.pos(0.05, 20.0)
    if kind == "trapezoidal_wave":
        T = draw(gen.pos(0.1, 10.0)) * u
        f0 = 1.0 / T
        T = 1.0 / f0
        r = draw(gen.pos(0.01, 0.4)) * T
        f = draw(st.one_of(st.just(None), gen.pos(0.01, 0.4)))
        f = r if f is None else f * T
        lo, hi = 0.5 * (r + f) / T + 1e-6, 1.0 - 0.5 * (r + f) / T
        D = draw(st.one_of(st.just(0.5), st.floats(lo, hi)))
        return {"A": A, "rise": r, "fall": f, "f0": f0, "D": min(max(D, lo), hi)}
    if kind in ("exp", "square_pulse", "triangle_pulse", "ramp_pulse"):
        return {"A": A, "x0": draw(one) * u}
    if kind == "gaussian":
        return {"x0": draw(gen.pos(-5.0, 20.0)) * u, "s0": draw(one) * u}
    if kind == "gaussian_2":
        return {"A": A, "x0": draw(gen.pos(-5.0, 20.0)) * u, "s0": draw(one) * u}
    if kind in ("sin_sq_pulse", "sin_pulse"):
        return {"A": A, "w": draw(one) / u}
    a = draw(one) / u
    return {"C": A, "a": a, "b": a * draw(gen.pos(0.1, 10.0))}


@st.composite
def times(draw, kind, p, periods=True):
    """Instants on, just around and between the breakpoints, before zero, and many periods away."""
    b = breaks(kind, p)
    span = max(abs(x) for x in b) or 1.0
    out = []
    for _ in range(draw(st.integers(4, 14))):
        how = draw(st.sampled_from(["break", "break", "ulp", "between", "before", "after", "wrap"]))
        i = draw(st.integers(0, len(b) - 1))
        if how in ("break", "ulp", "wrap") or (how == "between" and i == 0):
            t = b[i]
            if how == "ulp":
                t += draw(st.sampled_from([-1, 1])) * 1e-9 * span
            if how == "wrap" and kind in ("trapezoidal_wave", "sin_pulse"):
                T = 1 / p["f0"] if kind == "trapezoidal_wave" else 2 * math.pi / p["w"]
                t = t + T * draw(st.integers(-3, 40))
        elif how == "between":
            t = b[i - 1] + (b[i] - b[i - 1]) * draw(st.floats(0.0, 1.0))
        elif how == "before":
            t = -span * draw(st.floats(0.0, 4.0))
        else:
            t = span * draw(st.floats(1.0, 6.0))
        out.append(float(t))
    return out


def tol(kind, p, t):
    """Slope of the shape times the rounding of the instant."""
    b = breaks(kind, p)
    span = max(abs(x) for x in b) or 1.0
    widths = [y - x for x, y in zip(b[:-1], b[1:]) if y - x > 0]
    if kind == "trapezoidal_wave":
        widths = [p["rise"], p["fall"]]
    slope = amplitude(kind, p) / min(min(abs(w) for w in widths), span)
    return 1e-9 * amplitude(kind, p) + 1e-13 * (abs(t) + span) * slope


def expected(kind, p, t):
    return REF[kind](p, t)


# ---- numeric ------------------------------------------------------------------------------------------------------

@st.composite
def numeric_case(draw):
    kind = draw(st.sampled_from(sorted(REF)))
    p = draw(params(kind))
    return {"kind": kind, "p": p, "t": draw(times(kind, p)), "n": draw(st.integers(1, 5))}


def big(kind, p, t):
    """Exponentials far before their origin overflow: the tolerance follows the value."""
    return 1e-12 * abs(expected(kind, p, t))


def run_numeric(c):
    kind, p = c["kind"], c["p"]
    vals = []
    for t in c["t"]:
        got = float(NUM[kind](p, t))
        want = expected(kind, p, t)
        vals.append(got)
        close(got, want, "%s at t=%.17g with %s" % (kind, t, p), rtol=0.0, atol=tol(kind, p, t) + big(kind, p, t))
    if kind != "double_exp":
        close(NUM[kind](p, np.array(c["t"])), np.array(vals), "%s evaluated on an array of times" % kind,
              rtol=1e-12, atol=1e-12 * amplitude(kind, p))
    if "A" in p or "C" in p:
        q = dict(p)
        key = "A" if "A" in p else "C"
        q[key] = 2.0 * p[key]
        for t, v in zip(c["t"], vals):
            close(float(NUM[kind](q, t)), 2.0 * v, "%s scaled by its amplitude at t=%.17g" % (kind, t), rtol=1e-12,
                  atol=1e-15 * amplitude(kind, p))
    if kind == "trapezoidal_wave":
        for t, v in zip(c["t"], vals):
            t2 = t + c["n"] / p["f0"]
            close(float(NUM[kind](p, t2)), v, "%s %d periods after t=%.17g" % (kind, c["n"], t), rtol=0.0,
                  atol=2 * tol(kind, p, t2))
    inside = sum(1 for v in vals if v != 0.0)
    return Info(inside > 0 and amplitude(kind, p) > 0, [kind])


# ---- symbolic -------------------------------------------------------------------------------------------------------

@st.composite
def symbolic_case(draw):
    name = draw(st.sampled_from(sorted(SYM)))
    kind = SYM[name][0]
    p = draw(params(kind))
    v = draw(st.sampled_from([3e8, 2e8, 1.0, -3e8, 1.5e8]))
    pts = [[draw(st.sampled_from([0.0, 1.0, -1.0, 0.3, 2.5])) for _ in range(3)] for _ in range(3)]
    return {"name": name, "p": p, "v": v, "t": draw(times(kind, p)), "pts": pts}


def run_symbolic(c):
    kind, axes, make = SYM[c["name"]]
    p, v = c["p"], c["v"]
    expr = make(p, v)
    x, y, z, t, vs = sp.symbols("x y z t v")
    free = {str(s) for s in sp.sympify(expr).free_symbols}
    need(free <= set("xyztv"), "%s depends on unexpected symbols %s" % (c["name"], free))
    f = sp.lambdify((x, y, z, t, vs), expr)  # sympy's "math" printer misparenthesises a*Mod(b, c)
    b = breaks(kind, p)
    span = max(abs(q) for q in b) or 1.0
    moved = 0
    for t0 in c["t"]:
        for P in c["pts"]:
            # positions in units of the shape's duration, so that travelling matters
            pos = [q * span * abs(v) for q in P]
            # the shape's own argument is exactly t0 up to rounding
            delay = sum(pos["xyz".index(a)] for a in axes) / v
            tt = t0 - delay
            arg = tt + delay
            want = expected(kind, p, arg)
            got = float(f(pos[0], pos[1], pos[2], tt, v))
            noise = 1e-13 * (abs(tt) + abs(delay) + span)
            wid = [w for w in (y2 - x2 for x2, y2 in zip(b[:-1], b[1:])) if w > 0]
            if kind == "trapezoidal_wave":
                wid = [p["rise"], p["fall"]]
            if kind == "double_exp":
                rel = noise * max(p["a"], p["b"])
                bound = (abs(p["C"]) * (math.exp(-p["a"] * arg) + math.exp(-p["b"] * arg))) * (rel + 1e-12)
            else:
                bound = 1e-9 * amplitude(kind, p) + 3 * noise * amplitude(kind, p) / min(wid)
            close(got, want, "%s at t=%.17g, position %s, speed %g, with %s" % (c["name"], tt, pos, v, p), rtol=0.0,
                  atol=bound + 1e-12 * abs(want))
            moved += bool(axes) and delay != 0.0 and want != 0.0
    return Info(amplitude(kind, p) > 0 and (moved > 0 or not axes), [c["name"]])


# ---- combinations ------------------------------------------------------------------------------------------------------

@st.composite
def combine_case(draw):
    one = st.sampled_from(["zero", "exp", "sin_pulse", "ramp_pulse", "square_pulse", "gaussian_2"])
    ks = [draw(one), draw(one)]
    u = draw(st.sampled_from([1.0, 1e-9]))
    ps = [None if k == "zero" else draw(params(k, u)) for k in ks]
    t = []
    for k, p in zip(ks, ps):
        if p is not None:
            t += draw(times(k, p))
    return {"kinds": ks, "p": ps, "t": t or [0.0, 1.0], "k": draw(st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2]),
                                                                           st.integers(-40, 40).map(lambda k: k / 4)))}


def fn(kind, p):
    if kind == "zero":
        return 0
    g = NUM[kind]
    return lambda t: g(p, t)


def run_combine(c):
    fs = [fn(k, p) for k, p in zip(c["kinds"], c["p"])]
    scales = [p["x0"] for k, p in zip(c["kinds"], c["p"]) if k == "exp"]
    c = dict(c, t=[t for t in c["t"] if all(t > -100.0 * x for x in scales)])  # 1-exp overflows long before zero
    parts = [[0.0 if k == "zero" else float(NUM[k](p, t)) for t in c["t"]] for k, p in zip(c["kinds"], c["p"])]
    s = utils.add_t_functions(*fs)
    if c["kinds"] == ["zero", "zero"]:
        need(not callable(s) and s == 0, "sum of two absent waveforms is %r" % (s,))
    else:
        for i, t in enumerate(c["t"]):
            close(float(s(t)), parts[0][i] + parts[1][i], "sum of %s at t=%g" % (c["kinds"], t), rtol=1e-12, atol=0.0)
    for f, vals, k in zip(fs, parts, c["kinds"]):
        if k == "zero":
            continue
        g = utils.multiply(f, c["k"])
        h = utils.SFunction(f) + utils.SFunction(g)
        for t, v in zip(c["t"], vals):
            close(float(g(t)), c["k"] * v, "%g times %s at t=%g" % (c["k"], k, t), rtol=1e-12)
            close(float(h(t)), v + c["k"] * v, "SFunction sum of %s at t=%g" % (k, t), rtol=1e-12, atol=1e-12 * abs(v))
            close(float(f(t)), v, "%s after being combined" % k, rtol=0.0)
    need(float(wf.null()) == 0.0 if not sp.sympify(wf.null()).free_symbols
         else float(sp.sympify(wf.null()).subs("n", 3.0)) == 0.0, "null waveform is not zero")
    return Info("zero" not in c["kinds"] and any(v for v in parts[0]) and any(v for v in parts[1]),
                ["zeros=%d" % c["kinds"].count("zero")])


SUBS = [
    Sub("numeric", numeric_case, run_numeric, 4000, 200000, "non-zero amplitude and at least one instant in the support"),
    Sub("symbolic", symbolic_case, run_symbolic, 1000, 30000,
        "non-zero amplitude, and for travelling forms a non-zero value away from the origin"),
    Sub("combine", combine_case, run_combine, 1200, 40000, "two waveforms, both non-zero at some compared instant"),
]
