"""Hypothesis strategies shared by the checks.  Every case is a JSON-able value."""
from hypothesis import strategies as st


def rnd(x):
    return float("%.4g" % x)


@st.composite
def count(draw, lo, hi, grow=4):
    """lo..hi, and now and then up to grow*hi."""
    if draw(st.integers(0, 11)) == 11:
        return draw(st.integers(hi, max(hi, int(grow * hi))))
    return draw(st.integers(lo, hi))


def pos(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(rnd)


@st.composite
def spd(draw, n, scale_lo, scale_hi, sign=+1, coupled=True):
    """Symmetric strictly diagonally dominant matrix, off-diagonals of the given sign."""
    s = draw(pos(scale_lo, scale_hi))
    if n == 1:
        return [[s]]
    m = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            k = draw(pos(0.0, 0.8)) if coupled else 0.0
            m[i][j] = m[j][i] = sign * s * k / (n - 1)
    for i in range(n):
        m[i][i] = s * draw(pos(1.0, 2.0))
    return [[rnd(x) for x in row] for row in m]


def lmat(n):
    return spd(n, 1e-7, 1e-6, +1)


def cmat(n):
    return spd(n, 1e-11, 2e-10, -1)


@st.composite
def direction(draw, oblique=True):
    kinds = ["axis", "axis", "axis"] + (["345", "free"] if oblique else [])
    k = draw(st.sampled_from(kinds))
    if k == "axis":
        ax = draw(st.integers(0, 2))
        s = draw(st.sampled_from([1.0, -1.0]))
        v = [0.0, 0.0, 0.0]
        v[ax] = s
        return v
    if k == "345":
        p = draw(st.permutations([0.6, 0.8, 0.0]))
        return [x * draw(st.sampled_from([1.0, -1.0])) for x in p]
    a = [draw(st.integers(-4, 4)) for _ in range(3)]
    if not any(a):
        a[2] = 1
    n = sum(x * x for x in a) ** 0.5
    return [rnd(x / n) for x in a]


@st.composite
def geometry(draw, max_cells=10, max_seg=3, uniform=False, oblique=True, straight=False, grow=False, fold=-0.5):
    """nodes, ndiv.  Segments may have different cell sizes; nodes never coincide."""
    nseg = draw(count(1, max_seg, 2) if grow else st.integers(1, max_seg))
    if grow and draw(st.integers(0, 11)) == 11:
        max_cells *= 4
    ndiv = [draw(st.integers(1, max(1, max_cells // nseg))) for _ in range(nseg)]
    if sum(ndiv) < 2:
        ndiv[0] += 1
    p = [draw(st.sampled_from([0.0, 0.0, 1.5, -0.7])) for _ in range(3)]
    nodes = [list(p)]
    du = draw(pos(0.01, 0.2))
    d = draw(direction(oblique))
    if draw(st.integers(0, 5)) == 5:
        # along the z axis, where a number stands for a position
        p, d, straight = [0.0, 0.0, p[2]], [0.0, 0.0, draw(st.sampled_from([1.0, 1.0, -1.0]))], True
        nodes = [list(p)]
    for k in range(nseg):
        if k and not straight:
            d2 = draw(direction(oblique))
            # never fold straight back onto the previous segment
            if sum(a * b for a, b in zip(d, d2)) > fold:
                d = d2
        step = du if uniform else du * draw(pos(1.0, 3.0))
        p = [rnd12(a + b * step * ndiv[k]) for a, b in zip(p, d)]
        nodes.append(list(p))
    return {"nodes": nodes, "ndiv": ndiv}


def rnd12(x):
    return float("%.12g" % x)


@st.composite
def wave(draw, max_steps):
    """A waveform; times are in time steps."""
    k = draw(st.sampled_from(["step", "gauss", "sin", "pulse", "ramp", "lin"]))
    A = draw(st.sampled_from([1.0, 1.0, -2.0, 0.5, 10.0]))
    t0 = draw(st.integers(0, max(1, max_steps // 2)))
    w = draw(st.integers(1, max(2, max_steps // 3)))
    return {"k": k, "A": A, "t0": t0, "w": w}


@st.composite
def line(draw, max_n=3, max_cells=10, max_seg=3, lossy=True, geo=None, zero_z=True, terminated=True, grow=True):
    n = draw(count(1, max_n, 2) if grow else st.integers(1, max_n))
    spec = {"n": n, "L": draw(lmat(n)), "C": draw(cmat(n)), "R": None, "G": None}
    if lossy and draw(st.booleans()):
        if n == 1:
            spec["R"] = draw(pos(0.0, 200.0))
        else:
            spec["R"] = draw(spd(n, 0.1, 100.0, +1)) if draw(st.booleans()) else \
                [[draw(pos(0.0, 100.0)) if i == j else 0.0 for j in range(n)] for i in range(n)]
    if lossy and draw(st.booleans()):
        if n == 1:
            spec["G"] = draw(pos(0.0, 0.05))
        else:
            spec["G"] = draw(spd(n, 1e-4, 0.03, -1))
    spec.update(draw(geometry(max_cells=max_cells, max_seg=max_seg, grow=grow) if geo is None else geo))
    zs = st.sampled_from([0.0, 50.0, 10.0, 1e3, 1e6]) if zero_z else st.sampled_from([50.0, 10.0, 1e3, 1e6])
    one = st.one_of(zs, pos(0.1, 500.0))
    if draw(st.booleans()) or not terminated:
        spec["Zs"], spec["Zl"] = draw(one), draw(one)
    else:
        spec["Zs"] = [draw(one) for _ in range(n)]
        spec["Zl"] = [draw(one) for _ in range(n)]
    return spec


@st.composite
def drives(draw, n, steps, min_size=1, max_size=3):
    """Terminal voltage sources: conductor, end ('S' first node / 'L' last node), waveform."""
    k = draw(st.integers(min_size, max_size))
    out, used = [], set()
    for _ in range(k):
        c, e = draw(st.integers(0, n - 1)), draw(st.sampled_from(["S", "S", "L"]))
        if (c, e) in used:
            continue
        used.add((c, e))
        out.append({"c": c, "e": e, "w": draw(wave(steps))})
    return out
