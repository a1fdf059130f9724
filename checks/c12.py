"""C12: probes record the right quantity, place and time."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, sim, system as sy
from harness.core import Info, Sub, Violation, need

ASSUMPTIONS = ["a probe exactly between two nodes may use either of them"]

KIND = st.sampled_from(["voltage", "current"])


@st.composite
def place(draw, N):
    """Cell and fraction of it (0 and 1 are its nodes)."""
    return [draw(st.integers(0, N - 1)), draw(st.sampled_from([0.0, 0.0, 1.0, 0.49, 0.51, 0.2, 0.8, 0.03,
                                                                     0.07, 0.13, 0.91, 0.96]))]


def where(b, p):
    u, _ = sim.grid(b)
    return u[p[0]] + p[1] * (u[p[0] + 1] - u[p[0]])


def put(obj, b, q):
    return obj.add_probe(sim.place_arg(sim.grid(b)[0], where(b, q["p"]), q.get("z")), q["k"])


def nearest(b, pos):
    u, du = sim.grid(b)
    d = np.linalg.norm(u - pos, axis=1)
    return [int(k) for k in np.flatnonzero(d <= np.min(d) + 1e-9 * np.max(du))]


@st.composite
def probes(draw, N, lo=1, hi=4):
    return [{"p": draw(place(N)), "k": draw(KIND), "z": draw(st.booleans())} for _ in range(draw(st.integers(lo, hi)))]


def outside(b, off):
    """A point off the conductor: beyond an end, or beside it, by a fraction of a cell."""
    u, du = sim.grid(b)
    kind, f = off["kind"], off["f"] * np.min(du)
    if kind == "before":
        return u[0] - (u[1] - u[0]) / du[0] * f
    if kind == "after":
        return u[-1] + (u[-1] - u[-2]) / du[-1] * f
    d = (u[1] - u[0]) / du[0]
    e = np.cross(d, [0.6, 0.0, 0.8] if abs(d[1]) > 0.5 else [0.0, 1.0, 0.0])
    return u[0] + 0.5 * (u[1] - u[0]) + e / np.linalg.norm(e) * f


def touches(b, pos):
    """Whether the point lies on another part of the polyline after all."""
    u, du = sim.grid(b)
    for a, c in zip(u[:-1], u[1:]):
        t = np.clip(np.dot(pos - a, c - a) / np.dot(c - a, c - a), 0.0, 1.0)
        if np.linalg.norm(a + t * (c - a) - pos) < 1e-3 * np.min(du):
            return True
    return False


OFF = st.fixed_dictionaries({"kind": st.sampled_from(["before", "after", "beside"]),
                             "f": st.sampled_from([0.05, 0.4, 1.0, 7.0])})


def reject(obj, b, off, what):
    pos = outside(b, off)
    if touches(b, pos):
        return 0
    n = len(obj.probes)
    try:
        obj.add_probe(pos, "voltage")
    except Exception:
        need(len(obj.probes) == n, "%s: a rejected probe stayed" % what)
        return 1
    raise Violation("%s: a probe at %s, %s the conductor by %g cells, was accepted" % (what, pos, off["kind"], off["f"]))


def check_record(p, b, spec, dt, steps, n, V, I, first, what):
    """V, I: states after each step (from separate shorter runs without probes); first: steps run before."""
    what = "%s probe of %s at cell %d + %g" % (spec["k"], what, spec["p"][0], spec["p"][1])
    t, val = np.asarray(p.t), np.asarray(p.val)
    need(t.shape == (steps,), "%s: %s time labels for %d steps" % (what, t.shape, steps))
    need(val.shape == (steps, n), "%s: record has shape %s for %d steps and %d conductors" % (what, val.shape, steps, n))
    lab = (first + np.arange(1, steps + 1)) * dt + (dt / 2 if spec["k"] == "current" else 0.0)
    bad = np.flatnonzero(np.abs(t - lab) > 1e-9 * (abs(lab) + dt))
    need(not len(bad), "%s: row %s is labelled %s, expected %s (dt=%s)" % (
        what, bad[:1], t[bad[:1]], lab[bad[:1]], dt))
    X = V if spec["k"] == "voltage" else I
    options = [min(k, X.shape[2] - 1) for k in nearest(b, where(b, spec["p"]))]
    for k in options:
        if np.array_equal(val, X[:, :, k]):
            return
    k = options[0]
    sc = np.max(np.abs(X)) + 1e-300
    err = np.abs(val - X[:, :, k])
    need(np.max(err) <= 1e-12 * sc, "%s: row, conductor %s records %.12g, the %s there is %.12g" % (
        what, np.unravel_index(np.argmax(err), err.shape), val.flat[np.argmax(err)], spec["k"],
        X[:, :, k].flat[np.argmax(err)]))


def check_hand(ps, qs, more, late, b, dt, start, end, hand, n, V, I, what):
    """Single steps taken after a run append rows; a probe put before them records them."""
    last = end + hand
    for p, q in zip(ps, qs):
        check_record(p, b, q, dt, last - start, n, V[start:last], I[start:last], start, what)
    for p, q in zip(more, late):
        check_record(p, b, q, dt, hand, n, V[end:last], I[end:last], end, what + " (late probe)")


# ---- single line ---------------------------------------------------------------------------------------------------

@st.composite
def line_case(draw):
    s = draw(gen.line(max_n=3, max_cells=8))
    steps = draw(gen.count(2, 9))
    N = sum(s["ndiv"])
    return {"line": s, "steps": steps, "drives": draw(gen.drives(s["n"], steps, max_size=3)),
            "probes": draw(probes(N)), "dt": draw(st.sampled_from([None, None, 0.8, 0.31])),
            "when": draw(st.sampled_from(["before", "after"])), "off": draw(OFF),
            "again": draw(st.integers(0, 3)), "hand": draw(st.sampled_from([0, 0, 1, 2, 4])), "late": draw(probes(N, 0, 2))}


def run_line(c):
    s = c["line"]
    u, _ = sim.grid(s)
    dt = sim.cfl(s) * (c["dt"] or 1.0)
    T = c["steps"]

    def fresh(with_probes):
        line = sim.build_mtl(s)
        ps = []
        if with_probes and c["when"] == "before":
            ps = [put(line, s, q) for q in c["probes"]]
        if c["dt"]:
            line.set_time_step(T + c["again"], dt * (T + c["again"]))
        sim.add_drives(line, u, c["drives"], dt)
        if with_probes and c["when"] == "after":
            ps = [put(line, s, q) for q in c["probes"]]
        return line, ps
    V, I = [], []
    hand, late = c.get("hand", 0), c.get("late", [])
    for k in range(1, T + c["again"] + hand + 1):
        line, _ = fresh(False)
        line.run_until(sim.until(k, dt))
        V.append(np.array(line.v))
        I.append(np.array(line.i))
    V, I = np.array(V), np.array(I)
    line, ps = fresh(True)
    rej = reject(line, s, c["off"], "line")
    line.run_until(sim.until(T, dt))
    for p, q in zip(ps, c["probes"]):
        check_record(p, s, q, dt, T, s["n"], V[:T], I[:T], 0, "line")
    need(np.array_equal(line.v, V[T - 1]) and np.array_equal(line.i, I[T - 1]), "recording changed the simulation")
    start, end = 0, T
    if c["again"]:
        line.run_until(sim.until(c["again"], dt))
        start, end = T, T + c["again"]
        for p, q in zip(ps, c["probes"]):
            check_record(p, s, q, dt, c["again"], s["n"], V[start:end], I[start:end], T, "line in its second run")
    if hand:
        more = [put(line, s, q) for q in late]
        for _ in range(hand):
            line.step()
        check_hand(ps, c["probes"], more, late, s, dt, start, end, hand, s["n"], V, I, "line stepped by hand")
    live = bool(np.any(V)) and any(np.any(p.val) for p in ps)
    return Info(live, [q["k"] for q in c["probes"]] + (["fraction"] if any(q["p"][1] not in (0.0, 1.0) for q in c["probes"]) else [])
                + (["rejected_" + c["off"]["kind"]] if rej else []) + (["second_run"] if c["again"] else [])
                + (["stepped"] if hand else []) + (["late"] if hand and late else []))


# ---- bundles in a network --------------------------------------------------------------------------------------------

@st.composite
def net_case(draw):
    S = draw(sy.system(max_bundles=2, max_levels=2, steps_max=8, max_cells=5, disp=True, shorts=False))
    return {"S": S, "probes": [draw(probes(sum(b["ndiv"]), 0, 3)) for b in S["bundles"]],
            "dt": draw(st.sampled_from([None, None, 0.8, 0.31])), "off": draw(OFF), "again": draw(st.integers(0, 2)),
            "hand": draw(st.sampled_from([0, 0, 1, 3])), "late": [draw(probes(sum(b["ndiv"]), 0, 1)) for b in S["bundles"]]}


def run_net(c):
    S = c["S"]
    dt = sy.system_dt(S) * (c["dt"] or 1.0)
    T = S["steps"]

    def run(r, k):
        if c["dt"]:
            r.m.run_until(sim.until(k, dt), dt=dt)
        else:
            r.m.run_until(sim.until(k, dt))
    st_ = [([], []) for _ in S["bundles"]]
    more, hand = c["again"], c.get("hand", 0)
    for k in range(1, T + more + hand + 1):
        r = sy.build_system(S, dt, record=False)
        run(r, k)
        for (V, I), md in zip(st_, r.mds):
            V.append(np.array(md.v))
            I.append(np.array(md.i))
    st_ = [(np.array(V), np.array(I)) for V, I in st_]
    r = sy.build_system(S, dt, record=False)
    ps = [[put(md, b, q) for q in qs] for md, b, qs in zip(r.mds, S["bundles"], c["probes"])]
    rej = reject(r.mds[0], S["bundles"][0], c["off"], "bundle 0")
    run(r, T)
    for bi, b in enumerate(S["bundles"]):
        n = sum(sy.n_of_levels(b))
        for p, q in zip(ps[bi], c["probes"][bi]):
            check_record(p, b, q, dt, T, n, st_[bi][0][:T], st_[bi][1][:T], 0, "bundle %d" % bi)
        need(np.array_equal(r.mds[bi].v, st_[bi][0][T - 1]) and np.array_equal(r.mds[bi].i, st_[bi][1][T - 1]),
             "recording changed the simulation of bundle %d" % bi)
    live = any(np.any(p.val) for q in ps for p in q)
    if more:
        run(r, more)
        for bi, b in enumerate(S["bundles"]):
            n = sum(sy.n_of_levels(b))
            for p, q in zip(ps[bi], c["probes"][bi]):
                check_record(p, b, q, dt, more, n, st_[bi][0][T:T + more], st_[bi][1][T:T + more], T,
                             "bundle %d in the second run" % bi)
    if hand:
        new = [[put(md, b, q) for q in qs] for md, b, qs in zip(r.mds, S["bundles"], c["late"])]
        for _ in range(hand):
            r.m.step()
        start, end = (T, T + more) if more else (0, T)
        for bi, b in enumerate(S["bundles"]):
            check_hand(ps[bi], c["probes"][bi], new[bi], c["late"][bi], b, dt, start, end, hand, sum(sy.n_of_levels(b)),
                       st_[bi][0], st_[bi][1], "bundle %d stepped by hand" % bi)
    kinds = [q["k"] for qs in c["probes"] for q in qs]
    return Info(live, kinds + ["bundles%d" % len(S["bundles"])] + (["rejected_" + c["off"]["kind"]] if rej else [])
                + (["dt_set"] if c["dt"] else []) + (["second_run"] if more else [])
                + (["stepped"] if hand else []) + (["late"] if hand and any(c["late"]) else []))


SUBS = [
    Sub("line", line_case, run_line, 1000, 20000, "a probe recorded a non-zero value"),
    Sub("network", net_case, run_net, 700, 12000, "a probe recorded a non-zero value"),
]
