"""C18: local resistance and conductance edits act where and as much as requested."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, kirchhoff as kh, laws, sim, system as sy
from harness.core import Info, Sub, need

ASSUMPTIONS = [
    "the ends of a region are the grid nodes nearest to the given positions; a single point takes the cell that starts "
    "there (the last cell for the end node)",
    "a node owns half of each adjacent cell; a conductance is spread uniformly over the lengths of its nodes",
]


@st.composite
def edit(draw, N, n):
    a = [draw(st.integers(0, N)), draw(st.sampled_from([0.0, 0.0, 0.3, -0.3]))]
    b = list(a) if draw(st.integers(0, 2)) == 0 else [draw(st.integers(0, N)), draw(st.sampled_from([0.0, 0.0, 0.3, -0.3]))]
    k = draw(st.sampled_from(["R", "R", "G"]))
    return {"kind": k, "a": a, "b": b, "c": draw(st.integers(0, n - 1)),
            "val": draw(gen.pos(0.5, 500.0)) if k == "R" else draw(gen.pos(1e-4, 0.1)),
            "as": draw(st.sampled_from(["array", "array", "list", "number", "number"]))}


def position(spec, p):
    u, du = sim.grid(spec)
    k, f = p
    if f > 0 and k < len(du):
        return u[k] + (u[k + 1] - u[k]) * f * min(du[k], du[k - 1] if k else du[k]) / du[k]
    if f < 0 and k > 0:
        return u[k] + (u[k - 1] - u[k]) * -f * min(du[k - 1], du[k] if k < len(du) else du[k - 1]) / du[k - 1]
    return u[k].copy()


def apply(obj, spec, e, point_api=False):
    a, b = position(spec, e["a"]), position(spec, e["b"])
    if e["as"] == "list":
        a, b = [float(x) for x in a], [float(x) for x in b]
    elif e["as"] == "number":
        u = sim.grid(spec)[0]
        a, b = sim.place_arg(u, a, True), sim.place_arg(u, b, True)
    if point_api and e["a"] == e["b"]:
        (obj.set_resistance_at_point if e["kind"] == "R" else obj.add_conductance_at_point)(a, e["c"], e["val"])
    else:
        (obj.set_resistance_in_region if e["kind"] == "R" else obj.add_conductance_in_region)(a, b, e["c"], e["val"])


def expected(spec, e, R, G, first=0):
    """Edits of R [cell, n, n] and G [node, n, n] in place; first: index of the edited object's first conductor."""
    du = sim.grid(spec)[1]
    i, j = sorted((e["a"][0], e["b"][0]))
    c = first + e["c"]
    if e["kind"] == "R":
        if i == j:
            i = min(i, len(du) - 1)
            j = i + 1
        R[i:j, c, c] = e["val"] / np.sum(du[i:j])
    else:
        w = np.array([0.5 * ((du[k] if k < len(du) else 0.0) + (du[k - 1] if k else 0.0)) for k in range(len(du) + 1)])
        G[i:j + 1, c, c] += e["val"] / np.sum(w[i:j + 1])


def classes(es):
    out = []
    for e in es:
        out.append(e["kind"] + ("_point" if e["a"][0] == e["b"][0] else "_region"))
        out += ["reversed"] if e["a"][0] > e["b"][0] else []
        out += ["number"] if e["as"] == "number" else []
    return out


# ---- single line ----------------------------------------------------------------------------------------------

@st.composite
def line_case(draw):
    s = draw(gen.line(max_n=3, max_cells=9))
    steps = draw(gen.count(3, 20))
    N = sum(s["ndiv"])
    return {"line": s, "steps": steps, "more": draw(st.integers(2, 12)), "drives": draw(gen.drives(s["n"], steps)),
            "before": draw(st.lists(edit(N, s["n"]), min_size=1, max_size=3)),
            "between": draw(st.lists(edit(N, s["n"]), max_size=2)), "dt": draw(st.sampled_from([None, None, 0.6]))}


def run_line(c):
    s = c["line"]
    n, N = s["n"], sum(s["ndiv"])
    u, du = sim.grid(s)
    dt = sim.cfl(s) * (c["dt"] or 1.0)
    line = sim.build_mtl(s)
    if c["dt"]:
        line.set_time_step(1, dt)
    fns = sim.add_drives(line, u, c["drives"], dt)
    rec = sim.Recorder(line, u)
    L = sim.arr(s["L"])
    C = np.repeat(sim.arr(s["C"])[None], N + 1, axis=0)
    R = np.repeat(sim.mat(s["R"], n)[None], N, axis=0)
    G = np.repeat(sim.mat(s["G"], n)[None], N + 1, axis=0)
    T1, T2 = c["steps"], c["more"]
    vs = {e: kh.source_samples(fns, e, n, T1 + T2, dt) for e in "SL"}
    V0 = I0 = None
    live = 0.0
    for part, edits, T, off in (("first run", c["before"], T1, 0), ("second run", c["between"], T2, T1)):
        for e in edits:
            apply(line, s, e, point_api=True)
            expected(s, e, R, G)
        line.run_until(sim.until(T, dt))
        V, I = rec.history()
        if off:
            V[0], I[0] = V0, I0
        V0, I0 = V[-1], I[-1]
        kh.cells(V, I, du, dt, np.repeat(L[None], N, axis=0), R, "voltage law in a cell after the edits (%s)" % part, tol=1e-8)
        kh.interior(V, I, du, dt, C, G, "charge balance at a node after the edits (%s)" % part, tol=1e-8)
        for e, z in (("S", s["Zs"]), ("L", s["Zl"])):
            kh.terminal(V, I, du, dt, C, G, sim.zmat(z, n), vs[e][off:off + T + 1], e,
                        "%s terminal after the edits (%s)" % (e, part), tol=1e-8)
        live = max(live, np.max(np.abs(V)))
    return Info(live > 0, classes(c["before"] + c["between"]) + ["n%d" % n] + ["between"] * bool(c["between"]))



# ---- bundles ----------------------------------------------------------------------------------------------------

@st.composite
def bundle_case(draw):
    S = draw(sy.system(max_bundles=2, max_levels=2, steps_max=14, max_cells=5, disp=True, shorts=False))
    eds = []
    for bi, b in enumerate(S["bundles"]):
        N = sum(b["ndiv"])
        for _ in range(draw(st.integers(0, 2))):
            e = draw(edit(N, sum(sy.n_of_levels(b))))
            e["on"] = [bi]
            eds.append(e)
        for _ in range(draw(st.integers(0, 1))):
            lv = draw(st.integers(0, len(b["levels"]) - 1))
            k = draw(st.integers(0, len(b["levels"][lv]) - 1))
            e = draw(edit(N, b["levels"][lv][k]["n"]))
            e["on"] = [bi, lv, k]
            eds.append(e)
    r = [x for n in S["nets"] for x in n["br"] if x["t"] == "R"]
    if r and not any("w" in x for x in r):
        draw(st.sampled_from(r))["w"] = draw(gen.wave(S["steps"]))
    return {"S": S, "edits": eds}


def run_bundle(c):
    S = c["S"]

    def on_lines(bi, lines):
        for e in c["edits"]:
            if len(e["on"]) == 3 and e["on"][0] == bi:
                apply(lines[e["on"][1]][e["on"][2]], S["bundles"][bi], e, point_api=True)
    r = sy.build_system(S, edit=on_lines)
    for e in c["edits"]:
        if len(e["on"]) == 1:
            apply(r.mds[e["on"][0]], S["bundles"][e["on"][0]], e)
    r.m.run_until(sim.until(S["steps"], r.dt))
    r.H = [rec.history() for rec in r.rec]
    Gs = {}
    for bi, b in enumerate(S["bundles"]):
        N = sum(b["ndiv"])
        _, R, _, G = laws.matrices(b)
        R, G = np.repeat(R[None], N, axis=0), np.repeat(G[None], N + 1, axis=0)
        for e in [e for e in c["edits"] if len(e["on"]) == 3] + [e for e in c["edits"] if len(e["on"]) == 1]:
            if e["on"][0] == bi:
                expected(b, e, R, G, sy.offset(b, e["on"][1], e["on"][2]) if len(e["on"]) == 3 else 0)
        Gs[bi] = G
        laws.bundle(b, r.H[bi][0], r.H[bi][1], r.dt, R=R, G=G)
    sy.node_laws(S, r, tol=1e-7, G_nodes=Gs)
    live = max(np.max(np.abs(V)) for V, _ in r.H)
    return Info(live > 0 and bool(c["edits"]), classes(c["edits"]) + ["on_line" if len(e["on"]) == 3 else "on_bundle" for e in c["edits"]])


SUBS = [
    Sub("line", line_case, run_line, 2400, 20000, "a signal was present on the edited line"),
    Sub("bundle", bundle_case, run_bundle, 1000, 8000, "a signal was present and something was edited"),
]
