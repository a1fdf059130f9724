"""C06: networks are equivalent to the lines they connect; declaration order and numbering do not matter."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen, sim, system as sy
from harness.core import Info, Sub, close, need

ASSUMPTIONS = [
    "ideal shorts are realised by a 1e10 S conductance: systems with shorts between nodes are compared to 2e-3",
    "all conductors of a line end belong to one network",
]


# ---- a terminated line, with and without networks ---------------------------------------------------------------

@st.composite
def equiv_case(draw):
    s = draw(gen.line(max_n=3, max_cells=8, zero_z=False))
    steps = draw(gen.count(4, 30))
    N, n = sum(s["ndiv"]), s["n"]
    disp = [{"cell": draw(st.integers(0, N - 1)), "c": draw(st.integers(0, n - 1)), "m": draw(sy.model())}
            for _ in range(draw(st.integers(0, 1)))]
    return {"line": s, "steps": steps, "drives": draw(gen.drives(n, steps)), "disp": disp,
            "dt": draw(st.sampled_from([None, None, 0.8])), "one": draw(st.booleans()),
            "ids": draw(st.permutations(list(range(2 * n)))), "base": draw(st.sampled_from([0, 1, 100])),
            "ctor": draw(st.sampled_from(["args", "add", "adds"]))}


def manager(mds, nets, ctor):
    if ctor == "args":
        return sy.mtln.MTLN(mds, nets)
    m = sy.mtln.MTLN()
    for b in mds:
        m.add_bundle(b)
    if ctor == "add":
        for w in nets:
            m.add_network(w)
    else:
        m.add_networks(nets)
    return m


def run_equiv(c):
    s, T = c["line"], c["steps"]
    n = s["n"]
    u, _ = sim.grid(s)
    dt = sim.cfl(s) * (c["dt"] or 1.0)

    def fresh():
        line = sim.build_mtl(s)
        for e in c["disp"]:
            line.add_dispersive_connector(u[e["cell"]].copy(), e["c"], copy.deepcopy(e["m"]))
        return line
    a = fresh()
    if c["dt"]:
        a.set_time_step(1, dt)
    fns = sim.add_drives(a, u, c["drives"], dt)
    ra = sim.Recorder(a, u)
    a.run_until(sim.until(T, dt))
    V, I = ra.history()

    b = fresh()
    md = sy.mtl.MTLD({0: [b]}, name="b0")
    nets = []
    for side, z, ids in (("S", s["Zs"], c["ids"][:n]), ("L", s["Zl"], c["ids"][n:])):
        ids = [c["base"] + i for i in ids]
        nw = sy.networks.Network({b: {"side": side, "bundle": md, "connections": [
            [i, k, {"connectorType": "Conn_R"}] for k, i in enumerate(ids)]}})
        for k, i in enumerate(ids):
            kw = {"Vt": fns[(k, side)]} if (k, side) in fns else {}
            nw.connect_to_ground(i, R=z[k] if isinstance(z, list) else z, **kw)
        nets.append(sy.networks.NetworkD({0: nw}))
    m = manager([md], nets, c["ctor"])
    rb = sim.Recorder(md, u)
    m.run_until(sim.until(T, dt)) if c["dt"] is None else m.run_until(sim.until(T, dt), dt=dt)
    V2, I2 = rb.history()
    close(V2, V, "voltage of the networked line at (step, conductor, node)", 1e-8)
    close(I2, I, "current of the networked line at (step, conductor, cell)", 1e-8)
    return Info(np.max(np.abs(I)) > 0, ["n%d" % n, c["ctor"]] + ["disp"] * bool(c["disp"]) + ["dt_set"] * bool(c["dt"]))


# ---- a line cut in two ------------------------------------------------------------------------------------------

@st.composite
def split_case(draw):
    s = draw(gen.line(max_n=2, max_cells=9, max_seg=3, zero_z=False))
    if sum(s["ndiv"]) < 3:
        s["ndiv"][0] += 2
    steps = draw(gen.count(6, 30))
    return {"line": s, "steps": steps, "drives": draw(gen.drives(s["n"], steps)),
            "cut": draw(st.integers(1, sum(s["ndiv"]) - 1)), "rev": draw(st.booleans()), "join": draw(st.booleans())}


def piece(s, lo, hi):
    """Cells lo..hi-1 of the polyline as a polyline of its own."""
    u, _ = sim.grid(s)
    brk = [lo] + [k for k in np.cumsum(s["ndiv"]).tolist() if lo < k < hi] + [hi]
    return dict(s, nodes=[u[k].tolist() for k in brk], ndiv=[b - a for a, b in zip(brk[:-1], brk[1:])], Zs=0.0, Zl=0.0)


def run_split(c):
    s, T, cut = c["line"], c["steps"], c["cut"]
    n, N = s["n"], sum(s["ndiv"])
    dt = sim.cfl(s)
    line, u, du, _, V, I, fns = sim.run_line(s, c["drives"], T)
    pa, pb = piece(s, 0, cut), piece(s, cut, N)
    if c["rev"]:
        pb = dict(pb, nodes=pb["nodes"][::-1], ndiv=pb["ndiv"][::-1])
    need_two = [pa, pb]
    lines = [sim.build_mtl(p) for p in need_two]
    mds = [sy.mtl.MTLD({0: [l]}, name="p%d" % k) for k, l in enumerate(lines)]
    conn = lambda first: [[first + k, k, {"connectorType": "Conn_R"}] for k in range(n)]
    nets = []
    for li, e, side, z, first in ((0, "S", "S", s["Zs"], 0), (1, "L", "S" if c["rev"] else "L", s["Zl"], n)):
        nw = sy.networks.Network({lines[li]: {"side": side, "bundle": mds[li], "connections": conn(first)}})
        for k in range(n):
            kw = {"Vt": fns[(k, e)]} if (k, e) in fns else {}
            nw.connect_to_ground(first + k, R=z[k] if isinstance(z, list) else z, **kw)
        nets.append(nw)
    j = sy.networks.Network({lines[0]: {"side": "L", "bundle": mds[0], "connections": conn(2 * n)},
                             lines[1]: {"side": "L" if c["rev"] else "S", "bundle": mds[1], "connections": conn(3 * n)}})
    for k in range(n):
        j.short_nodes(2 * n + k, 3 * n + k)
    m = sy.mtln.MTLN(mds, [sy.networks.NetworkD({0: w}) for w in nets + [j]])
    us = [sim.grid(p)[0] for p in need_two]
    rec = [sim.Recorder(md, x) for md, x in zip(mds, us)]
    m.run_until(sim.until(T, dt), dt=dt)
    (Va, Ia), (Vb, Ib) = [r.history() for r in rec]
    if c["rev"]:
        Vb, Ib = Vb[:, :, ::-1], -Ib[:, :, ::-1]
    vm, im = np.max(np.abs(V)), np.max(np.abs(I))
    close(np.concatenate([Va, Vb[:, :, 1:]], axis=2), V, "voltage of the rejoined line at (step, conductor, node)", 5e-3, scale=vm)
    close(np.concatenate([Ia, Ib], axis=2), I, "current of the rejoined line at (step, conductor, cell)", 5e-3, scale=im)
    close(Vb[:, :, 0], Va[:, :, -1], "voltages of the two joined ends at (step, conductor)", 1e-5, scale=vm)
    return Info(np.max(np.abs(I[:, :, cut])) > 1e-3 * im, ["n%d" % n] + ["reversed"] * c["rev"])


# ---- order and numbering ----------------------------------------------------------------------------------------

@st.composite
def order_case(draw):
    S = draw(sy.system(max_bundles=3, max_levels=3, steps_max=15, max_cells=4))
    nodes = [i for net in S["nets"] for e in net["ends"] for i in e["ids"]]
    return {"S": S, "bundles": draw(st.permutations(list(range(len(S["bundles"]))))),
            "nets": draw(st.permutations(list(range(len(S["nets"]))))),
            "ids": draw(st.permutations([7 * k + 3 for k in range(len(nodes))])),
            "shuffle": draw(st.integers(0, 10 ** 6)), "group": draw(st.booleans()),
            "rename": draw(st.booleans()), "ctor": draw(st.sampled_from(["args", "add", "adds"]))}


def run_order(c):
    import random
    S = c["S"]
    A = sy.run_system(S)
    rng = random.Random(c["shuffle"])
    S2 = copy.deepcopy(S)
    ren = dict(zip([i for net in S["nets"] for e in net["ends"] for i in e["ids"]], c["ids"]))
    for net in S2["nets"]:
        for e in net["ends"]:
            e["ids"] = [ren[i] for i in e["ids"]]
            e["order"] = list(enumerate(e["ids"]))
            rng.shuffle(e["order"])
        for b in net["br"]:
            b["a"] = ren[b["a"]]
            b["b"] = None if b["b"] is None else ren[b["b"]]
        rng.shuffle(net["ends"])
        rng.shuffle(net["br"])
    if c["rename"]:
        for k, b in enumerate(S2["bundles"]):
            b["name"] = "z%d" % (9 - k)
            for lv in b["levels"]:
                for x in lv:
                    x["name"] = "same"            # line names need not be unique
    mds, lines = zip(*[sy.build_bundle(b) for b in S2["bundles"]])
    rec = [sim.Recorder(md, sim.grid(b)[0]) for md, b in zip(mds, S2["bundles"])]
    nets = [sy.build_net(S2["nets"][k], mds, lines, A.dt) for k in c["nets"]]
    if c["group"]:
        # networks of different levels handed over together
        out = []
        for w in nets:
            (lv, x), = w.levels.items()
            for o in out:
                if lv not in o:
                    o[lv] = x
                    break
            else:
                out.append({lv: x})
        nets = [sy.networks.NetworkD(o) for o in out]
    m = manager([mds[k] for k in c["bundles"]], nets, c["ctor"])
    m.run_until(sim.until(S["steps"], A.dt))
    tol = 2e-3 if any(b["t"] == "short" for n in S["nets"] for b in n["br"]) else 1e-8
    vm, im = max(np.max(np.abs(h[0])) for h in A.H), max(np.max(np.abs(h[1])) for h in A.H)
    for bi, r in enumerate(rec):
        V, I = r.history()
        close(V, A.H[bi][0], "voltage of bundle %d after redeclaration at (step, conductor, node)" % bi, tol, scale=vm)
        close(I, A.H[bi][1], "current of bundle %d after redeclaration at (step, conductor, cell)" % bi, tol, scale=im)
    return Info(vm > 0, ["bundles%d" % len(mds)] + ["grouped"] * c["group"] + ["renamed"] * c["rename"] +
                ["multi_line_level"] * any(len(lv) > 1 for b in S["bundles"] for lv in b["levels"]))


# ---- isolation --------------------------------------------------------------------------------------------------

@st.composite
def iso_case(draw):
    a = draw(sy.system(max_bundles=2, max_levels=2, steps_max=15, max_cells=4, shorts=False))
    b = draw(sy.system(max_bundles=1, max_levels=2, steps_max=6, max_cells=4, shorts=False))
    return {"a": a, "b": b, "first": draw(st.booleans())}


def run_iso(c):
    a, b = c["a"], copy.deepcopy(c["b"])
    na, nb = len(a["bundles"]), len(b["bundles"])
    dt = min(sy.system_dt(a), sy.system_dt(b))
    A = sy.run_system(a, dt=dt)
    J = copy.deepcopy(a)
    for net in b["nets"]:
        for e in net["ends"]:
            e["b"] += na
            e["ids"] = [1000 + i for i in e["ids"]]
        for x in net["br"]:
            x["a"] += 1000
            x["b"] = None if x["b"] is None else x["b"] + 1000
    for k, x in enumerate(b["bundles"]):
        x["name"] = "other%d" % k
    J["bundles"] = J["bundles"] + b["bundles"]
    J["nets"] = b["nets"] + J["nets"] if c["first"] else J["nets"] + b["nets"]
    R = sy.run_system(J, dt=dt)
    for bi in range(na):
        for k, q in enumerate(("voltage", "current")):
            close(R.H[bi][k], A.H[bi][k], "%s of bundle %d next to an unconnected bundle" % (q, bi), 1e-10)
    quiet = not any(x.get("w") for n in b["nets"] for x in n["br"])
    if quiet:
        need(not any(np.any(h) for H in R.H[na:] for h in H), "an unconnected silent bundle did not stay at zero")
    return Info(sy.peak(A) > 0, ["quiet_neighbour"] * quiet)


SUBS = [
    Sub("equivalence", equiv_case, run_equiv, 1600, 12000, "some current flowed"),
    Sub("split", split_case, run_split, 800, 6000, "current flowed at the cut"),
    Sub("order", order_case, run_order, 800, 6000, "something was recorded"),
    Sub("isolation", iso_case, run_iso, 480, 4000, "the observed part was driven"),
]
