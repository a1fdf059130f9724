"""C19: ill-formed requests raise where they are made, and leave the system as it was."""
import copy
import json

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from harness import gen, jsonmodel as jm, sim, system as sy
from harness.core import Info, Invalid, Sub, need

import src.mtl as mtl
import src.networks as networks

ASSUMPTIONS = [
    "lines of 1-3 conductors; systems of 1-2 bundles, 1-3 levels, 1-2 lines per level; model files of 1-3 bundles",
    "one ill-formed request per case or a few, from a list of kinds, with drawn arguments",
    "any exception counts as a rejection; which type and text is not judged",
    "a position is on the line within the tolerance it is read with: 1e-6 m2 of cell length times distance",
    "no trace: the run after the rejected request is bit-identical to the run without it",
]


def rejected(what, f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return
    need(False, "%s: accepted" % what)


def same(A, B, what):
    for (V, I), (W, J) in zip(A, B):
        need(V.shape == W.shape and I.shape == J.shape, "%s: other shape of the record" % what)
        need(np.array_equal(V, W) and np.array_equal(I, J),
             "%s: rejected, but the run differs by %.3g" % (what, max(np.max(np.abs(V - W)), np.max(np.abs(I - J)))))


class P:
    """Drawn integers as choices."""

    def __init__(self, p):
        self.p, self.k = p, 0

    def int(self, n):
        v = self.p[self.k % len(self.p)]
        self.k += 1
        return v % n

    def of(self, xs):
        return xs[self.int(len(xs))]


def params():
    return st.lists(st.integers(0, 10007), min_size=8, max_size=8)


def outside(p, u):
    """A point off the polyline: beyond an end, aside, or far away; down to a thousandth of its length."""
    length = float(np.sum(np.linalg.norm(np.diff(u, axis=0), axis=1)))
    d = p.of([1e-3, 0.05, 0.5, 1.0, 30.0]) * length
    k = p.int(len(u) - 1)
    t = (u[k + 1] - u[k]) / np.linalg.norm(u[k + 1] - u[k])
    w = np.cross(t, np.eye(3)[int(np.argmin(np.abs(t)))])
    w /= np.linalg.norm(w)
    t0 = (u[0] - u[1]) / np.linalg.norm(u[1] - u[0])
    t1 = (u[-1] - u[-2]) / np.linalg.norm(u[-1] - u[-2])
    x = p.of([u[0] + d * t0, u[-1] + d * t1, u[k] + d * w, 0.5 * (u[k] + u[k + 1]) - d * w])
    for a, b in zip(u[:-1], u[1:]):
        # beside a cell: within the tolerance of 1e-6 m2 that positions are read with
        long = 1.001 * np.linalg.norm(b - a)
        if np.linalg.norm(np.cross(b - a, x - a)) < 2e-6 and np.linalg.norm(x - a) <= max(long, 1e-4 * length) \
                and np.linalg.norm(x - b) <= max(long, 1e-4 * length):
            raise Invalid("within tolerance of the line")
    return x


def mismatched(p, m):
    """A pole-residue model whose lists disagree."""
    m = copy.deepcopy(m)
    a, b = p.of([("poles", "real"), ("poles", "imag"), ("residues", "real"), ("residues", "imag")])
    if p.int(2) and m[a][b]:
        m[a][b] = m[a][b][:-1]
    else:
        m[a][b] = m[a][b] + [-1e8]
    if p.int(3) == 0:
        other = {"real": "imag", "imag": "real"}[b]
        if len(m[a][other]) + 1 == len(m[a][b]):
            m[a][other] = m[a][other] + [0.0]
    return m


def bad_distances(p, n, nodes):
    return np.zeros(p.of([(n + 1, nodes, 3), (n, nodes - 1, 3), (n, nodes + 1, 3), (n, nodes, 2), (nodes, n, 3)
                          if n != nodes else (n, nodes, 1), (n, nodes), (1, n, nodes, 3)]))


def some_field():
    t = sp.Symbol("t")
    return mtl.Field(sp.sin(t), sp.cos(t), sp.exp(-t ** 2))


def some_wave():
    t = sp.Symbol("t")
    return mtl.PlaneWave(lambda s: sp.exp(-s ** 2), 0.5, 0.3, 0.2)


MODEL = {"cte": 10.0, "prop": 1e-9, "poles": {"real": [-1e8], "imag": [0.0]},
         "residues": {"real": [1e9], "imag": [0.0]}}


def some_model(p, scale=1.0):
    m = copy.deepcopy(MODEL)
    k = p.int(4)
    if k == 1:
        m["prop"], m["poles"], m["residues"] = 0.0, {"real": [], "imag": []}, {"real": [], "imag": []}
    if k == 2:
        m["cte"], m["poles"], m["residues"] = 0.0, {"real": [], "imag": []}, {"real": [], "imag": []}
    if k == 3:
        m["cte"], m["prop"] = 0.0, 0.0
    return m


# ---- one line ------------------------------------------------------------------------------------------------------

def shape_errors(p, spec):
    """Changes to the arguments of MTL, each of which makes them inconsistent."""
    n = spec["n"]
    a = sim.mtl_args(spec)
    L, C = gen_mat(a["l"]), gen_mat(a["c"])
    big = lambda M: np.pad(M, (0, 1)) + np.diag([0.0] * n + [float(M[0, 0])])
    wide = lambda M: np.hstack([M, M[:, :1]])
    one = np.eye(n)
    z = [float(50 + k) for k in range(n)]
    ways = [
        ("L of other size than C", dict(l=big(L), c=C)),
        ("C of other size than L", dict(l=L, c=big(C))),
        ("L not square", dict(l=wide(L), c=wide(C))),
        ("L a number, C a matrix", dict(l=float(L[0, 0]), c=C)),
        ("L a matrix, C a number", dict(l=L, c=float(C[0, 0]))),
        ("L a text", dict(l="1e-7")),
        ("C missing", dict(c=None)),
        ("L a list", dict(l=L.tolist(), c=C.tolist())),
        ("R of other size", dict(r=np.eye(n + 1))),
        ("R not square", dict(r=np.ones((n, n + 1)))),
        ("R a text", dict(r="1")),
        ("R missing", dict(r=None)),
        ("G of other size", dict(g=np.eye(n + 1))),
        ("G not square", dict(g=np.ones((n, n + 1)))),
        ("G a text", dict(g="1")),
        ("G a list", dict(g=one.tolist())),
        ("Zs an array, Zl a number", dict(Zs=np.array(z), Zl=50.0)),
        ("Zs a number, Zl an array", dict(Zs=50.0, Zl=np.array(z))),
        ("Zs longer", dict(Zs=np.array(z + [1.0]), Zl=np.array(z + [1.0]))),
        ("Zs and Zl of other lengths", dict(Zs=np.array(z), Zl=np.array(z + [1.0]))),
        ("more divisions than segments", dict(ndiv=a["ndiv"] + [2])),
        ("more nodes than divisions", dict(node_positions=np.vstack([a["node_positions"], a["node_positions"][-1:] + 1.0]))),
        ("a segment without cells", dict(ndiv=[0] * len(a["ndiv"]))),
    ]
    if n > 1:
        ways += [
            ("R a number", dict(r=1.0)),
            ("G a number", dict(g=0.01)),
            ("R too small", dict(r=np.eye(n - 1))),
            ("G too small", dict(g=np.eye(n - 1))),
            ("Zs shorter", dict(Zs=np.array(z[:-1]), Zl=np.array(z[:-1]))),
            ("Zs a full matrix", dict(Zs=np.diag(z), Zl=np.diag(z))),
        ]
    what, kw = p.of(ways)
    a.update(kw)
    return what, a


def gen_mat(x):
    return np.atleast_2d(np.array(x, dtype=float))


def line_request(p, kind, spec, line, u):
    """Makes the request of that kind, which must be rejected."""
    n = spec["n"]
    here = lambda: u[p.int(len(u))].copy()
    c = p.int(n)
    bad_c = n + p.of([0, 0, 1, 5])
    if kind == "shape":
        what, a = shape_errors(p, spec)
        rejected(what, mtl.MTL, **a)
    elif kind == "empty segment":
        a = sim.mtl_args(spec)
        k = p.int(len(a["ndiv"]))
        a["ndiv"] = [0 if i == k else m for i, m in enumerate(a["ndiv"])]
        rejected(kind, mtl.MTL, **a)
    elif kind == "probe outside":
        rejected(kind, line.add_probe, outside(p, u), p.of(["voltage", "current"]))
    elif kind == "probe type":
        rejected(kind, line.add_probe, here(), p.of(["Voltage", "", "power", None, "v", 1, "currents"]))
    elif kind == "source outside":
        rejected(kind, line.add_voltage_source, position=outside(p, u), conductor=c, magnitude=lambda t: 1.0)
    elif kind == "source conductor":
        rejected(kind, line.add_voltage_source, position=sim.end_pos(u, p.of("SL")), conductor=bad_c, magnitude=lambda t: 1.0)
    elif kind == "resistance outside":
        a, b = here(), outside(p, u)
        a, b = p.of([(a, b), (b, a), (b, b)])
        rejected(kind, line.set_resistance_in_region, a, b, c, 50.0)
    elif kind == "resistance point outside":
        rejected(kind, line.set_resistance_at_point, outside(p, u), c, 50.0)
    elif kind == "resistance conductor":
        rejected(kind, line.set_resistance_in_region, here(), here(), bad_c, 50.0)
    elif kind == "conductance outside":
        a, b = here(), outside(p, u)
        a, b = p.of([(a, b), (b, a), (b, b)])
        rejected(kind, line.add_conductance_in_region, a, b, c, 0.1)
    elif kind == "conductance point outside":
        rejected(kind, line.add_conductance_at_point, outside(p, u), c, 0.1)
    elif kind == "conductance conductor":
        rejected(kind, line.add_conductance_in_region, here(), here(), bad_c, 0.1)
    elif kind == "connector outside":
        rejected(kind, line.add_dispersive_connector, outside(p, u), c, some_model(p))
    elif kind == "connector conductor":
        rejected(kind, line.add_dispersive_connector, here(), bad_c, some_model(p))
    elif kind == "connector lists":
        rejected(kind, line.add_dispersive_connector, here(), c, mismatched(p, MODEL))
    elif kind == "connector twice":
        # the line holds one at conductor 0 of cell 0, installed by the case
        rejected(kind, line.add_dispersive_connector, u[0] + 0.1 * (u[1] - u[0]), 0, some_model(p))
    elif kind == "field distances":
        rejected(kind, line.add_external_field, some_field(), bad_distances(p, n, len(u)))
    elif kind == "planewave distances":
        rejected(kind, line.add_planewave, some_wave(), bad_distances(p, n, len(u)))
    else:
        raise KeyError(kind)


LINE_KINDS = ["shape", "shape", "shape", "shape", "empty segment", "probe outside", "probe type", "source outside", "source conductor",
              "resistance outside", "resistance point outside", "resistance conductor", "conductance outside",
              "conductance point outside", "conductance conductor", "connector outside", "connector conductor",
              "connector lists", "connector twice", "field distances", "planewave distances"]


@st.composite
def line_case(draw):
    req = [[draw(st.sampled_from(LINE_KINDS)), draw(params())] for _ in range(draw(st.sampled_from([1, 1, 2])))]
    spec = draw(gen.line(max_n=3, max_cells=6, max_seg=3))
    steps = draw(st.integers(2, 10))
    return {"spec": spec, "steps": steps, "drives": draw(gen.drives(spec["n"], steps)),
            "first": draw(params()), "req": req}


def line_run(c, ask):
    spec = c["spec"]
    line = sim.build_mtl(spec)
    u, _ = sim.grid(spec)
    if any(k == "connector twice" for k, _ in c["req"]):
        line.add_dispersive_connector(u[0] + 0.1 * (u[1] - u[0]), 0, some_model(P(c["first"])))
    if ask and c["first"][1] % 2 == 0:
        for kind, p in c["req"]:
            line_request(P(p), kind, spec, line, u)
    sim.add_drives(line, u, c["drives"], sim.cfl(spec))
    rec = sim.Recorder(line, u)
    before = len(line.probes)
    if ask and c["first"][1] % 2 == 1:
        for kind, p in c["req"]:
            line_request(P(p), kind, spec, line, u)
    need(len(line.probes) == before, "a rejected probe stays in the list of probes")
    line.run_until(sim.until(c["steps"], sim.cfl(spec)))
    return rec.history()


def run_line(c):
    B = line_run(c, True)
    A = line_run(c, False)
    what = ", ".join(k for k, _ in c["req"])
    same([B], [A], what)
    return Info(np.max(np.abs(A[0])) > 0, [k for k, _ in c["req"]])


# ---- bundles, networks and managers --------------------------------------------------------------------------------

EARLY = ["bundle two in level 0", "bundle other grid", "bundle not a line", "probe outside", "probe type",
         "drive outside", "drive conductor", "coupling same level", "coupling far level", "coupling no level",
         "coupling conductor", "coupling direction", "coupling lists", "end side", "end conductor", "end direction",
         "end lists", "end same level", "resistance outside", "conductance outside", "resistance conductor",
         "conductance conductor"]
NET = ["net side", "net node twice", "net negative node", "net partial", "net repeated conductor",
       "net conductor out of range"]
JOIN = ["node to ground", "node R", "node C", "node LCpRs", "node sRLC", "node short", "nodes R", "nodes sRLC",
        "nodes short", "nodes R zero", "values sRLC", "values nodes sRLC", "values LCpRs", "LCpRs undeclared"]
LATE = ["bundle twice", "bundle same name", "network unknown bundle", "network twice", "network same end",
        "network wrong level", "network missing level", "field bundle", "field distances", "planewave distances",
        "localized distances"]


def bad_wave(p):
    return p.of([0, lambda t: 5.0])


def early_request(p, kind, S, bi, md, lines):
    b = S["bundles"][bi]
    u, _ = sim.grid(b)
    ns = sy.n_of_levels(b)
    N = sum(ns)
    here = lambda: u[p.int(len(u))].copy()
    lines2 = lambda: sy.build_lines(b)
    if kind == "bundle two in level 0":
        ls = lines2()
        ls[0] = ls[0] + sy.build_lines(b)[0]
        rejected(kind, mtl.MTLD, ls, name="x")
    elif kind == "bundle other grid":
        ls = lines2()
        k = max(ls)
        o = dict(b, nodes=[list(x) for x in b["nodes"]], ndiv=list(b["ndiv"]))
        how = p.int(3)
        if how == 0:
            o["ndiv"][-1] += 1
        elif how == 1:
            o["nodes"] = [[x + 0.01, y, z] for x, y, z in o["nodes"]]
        else:
            o["nodes"] = o["nodes"][::-1]
            o["ndiv"] = o["ndiv"][::-1]
        ls[k + 1] = [sy.build_lines(o)[0][0]]
        rejected(kind, mtl.MTLD, ls, name="x")
    elif kind == "bundle not a line":
        ls = lines2()
        ls[max(ls) + 1] = [p.of([md, "line", None])]
        rejected(kind, mtl.MTLD, ls, name="x")
    elif kind == "probe outside":
        rejected(kind, md.add_probe, outside(p, u), p.of(["voltage", "current"]))
    elif kind == "probe type":
        rejected(kind, md.add_probe, here(), p.of(["Voltage", "", "power", None, "v", 1, "currents"]))
    elif kind == "drive outside":
        a, x = here(), outside(p, u)
        a, x = p.of([(a, x), (x, a), (x, x)])
        rejected(kind, md.add_localized_longitudinal_field, a, x, p.int(N), lambda t: 5.0, "localized efield drive")
    elif kind == "drive conductor":
        rejected(kind, md.add_localized_longitudinal_field, u[0].copy(), u[-1].copy(), N + p.of([0, 0, 1, 4]),
                 lambda t: 5.0, "localized efield drive")
    elif kind in ("resistance outside", "conductance outside"):
        a, x = here(), outside(p, u)
        a, x = p.of([(a, x), (x, a), (x, x)])
        f = md.set_resistance_in_region if kind[0] == "r" else md.add_conductance_in_region
        rejected(kind, f, a, x, p.int(N), 5.0)
    elif kind in ("resistance conductor", "conductance conductor"):
        f = md.set_resistance_in_region if kind[0] == "r" else md.add_conductance_in_region
        rejected(kind, f, here(), here(), N + p.of([0, 0, 1, 4]), 5.0)
    else:
        zt = dict(some_model(p), direction=p.of(["in", "out", "both"]))
        top = len(ns) - 1
        lo = p.int(top) if top else 0
        ol, il = (lo, lo + 1) if p.int(2) else (lo + 1, lo)
        if not top:
            ol = il = 0
        oc, ic = [p.int(ns[ol])], [p.int(ns[il])]
        need_two = ("conductor", "direction", "lists", "side")
        if kind.split()[-1] in need_two and not top:
            raise Invalid("one level only")
        if kind in ("coupling same level", "end same level"):
            il = ol
            oc, ic = [0], [ns[ol] - 1]
        elif kind == "coupling far level":
            if top < 2:
                raise Invalid("fewer than three levels")
            ol, il = p.of([(0, 2), (2, 0)])
            oc, ic = [0], [0]
        elif kind == "coupling no level":
            ol, il = p.of([(top, top + 1), (top + 1, top), (0, -1), (-1, 0)])
            oc, ic = [0], [0]
        elif kind in ("coupling conductor", "end conductor"):
            if p.int(2):
                oc = p.of([[ns[ol]], oc + [ns[ol]], [ns[ol] + 3]])
            else:
                ic = p.of([[ns[il]], ic + [ns[il]], [ns[il] + 3]])
        elif kind in ("coupling direction", "end direction"):
            zt["direction"] = p.of(["inwards", "", None, "In", "inout"])
        elif kind in ("coupling lists", "end lists"):
            zt = dict(mismatched(p, MODEL), direction=zt["direction"])
        kw = dict(out_level=ol, out_level_conductors=oc, in_level=il, in_level_conductors=ic, transfer_impedance=zt)
        if kind.startswith("end"):
            side = p.of(["initial", "end"])
            if kind == "end side":
                side = p.of(["start", "", None, "Initial", "S", 0, "final"])
            rejected(kind, md.set_connector_transfer_impedance, side=side, **kw)
        else:
            rejected(kind, md.add_transfer_impedance, **kw)


def net_request(p, kind, S, mds, lines):
    bi = p.int(len(mds))
    lv = p.int(len(lines[bi]))
    k = p.int(len(lines[bi][lv]))
    line = lines[bi][lv][k]
    n = line.number_of_conductors
    side = p.of("SL")
    conn = [[c, c, {"connectorType": "Conn_R"}] for c in range(n)]
    if kind == "net side":
        side = p.of(["X", "", None, "s", "initial", 0, "LS"])
    elif kind == "net node twice":
        if n == 1 or p.int(2):
            other = line if len(lines[bi][lv]) == 1 else lines[bi][lv][1 - k]
            key = {("a", "S"): {"line": line, "side": "S", "bundle": mds[bi], "connections": conn},
                   ("b", "L"): {"line": other, "side": "L", "bundle": mds[bi],
                                "connections": [[c, c, {"connectorType": "Conn_R"}] for c in range(other.number_of_conductors)]}}
            rejected(kind, networks.Network, key)
            return
        conn[-1][0] = conn[0][0]
    elif kind == "net negative node":
        conn[p.int(n)][0] = -1 - p.int(3)
    elif kind == "net partial":
        if n == 1:
            conn = []
        else:
            del conn[p.int(n)]
    elif kind == "net repeated conductor":
        conn.append([n + 5, p.int(n), {"connectorType": "Conn_R"}])
    elif kind == "net conductor out of range":
        conn[p.int(n)][1] = n + p.int(2)
    rejected(kind, networks.Network, {line: {"side": side, "bundle": mds[bi], "connections": conn}})


def join_request(p, kind, net, nw):
    """On a network of the system, before the others are built."""
    ids = [i for e in net["ends"] for i in e["ids"]]
    a = p.of(ids)
    x = max(ids) + 1 + p.of([0, 1, 50]) if p.int(3) else -1
    w = bad_wave(p)
    declared = {b["a"] for b in net["br"] if b["t"] == "LC"}
    if kind == "node to ground":
        rejected(kind, nw.connect_to_ground, x, R=50.0, Vt=w)
    elif kind == "node R":
        rejected(kind, nw.connect_to_ground_R, x, R=50.0, Vt=w)
    elif kind == "node C":
        rejected(kind, nw.connect_to_ground_C, x, C=1e-12, Vt=w)
    elif kind == "node LCpRs":
        rejected(kind, nw.connect_to_ground_LCpRs, x, R=50.0, L=1e-9, C=1e-12, Vt=w)
    elif kind == "node sRLC":
        rejected(kind, nw.connect_to_ground_sRLC, x, R=50.0, L=p.of([0, 1e-9]), C=p.of([1e22, 1e-12]), Vt=w)
    elif kind == "node short":
        rejected(kind, nw.short_to_ground, x)
    elif kind == "nodes R":
        rejected(kind, nw.connect_nodes, *p.of([(a, x), (x, a), (x, x)]), R=50.0, Vt=w)
    elif kind == "nodes sRLC":
        rejected(kind, nw.connect_nodes_sRLC, *p.of([(a, x), (x, a), (x, x)]), R=50.0, L=p.of([0, 1e-9]),
                 C=p.of([1e22, 1e-12]), Vt=w)
    elif kind == "nodes short":
        rejected(kind, nw.short_nodes, *p.of([(a, x), (x, a), (x, x)]))
    elif kind == "nodes R zero":
        rejected(kind, nw.connect_nodes, a, p.of(ids), R=p.of([0, 0.0]), Vt=w)
    elif kind in ("values sRLC", "values nodes sRLC"):
        R, L, C = p.of([(-1.0, 1e-9, 1e-12), (10.0, -1e-9, 1e-12), (10.0, 1e-9, 0.0), (10.0, 1e-9, -1e-12),
                        (0, 0, 1e-12), (-5.0, 0, 1e-12), (10.0, 0, 0.0)])
        if kind == "values sRLC":
            rejected(kind, nw.connect_to_ground_sRLC, a, R=R, L=L, C=C, Vt=w)
        else:
            rejected(kind, nw.connect_nodes_sRLC, a, p.of(ids), R=R, L=L, C=C, Vt=w)
    elif kind == "values LCpRs":
        if not declared:
            raise Invalid("no node holds such a connector")
        R, L, C = p.of([(-1.0, 1e-9, 1e-12), (10.0, -1e-9, 1e-12), (10.0, 1e-9, 1e22), (10.0, 1e-9, 1e30)])
        rejected(kind, nw.connect_to_ground_LCpRs, sorted(declared)[0], R=R, L=L, C=C, Vt=w)
    elif kind == "LCpRs undeclared":
        rest = [i for i in ids if i not in declared]
        if not rest:
            raise Invalid("every node holds such a connector")
        rejected(kind, nw.connect_to_ground_LCpRs, p.of(rest), R=10.0, L=1e-9, C=1e-12, Vt=w)
    else:
        raise KeyError(kind)


def one_end(line, md, side, first=0):
    return networks.Network({line: {"side": side, "bundle": md, "connections": [
        [first + c, c, {"connectorType": "Conn_R"}] for c in range(line.number_of_conductors)]}})


def late_request(p, kind, S, r):
    bi = p.int(len(r.mds))
    md, lines = r.mds[bi], r.lines[bi]
    u, _ = sim.grid(S["bundles"][bi])
    if kind == "bundle twice":
        rejected(kind, r.m.add_bundle, md)
    elif kind == "bundle same name":
        other = sy.build_bundle(S["bundles"][(bi + 1) % len(r.mds)])[0]
        other.name = md.name
        rejected(kind, r.m.add_bundle, other)
    elif kind == "network unknown bundle":
        other, ls = sy.build_bundle(dict(S["bundles"][bi], name="nobody"))
        lv = p.int(len(ls))
        rejected(kind, r.m.add_network, networks.NetworkD({lv: one_end(ls[lv][0], other, p.of("SL"))}))
    elif kind == "network twice":
        if not r.nets:
            raise Invalid("no network")
        rejected(kind, r.m.add_network, p.of(r.nets))
    elif kind == "network same end":
        lv = p.int(len(lines))
        rejected(kind, r.m.add_network, networks.NetworkD({lv: one_end(p.of(lines[lv]), md, p.of("SL"))}))
    elif kind in ("network wrong level", "network missing level"):
        if len(lines) < 2 and kind == "network wrong level":
            raise Invalid("one level only")
        lv = p.int(len(lines))
        at = len(lines) + p.int(3) if kind == "network missing level" else (lv + 1 + p.int(len(lines) - 1)) % len(lines)
        # of a manager of its own, where no end is taken yet
        m = r.m.__class__()
        m.add_bundle(md)
        rejected(kind, m.add_network, networks.NetworkD({at: one_end(p.of(lines[lv]), md, p.of("SL"))}))
    elif kind == "field bundle":
        n = lines[0][0].number_of_conductors
        rejected(kind, r.m.add_localized_external_field, p.of(["nobody", "", None]), some_field(),
                 np.zeros((n, len(u), 3)), [u[0], u[-1]])
    else:
        n = lines[0][0].number_of_conductors
        shapes = {(ls[0][0].number_of_conductors, len(sim.grid(b)[0])) for ls, b in zip(r.lines, S["bundles"])}
        if len(shapes) > 1 and p.int(2):
            d = np.ones((n, len(u), 3)) * 0.01           # right for this bundle, wrong for another
        else:
            d = bad_distances(p, n, len(u)) + 0.01
            if d.ndim == 3 and d.shape[2] == 3 and d.shape[:2] in shapes and len(shapes) == 1:
                raise Invalid("right after all")
        if kind == "localized distances":
            if d.shape == (n, len(u), 3):
                raise Invalid("right after all")
            rejected(kind, r.m.add_localized_external_field, md.name, some_field(), d, [u[0], u[-1]])
        elif kind == "field distances":
            rejected(kind, r.m.add_external_field, some_field(), d)
        else:
            rejected(kind, r.m.add_planewave, some_wave(), d)


@st.composite
def system_case(draw):
    kinds = st.sampled_from(sorted(2*EARLY + NET + 2*JOIN + 2*LATE))
    req = [[draw(kinds), draw(params())] for _ in range(draw(st.sampled_from([1, 1, 1, 3])))]
    S = draw(sy.system(max_bundles=2, steps_max=8, max_levels=3, max_cells=4, max_poles=1))
    return {"S": S, "req": req}


def system_run(S, req):
    b = sy.Run()
    b.dt = sy.system_dt(S)
    b.mds, b.lines = [], []
    for spec in S["bundles"]:
        md, ls = sy.build_bundle(spec)
        b.mds.append(md)
        b.lines.append(ls)
    for kind, p in req:
        p = P(p)
        if kind in EARLY:
            bi = p.int(len(b.mds))
            if kind.split()[0] in ("coupling", "end"):      # couplings need levels
                bi = max(range(len(b.mds)), key=lambda k: len(b.lines[k]))
            early_request(p, kind, S, bi, b.mds[bi], b.lines[bi])
        elif kind in NET:
            net_request(p, kind, S, b.mds, b.lines)
    b.nets = []
    for k, net in enumerate(S["nets"]):
        nd = sy.build_net(net, b.mds, b.lines, b.dt)
        b.nets.append(nd)
        for kind, p in req:
            p = P(p)
            if kind in JOIN and p.int(len(S["nets"])) == k:
                join_request(p, kind, net, nd.levels[net["level"]])
    b.m = sy.mtln.MTLN()
    for md in b.mds:
        b.m.add_bundle(md)
    for nd in b.nets:
        b.m.add_network(nd)
    rec = [sim.Recorder(md, sim.grid(x)[0]) for md, x in zip(b.mds, S["bundles"])]
    counts = [len(b.m.bundles), len(b.m.networks), b.m.dt] + [len(md.probes) for md in b.mds]
    for kind, p in req:
        if kind in LATE:
            late_request(P(p), kind, S, b)
    now = [len(b.m.bundles), len(b.m.networks), b.m.dt] + [len(md.probes) for md in b.mds]
    need(counts == now, "bundles, networks, time step and probes were %s, after the rejected request %s" % (counts, now))
    b.m.run_until(sim.until(S["steps"], b.dt))
    return [x.history() for x in rec]


def run_system(c):
    B = system_run(c["S"], c["req"])
    A = system_run(c["S"], [])
    same(B, A, ", ".join(k for k, _ in c["req"]))
    return Info(max(np.max(np.abs(V)) for V, _ in A) > 0, [k for k, _ in c["req"]])


# ---- model files ---------------------------------------------------------------------------------------------------

def used_materials(m, kind):
    ids = set()
    if kind == "wire":
        ids = {c["materialId"] for c in m["cables"]}
    elif kind == "connector":
        ids = {c[k] for c in m["cables"] for k in ("initialConnectorId", "endConnectorId")}
    return [x for x in m["materials"] if x["materialId"] in ids]


def holders(m):
    """Elements with others inside."""
    inner = set()

    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if v:
                    inner.add(int(k))
                walk(v)
    for b in m["bundles"]:
        walk(b["nestedElemIds"])
    return inner


def spoil(p, kind, J):
    """Changes a good file so that it contradicts itself.  Raises Invalid if it has nothing to spoil."""
    m = J["model"]

    def some(key):
        x = m.get(key) or []
        if not x:
            raise Invalid("no " + key)
        return p.of(x)

    def nobody():
        return 5000 + p.int(100)

    def element(key):
        x = m["elements"].get(key) or []
        if not x:
            raise Invalid("no " + key)
        return x, p.int(len(x))

    def edit(key, words):
        x, k = element(key)
        w = x[k].split()
        words(w)
        x[k] = " ".join(w)

    def node_of(item):
        for k, e in enumerate(m["elements"]["node"]):
            if int(e.split()[0]) == item["elemIds"][-1]:
                return k
        raise KeyError

    def source(t):
        x = [s for s in m.get("sources") or [] if s["sourceType"] == t]
        if not x:
            raise Invalid("no source of that type")
        return p.of(x)

    def move(item):
        """Puts the coordinate of an item off every line."""
        c = m["elements"]["node"][node_of(item)].split()[-1]
        for k, x in enumerate(m["coordinates"]):
            if x.split()[0] == c:
                if any(c in e.split()[3:] for key in ("line", "polyline") for e in m["elements"].get(key, [])):
                    raise Invalid("a coordinate of a line")
                m["coordinates"][k] = c + " 1e3 -1e3 1e3"

    lines = "polyline" if m["elements"].get("polyline") else "line"
    unsplit = lambda *keys: [e.split() for k in keys for e in m["elements"].get(k, [])]
    if kind == "coordinate of an element":
        edit(lines, lambda w: w.__setitem__(3 + p.int(len(w) - 3), str(nobody())))
    elif kind == "coordinate of a node":
        edit("node", lambda w: w.__setitem__(-1, str(nobody())))
    elif kind == "element of a cable":
        c = some("cables")
        c["elemIds"][p.int(len(c["elemIds"]))] = nobody()
    elif kind == "material of a cable":
        some("cables")["materialId"] = nobody()
    elif kind == "connector as material of a cable":
        some("cables")["materialId"] = p.of(used_materials(m, "connector"))["materialId"]
    elif kind == "connector of a cable":
        some("cables")[p.of(["initialConnectorId", "endConnectorId"])] = nobody()
    elif kind == "wire as connector of a cable":
        some("cables")[p.of(["initialConnectorId", "endConnectorId"])] = p.of(used_materials(m, "wire"))["materialId"]
    elif kind == "coordinate of a termination":
        g = p.of(some("terminations")["coordIds"])
        g[p.int(len(g))] = nobody()
    elif kind == "coordinate of a junction":
        p.of(some("junctions")["unitedCoordIds"])[p.int(2)] = nobody()
    elif kind == "element of a probe":
        some("probes")["elemIds"] = [nobody()]
    elif kind == "type of a probe":
        some("probes")["type"] = p.of(["Voltage", "", "power", "currents"])
    elif kind == "cable of a probe":
        some("probes")["cable"] = "nobody"
    elif kind == "place of a probe":
        x = some("probes")
        if "cable" not in x:
            raise Invalid("found by its coordinate")
        move(x)
    elif kind == "element of a source":
        x = some("sources")
        x["elemIds"][p.int(len(x["elemIds"]))] = nobody()
    elif kind == "kind of source":
        some("sources")["sourceType"] = p.of(["Terminal", "", "Source"])
    elif kind == "type of a distributed source":
        source("DistributedSource")["type"] = p.of(["field", "", "Planewave drive"])
    elif kind == "cable of a distributed source":
        source("DistributedSource")["cable"] = "nobody"
    elif kind == "conductor of a distributed source":
        x = source("DistributedSource")
        x["conductor"] = [len(c["elemIds"]) for c in m["cables"] if c["name"] == x["cable"]][0] + p.of([0, 1, 7])
    elif kind == "place of a distributed source":
        move(source("DistributedSource"))
    elif kind == "place of a terminal source":
        # at a coordinate that no termination or junction holds
        x = source("TerminalSource")
        k = node_of(x)
        m["coordinates"].append("4999 0 0 0")
        w = m["elements"]["node"][k].split()
        if sum(e.split()[0] == w[0] for e in m["elements"]["node"]) > 1:
            raise Invalid("shared")
        m["elements"]["node"][k] = " ".join(w[:-1] + ["4999"])
    elif kind == "waveform":
        some("sources")["magnitude"]["type"] = p.of(["square", "", "Sin", "gauss"])
    elif kind == "parameter of a waveform":
        raise Invalid("met when running")
    elif kind == "material of a lumped element":
        some("lumpedElements")["materialId"] = nobody()
    elif kind == "kind of lumped element":
        i = some("lumpedElements")["materialId"]
        x = [x for x in m["materials"] if x["materialId"] == i][0]
        x["connectorType"] = p.of(["Conn_R", "Dispersive2", ""])
        x.pop("model")
    elif kind == "model of a lumped element":
        i = some("lumpedElements")["materialId"]
        x = [x for x in m["materials"] if x["materialId"] == i][0]
        x["model"] = mismatched(p, x["model"])
    elif kind == "cable of a lumped element":
        some("lumpedElements")["cable"] = "nobody"
    elif kind == "conductor of a lumped element":
        x = some("lumpedElements")
        x["conductor"] = [len(c["elemIds"]) for c in m["cables"] if c["name"] == x["cable"]][0] + p.of([0, 1, 7])
    elif kind == "coordinate of a lumped element":
        some("lumpedElements")["coordIds"] = [nobody()]
    elif kind == "coordinate of a cable end":
        some("cableEnds")["coordIds"] = [nobody()]
    elif kind == "material of a cable end":
        some("cableEnds")["materialId"] = nobody()
    elif kind == "coupling of a cable end":
        inner = holders(m)
        ends = [e for e in m.get("cableEnds") or [] for w in unsplit("line", "polyline")
                if str(e["coordIds"][0]) in (w[3], w[-1]) and int(w[0]) in inner]
        if not ends:
            raise Invalid("no end of a cable around others")
        i = p.of(ends)["materialId"]
        x = [x for x in m["materials"] if x["materialId"] == i][0]
        if p.int(2):
            x["transferImpedance"]["direction"] = p.of(["inwards", ""])
        else:
            x["transferImpedance"] = mismatched(p, x["transferImpedance"])
    elif kind == "coupling of a cable":
        inner = holders(m)
        mats = {c["materialId"] for c in m["cables"] if inner & set(c["elemIds"])}
        xs = [x for x in m["materials"] if x["materialId"] in mats and "transferImpedance" in x]
        if not xs:
            raise Invalid("no coupling")
        x = p.of(xs)
        if p.int(2):
            x["transferImpedance"]["direction"] = p.of(["inwards", ""])
        else:
            x["transferImpedance"] = mismatched(p, x["transferImpedance"])
    elif kind == "element of a bundle":
        b = some("bundles")
        if isinstance(b["nestedElemIds"], dict):
            k = p.of(sorted(b["nestedElemIds"]))
            b["nestedElemIds"][str(nobody())] = b["nestedElemIds"].pop(k)
        else:
            w = b["nestedElemIds"].split()
            w[p.int(len(w))] = str(nobody())
            b["nestedElemIds"] = " ".join(w)
    elif kind == "type of a connector":
        x = p.of(used_materials(m, "connector"))
        if x["connectorType"] == "MultiwireConnector":
            x["connections"][p.int(len(x["connections"]))] = p.of(["Conn_X", "", "conn_R"])
            if len(x["connections"]) > 1 and any(len(c["elemIds"]) == 1 for c in m["cables"]
                                                 if x["materialId"] in (c["initialConnectorId"], c["endConnectorId"])):
                raise Invalid("maybe beyond the conductors")
        else:
            x["connectorType"] = p.of(["Conn_X", "", "conn_R", "R"])
    elif kind == "values of a multiwire connector":
        xs = [x for x in used_materials(m, "connector") if x["connectorType"] == "MultiwireConnector"]
        if not xs:
            raise Invalid("no such connector")
        x = p.of(xs)
        k = p.of([k for k in ("connections", "resistanceVector", "inductanceVector", "capacitanceVector") if k in x])
        x[k] = x[k][:-1]
    elif kind == "sizes of a multiwire":
        xs = [x for x in used_materials(m, "wire") if "inductanceMatrix" in x]
        if not xs:
            raise Invalid("no multiwire")
        x = p.of(xs)
        n = len(x["inductanceMatrix"])
        big = [[1e-6 if i == j else 0.0 for j in range(n + 1)] for i in range(n + 1)]
        k = p.of(["inductanceMatrix", "capacitanceMatrix", "both", "resistanceVector"])
        if k == "resistanceVector":
            x[k] = [1.0] * (n + 1)
        elif k == "both":
            x["inductanceMatrix"] = big
            x["capacitanceMatrix"] = [[v * 1e-4 for v in r] for r in big]
        else:
            x[k] = big
    elif kind == "divisions of a cable":
        c = some("cables")
        n = [c["ndiv"]] if isinstance(c["ndiv"], int) else list(c["ndiv"])
        c["ndiv"] = p.of([n + [2], n[:-1] + [0], n + n])
    elif kind == "duplicate coordinate":
        used = [x for w in unsplit("line", "polyline") for x in w[3:]]
        i = p.of(used)
        m["coordinates"].insert(p.int(len(m["coordinates"])), "%s 9 9 9" % i)
    elif kind == "duplicate material":
        x = copy.deepcopy(p.of(used_materials(m, p.of(["wire", "connector"]))))
        m["materials"].insert(p.int(len(m["materials"])), x)
    elif kind == "duplicate element":
        x, k = element(lines)
        x.insert(p.int(len(x)), x[k])
    elif kind == "duplicate node":
        x, k = element("node")
        x.insert(p.int(len(x)), x[k].split()[0] + " 0 1 " + x[0].split()[-1])
    elif kind == "duplicate cable":
        c = copy.deepcopy(some("cables"))
        m["cables"].append(c)
    elif kind == "duplicate cable name":
        if len(m["cables"]) < 2:
            raise Invalid("one cable")
        k = p.int(len(m["cables"]) - 1)
        m["cables"][k + 1]["name"] = m["cables"][k]["name"]
    elif kind == "duplicate bundle name":
        if len(m["bundles"]) < 2:
            raise Invalid("one bundle")
        k = p.int(len(m["bundles"]) - 1)
        m["bundles"][k + 1]["name"] = m["bundles"][k]["name"]
    elif kind == "duplicate probe name":
        if len(m.get("probes") or []) < 2:
            raise Invalid("one probe")
        k = p.int(len(m["probes"]) - 1)
        m["probes"][k + 1]["name"] = m["probes"][k]["name"]
    elif kind == "missing section":
        del m[p.of(["coordinates", "cables", "bundles", "materials", "elements"])]
    elif kind == "no model":
        del J["model"]
    elif kind == "short coordinate":
        k = p.int(len(m["coordinates"]))
        m["coordinates"][k] = " ".join(m["coordinates"][k].split()[:3])
    elif kind == "text for a number":
        used = [x for w in unsplit("line", "polyline") for x in w[3:]]
        i = p.of(used)
        m["coordinates"] = [x if x.split()[0] != i else i + " 0 x 0" for x in m["coordinates"]]
    else:
        raise KeyError(kind)
    return J


FILE_KINDS = ["coordinate of an element", "coordinate of a node", "element of a cable", "material of a cable",
              "connector as material of a cable", "connector of a cable", "wire as connector of a cable",
              "coordinate of a termination", "coordinate of a junction", "element of a probe", "type of a probe",
              "cable of a probe", "place of a probe", "element of a source", "kind of source",
              "type of a distributed source", "cable of a distributed source", "conductor of a distributed source",
              "place of a distributed source", "place of a terminal source", "waveform",
              "material of a lumped element", "kind of lumped element", "model of a lumped element",
              "cable of a lumped element", "conductor of a lumped element", "coordinate of a lumped element",
              "coordinate of a cable end", "material of a cable end", "coupling of a cable end", "coupling of a cable",
              "element of a bundle", "type of a connector", "values of a multiwire connector", "sizes of a multiwire",
              "divisions of a cable", "duplicate coordinate", "duplicate material", "duplicate element",
              "duplicate node", "duplicate cable", "duplicate cable name", "duplicate bundle name",
              "duplicate probe name", "missing section", "no model", "short coordinate", "text for a number"]


@st.composite
def file_case(draw):
    kind, p = draw(st.sampled_from(FILE_KINDS)), draw(params())      # first: what is drawn last is often simplest
    return {"M": draw(jm.model(steps_max=4, max_cells=3)), "kind": kind, "p": p}


def run_file(c):
    J = jm.write(c["M"])
    jm.parse(json.dumps(J))
    bad = spoil(P(c["p"]), c["kind"], copy.deepcopy(J))
    rejected("model file with wrong %s" % c["kind"], jm.parse, json.dumps(bad))
    return Info(True, [c["kind"]])


SUBS = [Sub("line", line_case, run_line, 2000, 20000, "the run around the rejected request moved"),
        Sub("system", system_case, run_system, 3000, 30000, "the run around the rejected request moved"),
        Sub("file", file_case, run_file, 3000, 30000, "the good file was accepted and one reference of it spoilt")]
