"""Model files: strategy of abstract models, writer of the JSON file, and the system built by hand.

An abstract model M is JSON-able:
  bundles: [{name, nodes, ndiv, levels: [[cable, ...], ...]}]   (a system bundle; every cable has "parent": None or
            [index of the parent cable in the level above, conductor], "end": {"S": connector, "L": connector},
            "zt": model or None (the transfer impedance of its shield))
  terms / juncs: [{level, ends: [[b, k, side], ...], order/pairs}]
  sources, fields, probes, lumped, cends
A connector is one of {"t": kind, "R", "L", "C"} (plain) or {"multi": [plain, ...]} (one per conductor).
"""
import copy
import json
import math
import random

import numpy as np
from hypothesis import strategies as st

from . import gen, sim, system as sy

import src.mtl as mtl
import src.mtln as mtln
import src.networks as networks
import src.waveforms as wf
from src.jsonParser import Parser

KINDS_T = ["Conn_R", "Conn_R", "Conn_R", "Conn_sRLC", "Conn_C", "Conn_LCpRs", "Conn_short"]
KINDS_J = ["Conn_R", "Conn_R", "Conn_sRLC", "Conn_short"]


# ------------------------------------------------------------------ strategies

@st.composite
def connector(draw, kinds):
    t = draw(st.sampled_from(kinds))
    c = {"t": t, "R": 0.0, "L": 0.0, "C": 1e22}
    if t in ("Conn_R", "Conn_sRLC", "Conn_LCpRs"):
        c["R"] = draw(st.one_of(gen.pos(0.5, 500.0), st.integers(1, 300).map(float)))
    if t == "Conn_sRLC":
        c["L"] = draw(st.one_of(st.just(0.0), gen.pos(1e-10, 1e-6)))
        c["C"] = draw(st.one_of(st.just(1e22), gen.pos(1e-13, 1e-10)))
    if t == "Conn_LCpRs":
        c["L"], c["C"] = draw(gen.pos(1e-10, 1e-6)), draw(gen.pos(1e-13, 1e-9))
    if t == "Conn_C":
        c["C"] = draw(gen.pos(1e-13, 1e-10))
    return c


@st.composite
def end_connector(draw, n, kinds):
    if n == 1 and draw(st.booleans()) or n > 1 and draw(st.integers(0, 3)) == 0:
        return draw(connector(kinds))
    return {"multi": [draw(connector(kinds)) for _ in range(n)]}


@st.composite
def magnitude(draw, steps):
    """Times are in time steps."""
    k = draw(st.sampled_from(["trapezoidal", "ramp", "gaussian_2", "gaussian", "sin_sq", "sin", "exp"]))
    A = draw(st.sampled_from([1.0, 1.0, -2.0, 0.5, 10.0]))
    a, b = draw(st.integers(1, max(2, steps // 2))), draw(st.integers(1, max(2, steps // 2)))
    m = {"mag": k, "A": A, "a": a, "b": b}
    if k == "trapezoidal":
        m["c"] = draw(st.integers(2, max(2, steps)))       # plateau
        m["D"] = draw(st.sampled_from([0.25, 0.5, 0.4]))
    return m


def mag_json(m, dt):
    k, A, a, b = m["mag"], m["A"], m["a"] * dt, m["b"] * dt
    if k == "trapezoidal":
        plateau = m["c"] * dt
        # D/f0 = plateau + (rise + fall)/2
        f0 = m["D"] / (plateau + 0.5 * (a + b))
        return {"type": k, "amplitude": A, "rise_time": a, "fall_time": b, "f0": f0, "D": m["D"]}
    if k == "ramp" or k == "exp":
        return {"type": k, "amplitude": A, "t0": a}
    if k == "gaussian_2":
        return {"type": k, "amplitude": A, "x0": a, "s0": b}
    if k == "gaussian":
        return {"type": k, "x0": a, "s0": b}
    return {"type": k, "amplitude": A, "frequency": math.pi / (2 * a) if k == "sin" else math.pi / (3 * a)}


def mag_fn(m, dt):
    j = mag_json(m, dt)
    k = j["type"]
    if k == "trapezoidal":
        return lambda t: wf.trapezoidal_wave(t, A=j["amplitude"], rise_time=j["rise_time"], fall_time=j["fall_time"],
                                             f0=j["f0"], D=j["D"])
    if k == "ramp":
        return lambda t: wf.ramp_pulse(t, A=j["amplitude"], x0=j["t0"])
    if k == "exp":
        return lambda t: wf.exp(t, A=j["amplitude"], x0=j["t0"])
    if k == "gaussian_2":
        return lambda t: wf.gaussian_2(t, A=j["amplitude"], x0=j["x0"], s0=j["s0"])
    if k == "gaussian":
        return lambda t: wf.gaussian(t, x0=j["x0"], s0=j["s0"])
    if k == "sin_sq":
        return lambda t: wf.sin_sq_pulse(t, A=j["amplitude"], w=j["frequency"])
    return lambda t: wf.sin_pulse(t, A=j["amplitude"], w=j["frequency"])


@st.composite
def cable(draw, n, name, max_poles):
    s = {"n": n, "name": name, "L": draw(gen.lmat(n)), "C": draw(gen.cmat(n)), "R": None, "G": None, "zt": None}
    r = draw(st.sampled_from(["none", "zero", "int", "real"]))
    if r != "none":
        one = {"zero": st.just(0.0), "int": st.integers(1, 60).map(float), "real": gen.pos(0.0, 80.0)}[r]
        v = [draw(one) for _ in range(n)]
        s["R"] = v[0] if n == 1 else [[v[i] if i == j else 0.0 for j in range(n)] for i in range(n)]
    if draw(st.integers(0, 3)):
        s["zt"] = draw(sy.zt_model(max_poles))
    return s


@st.composite
def jbundle(draw, name, others, max_levels, max_n, max_cells, max_poles):
    b = {"name": name}
    g = draw(gen.geometry(max_cells=max_cells, max_seg=2))
    if others:
        o = others[draw(st.integers(0, len(others) - 1))]
        k = draw(st.sampled_from(["free", "chain", "chain", "parallel"]))
        if k == "chain":        # starts exactly where the other ends
            d = [p - q for p, q in zip(o["nodes"][-1], g["nodes"][0])]
            g["nodes"] = [list(o["nodes"][-1])] + [[gen.rnd12(p + q) for p, q in zip(x, d)] for x in g["nodes"][1:]]
        elif k == "parallel":
            g = {"nodes": copy.deepcopy(o["nodes"]), "ndiv": list(o["ndiv"])}
    b.update(g)
    nlev = draw(st.integers(1, max_levels))
    levels = []
    for lv in range(nlev):
        lines = []
        for k in range(1 if lv == 0 else draw(st.integers(1, 2))):
            s = draw(cable(draw(st.integers(1, max_n)), "%s_%d_%d" % (name, lv, k), max_poles))
            s["parent"] = None
            if lv:
                p = draw(st.integers(0, len(levels[lv - 1]) - 1))
                s["parent"] = [p, draw(st.integers(0, levels[lv - 1][p]["n"] - 1))]
            lines.append(s)
        levels.append(lines)
    b["levels"] = canonical(levels)
    return b


def canonical(levels):
    """Order of the cables of a level as they appear in the nested description (depth first)."""
    out = [list(lv) for lv in levels]
    for lv in range(1, len(out)):
        key = {}
        for k, s in enumerate(out[lv]):
            key[k] = tuple(s["parent"])
        order = sorted(range(len(out[lv])), key=lambda k: (key[k], k))
        old = out[lv]
        out[lv] = [old[k] for k in order]
        if lv + 1 < len(out):
            back = {k: i for i, k in enumerate(order)}
            for s in out[lv + 1]:
                s["parent"][0] = back[s["parent"][0]]
    return out


@st.composite
def model(draw, max_bundles=3, max_levels=3, max_n=2, max_cells=5, steps_max=15, max_poles=2, shorts=True):
    M = {"steps": draw(st.integers(4, steps_max)), "bundles": [], "dt": draw(st.sampled_from([None, None, 0.9, 0.5]))}
    for i in range(draw(st.integers(1, max_bundles))):
        M["bundles"].append(draw(jbundle("b%d" % i, M["bundles"], max_levels if i == 0 else 2, max_n, max_cells, max_poles)))
    B = M["bundles"]
    steps = M["steps"]
    kt = [k for k in KINDS_T if shorts or k != "Conn_short"]
    kj = [k for k in KINDS_J if shorts or k != "Conn_short"]
    M["terms"], M["juncs"], M["sources"] = [], [], []
    for lv in range(max(len(b["levels"]) for b in B)):
        ends = [[bi, k, side] for bi, b in enumerate(B) if lv < len(b["levels"])
                for k in range(len(b["levels"][lv])) for side in ("S", "L")]
        ends = draw(st.permutations(ends))
        i = 0
        while i < len(ends):
            grp = ends[i:i + draw(st.sampled_from([1, 1, 2, 2, 3]))]
            i += len(grp)
            nodes = [[bi, lv, k, c, side] for bi, k, side in grp for c in range(B[bi]["levels"][lv][k]["n"])]
            junction = len(nodes) > 1 and len(grp) > 1 and draw(st.integers(0, 2)) > 0
            for bi, k, side in grp:
                s = B[bi]["levels"][lv][k]
                s.setdefault("end", {})[side] = draw(end_connector(s["n"], kj if junction else kt))
            nodes = draw(st.permutations(nodes))
            if not junction:
                # one termination, in groups that have no meaning of their own
                cuts = sorted(draw(st.sets(st.integers(1, len(nodes) - 1), max_size=2))) if len(nodes) > 1 else []
                groups = [nodes[p:q] for p, q in zip([0] + cuts, cuts + [len(nodes)])]
                M["terms"].append({"level": lv, "groups": groups})
                for x in nodes:
                    if conn_at(B, x)["t"] != "Conn_short" and draw(st.integers(0, 3)) == 0:
                        M["sources"].append({"node": x, "w": draw(magnitude(steps))})
                continue
            pairs = []
            for q in range(1, len(nodes)):
                covered = {tuple(x) for p in pairs for x in p}
                if tuple(nodes[q]) in covered:
                    continue
                p = nodes[draw(st.integers(0, q - 1))]
                pairs.append([p, nodes[q]] if draw(st.booleans()) else [nodes[q], p])
            if not any(nodes[0] in p for p in pairs):
                pairs.append([nodes[0], nodes[1]])
            M["juncs"].append({"level": lv, "pairs": pairs})
            for p in pairs:
                # a source in series with the branch, at the first node of the pair
                if sum(p[0] in o for o in pairs) == 1 and draw(st.integers(0, 4)) == 0:
                    c0, c1 = conn_at(B, p[0]), conn_at(B, p[1])
                    if c0["R"] + c1["R"] > 0:
                        M["sources"].append({"node": p[0], "w": draw(magnitude(steps))})
    M["fields"], M["probes"], M["lumped"], M["cends"] = [], [], [], []
    cables = [[bi, lv, k] for bi, b in enumerate(B) for lv, l in enumerate(b["levels"]) for k in range(len(l))]
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        bi, lv, k = draw(st.sampled_from(cables))
        N = sum(B[bi]["ndiv"])
        i = draw(st.integers(0, N - 1))
        M["fields"].append({"cable": [bi, lv, k], "c": draw(st.sampled_from([None] + list(range(B[bi]["levels"][lv][k]["n"])))),
                            "i": [i, draw(st.sampled_from([0.0, 0.0, 0.25]))],
                            "j": [draw(st.integers(i + 1, N)), 0.0], "w": draw(magnitude(steps)),
                            "type": draw(st.sampled_from(["localized efield drive"] * 2 + ["Planewave"]))})
    used = set()
    for _ in range(draw(st.sampled_from([0, 0, 1, 2, 3]))):
        bi, lv, k = draw(st.sampled_from(cables))
        c, cell = draw(st.integers(0, B[bi]["levels"][lv][k]["n"] - 1)), draw(st.integers(0, sum(B[bi]["ndiv"]) - 1))
        if (bi, lv, k, c, cell) not in used:
            used.add((bi, lv, k, c, cell))
            M["lumped"].append({"cable": [bi, lv, k], "c": c, "cell": cell, "m": draw(sy.model(max_poles))})
    used = set()
    for _ in range(draw(st.sampled_from([0, 0, 1, 2, 3]))):
        bi, lv, k = draw(st.sampled_from(cables))
        c, side = draw(st.integers(0, B[bi]["levels"][lv][k]["n"] - 1)), draw(st.sampled_from(["S", "L"]))
        x = (bi, lv, k, c) + ((side,) if sum(B[bi]["ndiv"]) > 1 else ())
        if x not in used:
            used.add(x)
            M["cends"].append({"cable": [bi, lv, k], "c": c, "side": side,
                               "R": draw(st.one_of(gen.pos(0.01, 50.0), st.integers(0, 20).map(float))),
                               "zt": draw(sy.zt_model(max_poles))})
    for i in range(draw(st.integers(1, 4))):
        bi, lv, k = draw(st.sampled_from(cables))
        named = draw(st.booleans())
        if named:
            at = ["grid", draw(st.integers(0, sum(B[bi]["ndiv"]) - 1)), draw(st.sampled_from([0.1, 0.3, 0.7]))]
        else:
            at = ["vertex", draw(st.integers(0, len(B[bi]["nodes"]) - 1)), draw(st.integers(0, B[bi]["levels"][lv][k]["n"] - 1))]
        M["probes"].append({"cable": [bi, lv, k], "named": named or draw(st.booleans()), "at": at,
                            "type": draw(st.sampled_from(["voltage", "current"]))})
    M["ids"] = draw(st.integers(0, 10 ** 6))
    return M


def conn_at(B, x):
    bi, lv, k, c, side = x
    e = B[bi]["levels"][lv][k]["end"][side]
    return e["multi"][c] if "multi" in e else e


def sys_bundle(b):
    """The bundle without losses that a file cannot express."""
    return dict(b, zt=[], czt=[], disp=[])


def model_dt(M):
    return min(sy.bundle_dt(sys_bundle(b)) for b in M["bundles"])


def point(b, at):
    u, _ = sim.grid(b)
    k, f = at
    return (u[k] if f == 0 else u[k] + f * (u[k + 1] - u[k])).tolist()


def probe_point(b, at):
    return list(b["nodes"][at[1]]) if at[0] == "vertex" else point(b, at[1:])


# ------------------------------------------------------------------ by hand

class Hand:
    pass


def build_hand(M):
    h = Hand()
    B = M["bundles"]
    h.dt = model_dt(M) * (M["dt"] or 1.0)
    dt0 = model_dt(M)
    h.m = mtln.MTLN()
    h.mds, h.lines = [], []
    for bi, b in enumerate(B):
        lines = {lv: [sim.build_mtl(sy.line_spec(sys_bundle(b), s)) for s in ls] for lv, ls in enumerate(b["levels"])}
        for e in M["cends"]:
            if e["cable"][0] == bi:
                _, lv, k = e["cable"]
                p = sim.arr(b["nodes"][0 if e["side"] == "S" else -1])
                lines[lv][k].set_resistance_in_region(p, p, e["c"], e["R"])
        for l in M["lumped"]:
            if l["cable"][0] == bi:
                _, lv, k = l["cable"]
                lines[lv][k].add_dispersive_connector(sim.arr(point(b, [l["cell"], 0.1])), l["c"], copy.deepcopy(l["m"]))
        md = mtl.MTLD(lines, name=b["name"])
        for lv in range(1, len(b["levels"])):
            for k, s in enumerate(b["levels"][lv]):
                p, pc = s["parent"]
                parent = b["levels"][lv - 1][p]
                oc = [sum(x["n"] for x in b["levels"][lv - 1][:p]) + pc]
                first = sum(x["n"] for x in b["levels"][lv][:k])
                ic = [first + c for c in range(s["n"])]
                if parent["zt"] is not None:
                    md.add_transfer_impedance(out_level=lv - 1, out_level_conductors=oc, in_level=lv,
                                              in_level_conductors=ic, transfer_impedance=copy.deepcopy(parent["zt"]))
                for e in M["cends"]:
                    if e["cable"] == [bi, lv - 1, p] and e["c"] == pc:
                        md.set_connector_transfer_impedance(
                            side={"S": "initial", "L": "end"}[e["side"]], out_level=lv - 1, out_level_conductors=oc,
                            in_level=lv, in_level_conductors=ic, transfer_impedance=copy.deepcopy(e["zt"]))
        for f in M["fields"]:
            if f["cable"][0] == bi:
                _, lv, k = f["cable"]
                md.add_localized_longitudinal_field(
                    sim.arr(point(b, f["i"])), sim.arr(point(b, f["j"])), sy.offset(b, lv, k) + (f["c"] or 0),
                    mag_fn(f["w"], dt0), f.get("type", "localized efield drive"))
        h.mds.append(md)
        h.lines.append(lines)
        h.m.add_bundle(md)
    src = {tuple(s["node"]): mag_fn(s["w"], dt0) for s in M["sources"]}
    number = {}
    for net in M["terms"] + M["juncs"]:
        nodes = [x for g in net["groups"] for x in g] if "groups" in net else [x for p in net["pairs"] for x in p]
        for x in nodes:
            number.setdefault(tuple(x), len(number))
        desc = {}
        for x in sorted({tuple(x) for x in nodes}):
            bi, lv, k, c, side = x
            kind = conn_at(B, x)["t"]
            key = (bi, k, side)
            desc.setdefault(key, {"line": h.lines[bi][lv][k], "side": side, "bundle": h.mds[bi], "connections": []})
            desc[key]["connections"].append([number[x], c, {"connectorType": kind if kind == "Conn_LCpRs" else "Conn_R"}])
        nw = networks.Network(desc)
        if "groups" in net:
            for x in nodes:
                q, a = conn_at(B, x), number[tuple(x)]
                kw = {"Vt": src[tuple(x)]} if tuple(x) in src else {}
                if q["t"] == "Conn_short":
                    nw.short_to_ground(a)
                elif q["t"] == "Conn_R":
                    nw.connect_to_ground(a, R=q["R"], **kw)
                elif q["t"] == "Conn_C":
                    nw.connect_to_ground_C(a, C=q["C"], **kw)
                elif q["t"] == "Conn_LCpRs":
                    nw.connect_to_ground_LCpRs(a, R=q["R"], L=q["L"], C=q["C"], **kw)
                else:
                    nw.connect_to_ground_sRLC(a, R=q["R"], L=q["L"], C=q["C"], **kw)
        else:
            for x, y in net["pairs"]:
                q0, q1, a0, a1 = conn_at(B, x), conn_at(B, y), number[tuple(x)], number[tuple(y)]
                R, L = q0["R"] + q1["R"], q0["L"] + q1["L"]
                inv = sum(1 / q["C"] for q in (q0, q1) if q["C"] < 1e22)
                kw = {"Vt": src[tuple(x)]} if tuple(x) in src else {}
                if L or inv:
                    nw.connect_nodes_sRLC(a0, a1, R=R, L=L, C=1 / inv if inv else 1e22, **kw)
                elif R:
                    nw.connect_nodes(a0, a1, R=R, **kw)
                else:
                    nw.short_nodes(a0, a1)
        h.m.add_network(networks.NetworkD({net["level"]: nw}))
    h.probes = []
    for p in M["probes"]:
        bi = p["cable"][0]
        h.probes.append(h.mds[bi].add_probe(sim.arr(probe_point(B[bi], p["at"])), p["type"]))
    return h


def run_hand(M):
    h = build_hand(M)
    T = sim.until(M["steps"], h.dt)
    if M["dt"] is None:
        h.m.run_until(T)
    else:
        h.m.run_until(T, dt=h.dt)
    return h


# ------------------------------------------------------------------ the file

def write(M, style=None):
    """The model as a JSON-able dictionary.  style: seed of a numbering, order and formatting of its own."""
    B = M["bundles"]
    dt = model_dt(M)
    rng = random.Random(M["ids"] if style is None else style)
    fmt = random.Random(M["ids"] * 7 + 1 if style is None else style * 7 + 1)
    pools = {}

    def fresh(kind):
        pool = pools.setdefault(kind, rng.sample(range(1, 2000), 600))
        return pool.pop()

    def num(v):
        v = float(v)
        if v == int(v) and abs(v) < 1e6 and fmt.random() < 0.5:
            return int(v)
        return v

    def deep(v):
        if isinstance(v, dict):
            return {k: deep(x) for k, x in v.items()}
        if isinstance(v, list):
            return [deep(x) for x in v]
        return num(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v

    def text(v):
        if v == int(v) and fmt.random() < 0.5:
            return str(int(v))
        return repr(float(v)) if fmt.random() < 0.7 else "%.17e" % v

    def shuffled(x):
        x = list(x)
        rng.shuffle(x)
        return x

    coords, nodes_el, lines_el, polys, materials = [], [], [], [], []

    def coord(p):
        c = fresh("coord")
        coords.append("%d %s %s %s" % (c, text(p[0]), text(p[1]), text(p[2])))
        return c

    def node(c):
        e = fresh("elem")
        nodes_el.append("%d 0 1 %d" % (e, c))
        return e

    seen = {}

    def material(m):
        key = json.dumps(m, sort_keys=True)
        if key in seen and rng.random() < 0.5:
            return seen[key]
        i = fresh("material")
        d = {"materialId": i, "name": "m%d" % i}
        d.update(deep(m))
        materials.append(d)
        seen[key] = i
        return i

    def conn_material(e):
        if "multi" in e:
            m = {"materialType": "Connector", "connectorType": "MultiwireConnector",
                 "connections": [q["t"] for q in e["multi"]],
                 "resistanceVector": [q["R"] for q in e["multi"]]}
            if any(q["L"] for q in e["multi"]) or rng.random() < 0.7:
                m["inductanceVector"] = [q["L"] for q in e["multi"]]
            if any(q["C"] < 1e22 for q in e["multi"]) or rng.random() < 0.7:
                m["capacitanceVector"] = [q["C"] for q in e["multi"]]
            return material(m)
        m = {"materialType": "Connector", "connectorType": e["t"]}
        if e["t"] != "Conn_short":
            m.update({"resistance": e["R"], "inductance": e["L"], "capacitance": e["C"]})
        return material(m)

    used_names = rng.sample(range(100), 60)
    elem, ccoord, cname, bundles, cables = {}, {}, {}, [], []
    order = [(bi, lv, k) for bi, b in enumerate(B) for lv, l in enumerate(b["levels"]) for k in range(len(l))]
    for bi, lv, k in shuffled(order):
        b = B[bi]
        s = b["levels"][lv][k]
        cname[bi, lv, k] = "cable%d" % used_names.pop()
        for c in range(s["n"]):
            e = fresh("elem")
            ids = [coord(p) for p in b["nodes"]]
            elem[bi, lv, k, c] = e
            ccoord[bi, lv, k, c] = ids
            (lines_el if len(ids) == 2 and rng.random() < 0.5 else polys).append(
                " ".join(str(x) for x in [e, 0, 1] + ids))
        w = {"materialType": "Wire" if s["n"] == 1 else "Multiwire"}
        if s["n"] == 1:
            w["inductance"], w["capacitance"] = s["L"][0][0], s["C"][0][0]
            if s["R"] is not None:
                w["resistance"] = s["R"]
        else:
            w["inductanceMatrix"], w["capacitanceMatrix"] = s["L"], s["C"]
            if s["R"] is not None:
                w["resistanceVector"] = [s["R"][i][i] for i in range(s["n"])]
        if s["zt"] is not None:
            w["transferImpedance"] = s["zt"]
        cables.append({"name": cname[bi, lv, k], "materialId": material(w),
                       "initialConnectorId": conn_material(s["end"]["S"]),
                       "endConnectorId": conn_material(s["end"]["L"]),
                       "elemIds": [elem[bi, lv, k, c] for c in range(s["n"])],
                       "ndiv": b["ndiv"][0] if len(b["ndiv"]) == 1 and rng.random() < 0.7 else list(b["ndiv"])})

    def at_end(x):
        bi, lv, k, c, side = x
        return ccoord[bi, lv, k, c][0 if side == "S" else -1]

    def nested(bi, lv, k, c):
        b = B[bi]
        below = b["levels"][lv + 1] if lv + 1 < len(b["levels"]) else []
        kids = [(lv + 1, j, d) for j, s in enumerate(below) if s["parent"] == [k, c] for d in range(s["n"])]
        sub = {str(elem[bi, l, j, d]): nested(bi, l, j, d) for l, j, d in kids}
        if all(v == "" for v in sub.values()):
            return " ".join(sub) if rng.random() < 0.8 or not sub else sub
        return sub

    for bi, b in enumerate(B):
        top = {str(elem[bi, 0, 0, c]): nested(bi, 0, 0, c) for c in range(b["levels"][0][0]["n"])}
        if all(v == "" for v in top.values()):
            top = " ".join(top)
        bundles.append({"name": "bundle%d" % used_names.pop(), "nestedElemIds": top})

    J = {"materials": materials, "layers": [{"id": 1, "name": "layer"}], "coordinates": coords, "cables": cables,
         "bundles": bundles}
    J["terminations"] = [{"name": "t%d" % i, "coordIds": [[at_end(x) for x in g] for g in
                                                         (shuffled([shuffled(g) for g in t["groups"]])
                                                          if style is not None else t["groups"])]}
                         for i, t in enumerate(M["terms"])]
    J["junctions"] = [{"name": "j%d" % i, "unitedCoordIds": [[at_end(x) for x in p] for p in
                                                            (shuffled(j["pairs"]) if style is not None else j["pairs"])]}
                      for i, j in enumerate(M["juncs"])]
    J["sources"] = [{"sourceType": "TerminalSource", "type": "voltage", "elemIds": [node(at_end(s["node"]))],
                     "magnitude": deep(mag_json(s["w"], dt))} for s in M["sources"]]
    for f in M["fields"]:
        b = B[f["cable"][0]]
        d = {"sourceType": "DistributedSource", "type": f.get("type", "localized efield drive"), "cable": cname[tuple(f["cable"])],
             "elemIds": [node(coord(point(b, f["i"]))), node(coord(point(b, f["j"])))],
             "magnitude": deep(mag_json(f["w"], dt))}
        if f["c"] is not None:
            d["conductor"] = f["c"]
        J["sources"].append(d)
    J["lumpedElements"] = [{"materialId": material({"materialType": "Connector", "connectorType": "Dispersive",
                                                    "model": l["m"]}),
                            "cable": cname[tuple(l["cable"])], "conductor": l["c"],
                            "coordIds": [coord(point(B[l["cable"][0]], [l["cell"], 0.1]))]} for l in M["lumped"]]
    J["cableEnds"] = [{"name": "e%d" % i, "coordIds": [at_end(e["cable"] + [e["c"], e["side"]])],
                       "materialId": material({"materialType": "Connector", "connectorType": "Conn_R",
                                               "resistance": e["R"], "transferImpedance": e["zt"]})}
                      for i, e in enumerate(M["cends"])]
    J["probes"] = []
    for i, p in enumerate(M["probes"]):
        bi, lv, k = p["cable"]
        c = ccoord[bi, lv, k, p["at"][2]][p["at"][1]] if p["at"][0] == "vertex" else coord(probe_point(B[bi], p["at"]))
        d = {"name": "probe%d" % i, "type": p["type"], "elemIds": [node(c)]}
        if p["named"]:
            d["cable"] = cname[bi, lv, k]
        J["probes"].append(d)
    J["elements"] = {}
    for key, x in (("line", lines_el), ("polyline", polys), ("node", nodes_el)):
        if x:
            J["elements"][key] = shuffled(x) if style is not None else x
    if style is not None:
        for key in ("materials", "coordinates", "cables", "bundles", "terminations", "junctions", "sources", "probes",
                    "lumpedElements", "cableEnds"):
            J[key] = shuffled(J[key])
    for key in ("terminations", "junctions", "sources", "probes", "lumpedElements", "cableEnds"):
        if not J[key] and rng.random() < 0.5:
            del J[key]
    return {"_format": "Semba Data File in JSON format", "_version": "0.16", "model": J}


def parse(text):
    import os
    import tempfile
    fd, path = tempfile.mkstemp(suffix=".smb.json", prefix="verif_model_")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text)
        return Parser(path)
    finally:
        os.unlink(path)


def run_file(M, style=None):
    p = parse(json.dumps(write(M, style)))
    dt = model_dt(M) * (M["dt"] or 1.0)
    T = sim.until(M["steps"], dt)
    p.run(T) if M["dt"] is None else p.run(T, dt)
    return p


def has_shorts(M):
    """Ideal shorts are 1e10 S: rounding is much worse."""
    B = M["bundles"]
    ends = [x for t in M["terms"] for g in t["groups"] for x in g] + [x for j in M["juncs"] for p in j["pairs"] for x in p]
    return any(conn_at(B, x)["t"] == "Conn_short" for x in ends)


def classes(M):
    B = M["bundles"]
    cls = {"bundles%d" % len(B), "levels%d" % max(len(b["levels"]) for b in B)}
    for key in ("juncs", "fields", "lumped", "cends", "sources"):
        if M[key]:
            cls.add(key)
    for b in B:
        for lv in b["levels"]:
            for s in lv:
                for side in ("S", "L"):
                    e = s["end"][side]
                    cls |= {q["t"] for q in (e["multi"] if "multi" in e else [e])}
                    cls.add("multi" if "multi" in e else "plain")
    cls |= {f["type"] for f in M["fields"] if "type" in f}
    cls |= {"mag_" + s["w"]["mag"] for s in M["sources"] + M["fields"]}
    cls |= {"coincident"} if len({tuple(b["nodes"][0]) for b in B} | {tuple(b["nodes"][-1]) for b in B}) < 2 * len(B) else set()
    return sorted(cls)
