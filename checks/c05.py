"""C05: rigid motions, reversal, conductor renumbering, scaling and reciprocity."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from harness import gen, sim, system as sy

from harness.core import Info, Invalid, Sub, close, need

import src.mtl as mtl

ASSUMPTIONS = [
    "reciprocity is judged between resistive branches to ground: v_b/R_b due to a source in a equals v_a/R_a due to it in b",
    "ideal shorts are realised by a 1e10 S conductance: systems with shorts are compared to 2e-3",
]


# ---- descriptions -----------------------------------------------------------------------------------------------

@st.composite
def motion(draw):
    """An orthogonal matrix (proper or not) and a translation."""
    t = [draw(st.sampled_from([0.0, 0.0, 1.0, -2.5, 7.3])) for _ in range(3)]
    k = draw(st.sampled_from(["axes", "axes", "free"]))
    if k == "axes":
        p = draw(st.permutations([0, 1, 2]))
        M = [[0.0] * 3 for _ in range(3)]
        for i, j in enumerate(p):
            M[i][j] = draw(st.sampled_from([1.0, -1.0]))
        return {"M": M, "t": t}
    a, b = draw(st.integers(1, 359)), draw(st.integers(0, 359))
    ca, sa, cb, sb = (f(math.radians(x)) for x in (a, b) for f in (math.cos, math.sin))
    A = np.array([[ca, -sa, 0], [sa, ca, 0], [0, 0, 1]]) @ np.array([[1, 0, 0], [0, cb, -sb], [0, sb, cb]])
    return {"M": A.tolist(), "t": t}


def moved(nodes, m):
    return (np.array(nodes) @ np.array(m["M"]).T + np.array(m["t"])).tolist()


def perm_matrix(M, p):
    """Entry (i,j) of the old matrix is entry (p[i], p[j]) of the new one."""
    if M is None or np.ndim(M) == 0:
        return M
    n = len(M)
    out = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            out[p[i]][p[j]] = M[i][j]
    return out


def perm_list(z, p):
    if not isinstance(z, list):
        return z
    out = list(z)
    for i, x in enumerate(z):
        out[p[i]] = x
    return out


# ---- single lines -----------------------------------------------------------------------------------------------

@st.composite
def line_case(draw):
    s = draw(gen.line(max_n=4, max_cells=8))
    steps = draw(gen.count(4, 30))
    N, n = sum(s["ndiv"]), s["n"]
    disp = [{"cell": draw(st.integers(0, N - 1)), "c": draw(st.integers(0, n - 1)), "m": draw(sy.model())}
            for _ in range(draw(st.integers(0, 1)))]
    return {"line": s, "steps": steps, "drives": draw(gen.drives(n, steps)), "disp": disp,
            "move": draw(motion()), "rev": draw(st.booleans()), "perm": draw(st.permutations(list(range(n)))),
            "scale": draw(st.sampled_from([1.0, 2.0, -1.0, 1e-3, 1e4]))}


def go_line(s, drives, disp, steps, scale=1.0):
    u, _ = sim.grid(s)
    line = sim.build_mtl(s)
    dt = sim.cfl(s)
    for e in disp:
        line.add_dispersive_connector(u[e["cell"]] + 0.1 * (u[e["cell"] + 1] - u[e["cell"]]), e["c"], copy.deepcopy(e["m"]))
    for d in drives:
        f = sim.wavefn(d["w"], dt)
        line.add_voltage_source(sim.end_pos(u, d["e"]), d["c"], (lambda f: lambda t: scale * f(t))(f))
    rec = sim.Recorder(line, u)
    line.run_until(sim.until(steps, dt))
    return rec.history()


def run_line(c):
    s, T = c["line"], c["steps"]
    n, N = s["n"], sum(s["ndiv"])
    V, I = go_line(s, c["drives"], c["disp"], T)
    s2 = dict(s, nodes=moved(s["nodes"], c["move"]))
    dr, dp = copy.deepcopy(c["drives"]), copy.deepcopy(c["disp"])
    p = c["perm"]
    for k in ("L", "C", "R", "G"):
        s2[k] = perm_matrix(s2[k], p)
    s2["Zs"], s2["Zl"] = perm_list(s2["Zs"], p), perm_list(s2["Zl"], p)
    for d in dr + dp:
        d["c"] = p[d["c"]]
    if c["rev"]:
        s2["nodes"], s2["ndiv"] = s2["nodes"][::-1], s2["ndiv"][::-1]
        s2["Zs"], s2["Zl"] = s2["Zl"], s2["Zs"]
        for d in dr:
            d["e"] = {"S": "L", "L": "S"}[d["e"]]
        for d in dp:
            d["cell"] = N - 1 - d["cell"]
    V2, I2 = go_line(s2, dr, dp, T, c["scale"])
    need(V2.shape == V.shape, "history has %d rows, the original %d" % (len(V2), len(V)))
    V2, I2 = V2[:, p], I2[:, p]
    if c["rev"]:
        V2, I2 = V2[:, :, ::-1], -I2[:, :, ::-1]
    close(V2, c["scale"] * V, "voltage of the re-described line at (step, conductor, node)", 1e-8)
    close(I2, c["scale"] * I, "current of the re-described line at (step, conductor, cell)", 1e-8)
    cls = ["n%d" % n] + ["reversed"] * c["rev"] + ["permuted"] * (p != sorted(p)) + ["scaled"] * (c["scale"] != 1)
    cls += ["disp"] * bool(c["disp"]) + ["bent"] * (len(s["ndiv"]) > 1)
    return Info(np.max(np.abs(I)) > 0, cls)


# ---- places on a line -------------------------------------------------------------------------------------------

@st.composite
def place_case(draw):
    geo = gen.geometry(max_cells=12, max_seg=4, fold=-0.9)
    s = draw(gen.line(max_n=2, geo=geo, grow=False))
    N, n = sum(s["ndiv"]), s["n"]
    steps = draw(gen.count(4, 25))

    def place():
        return [draw(st.integers(0, N - 1)), draw(st.integers(1, 99))]
    kinds = draw(st.lists(st.sampled_from(["element", "resistance", "conductance", "source"]), max_size=3))
    return {"line": s, "steps": steps, "drives": draw(gen.drives(n, steps)), "move": draw(motion()),
            "probes": [{"p": place(), "t": draw(st.sampled_from(["voltage", "current"]))} for _ in range(draw(st.integers(1, 8)))],
            "put": [{"k": k, "p": place(), "q": place(), "c": draw(st.integers(0, n - 1)), "x": draw(gen.pos(1.0, 100.0))} for k in kinds]}


def run_places(c):
    """Things put at points of a line that is then moved as a whole: at the same points of the moved line."""
    s = c["line"]
    M, t = np.array(c["move"]["M"]), np.array(c["move"]["t"])
    u, du = sim.grid(s)
    dt = sim.cfl(s)

    def at(p):
        x = u[p[0]] + p[1] / 100.0 * (u[p[0] + 1] - u[p[0]])
        d = np.sort(np.linalg.norm(u - x, axis=1))
        if d[1] - d[0] < 1e-7 * np.max(du):
            raise Invalid("a point as near to two nodes")
        return x

    def go(move):
        line = sim.build_mtl(dict(s, nodes=moved(s["nodes"], c["move"])) if move else s)
        f = (lambda x: M @ x + t) if move else (lambda x: x)
        used = set()
        for a in c["put"]:
            x, y = f(at(a["p"])), f(at(a["q"]))
            if a["k"] == "element":
                key = (int(np.argmin(np.linalg.norm(u - at(a["p"]), axis=1))), a["c"])
                key = (min(key[0], len(du) - 1), key[1])
                if key in used:
                    continue
                used.add(key)
                line.add_dispersive_connector(x, a["c"], {"cte": a["x"], "prop": 0.0, "poles": {"real": [], "imag": []},
                                                          "residues": {"real": [], "imag": []}})
            elif a["k"] == "resistance":
                line.set_resistance_in_region(x, y, a["c"], a["x"])
            elif a["k"] == "conductance":
                line.add_conductance_in_region(x, y, a["c"], a["x"] * 1e-3)
            else:
                line.add_voltage_source(x, a["c"], lambda tm: 1.0)
        for d in c["drives"]:
            line.add_voltage_source(f(sim.end_pos(u, d["e"])), d["c"], sim.wavefn(d["w"], dt))
        ps = [line.add_probe(f(at(p["p"])), p["t"]) for p in c["probes"]]
        line.run_until(sim.until(c["steps"], dt))
        return [p.val for p in ps]
    A, B = go(False), go(True)
    sc = {}
    for p, a in zip(c["probes"], A):
        sc[p["t"]] = max(sc.get(p["t"], 0.0), float(np.max(np.abs(a))))
    for p, a, b in zip(c["probes"], A, B):
        need(a.shape == b.shape, "a probe of the moved line has another number of rows")
        close(b, a, "%s at a point of the moved line at (step, conductor)" % p["t"], 1e-8, scale=max(sc[p["t"]], 1e-12))
    return Info(max(sc.values()) > 0 and len(s["ndiv"]) > 1, ["bent%d" % len(s["ndiv"])] + sorted({a["k"] for a in c["put"]}))


# ---- shorter ways of giving the same line ------------------------------------------------------------------------

@st.composite
def short_case(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    s = draw(gen.line(max_n=1, max_cells=12, grow=False, geo=st.just({"nodes": [], "ndiv": []})))
    s = dict(s, n=n, L=draw(gen.lmat(n)), C=draw(gen.cmat(n)), Zs=draw(st.sampled_from([0.0, 50.0, 1e4])), Zl=draw(st.sampled_from([0.0, 75.0])))
    s["R"] = draw(gen.pos(0.1, 50.0)) if n == 1 and draw(st.booleans()) else 0.0
    s["G"] = draw(gen.pos(1e-4, 0.01)) if n == 1 and draw(st.booleans()) else 0.0
    N = draw(gen.count(2, 12))
    length = draw(st.sampled_from([1.0, 0.3, 2.5, 40.0]))
    steps = draw(gen.count(4, 20))

    def z():
        return [draw(st.integers(0, N - 1)), draw(st.integers(1, 99))]
    return {"line": s, "N": N, "length": length, "steps": steps, "drives": draw(gen.drives(n, steps)),
            "default": [k for k in ("length", "ndiv", "R", "G", "Z") if draw(st.integers(0, 5 if k == "ndiv" else 2)) == 0],
            "ndiv": draw(st.sampled_from(["int", "list", "tuple", "array", "int64"])),
            "Z": draw(st.sampled_from(["number", "list", "row", "column", "int"])), "one": draw(st.booleans()),
            "l": draw(st.sampled_from(["float", "matrix", "int64"])),
            "put": [{"k": draw(st.sampled_from(["resistance", "conductance", "source"])), "p": z(), "q": z(),
                     "c": draw(st.integers(0, n - 1)), "x": draw(gen.pos(1.0, 100.0))} for _ in range(draw(st.integers(0, 3)))],
            "probes": [{"p": z(), "t": draw(st.sampled_from(["voltage", "current"]))} for _ in range(draw(st.integers(1, 4)))]}


def run_short(c):
    """Line along z from the origin: length, number of cells and numbers for positions against the long form."""
    s, n = c["line"], c["line"]["n"]
    N = 100 if "ndiv" in c["default"] else c["N"]
    length = 1.0 if "length" in c["default"] else c["length"]
    s = dict(s, nodes=[[0.0, 0.0, 0.0], [0.0, 0.0, length]], ndiv=[N])
    for k in ("R", "G"):
        if k in c["default"]:
            s[k] = 0.0
    if "Z" in c["default"]:
        s["Zs"] = s["Zl"] = 0.0
    full = dict(s, R=np.diag([s["R"]] * n).tolist(), G=np.diag([s["G"]] * n).tolist(),
                Zs=[s["Zs"]] * n, Zl=[s["Zl"]] * n)
    u, du = sim.grid(s)
    dt = sim.cfl(s)
    L, C = sim.arr(s["L"]), sim.arr(s["C"])
    kw = {"l": L, "c": C}
    if n == 1 and c["l"] != "matrix":
        kw = {"l": np.float64(L[0, 0]) if c["l"] == "int64" else float(L[0, 0]), "c": float(C[0, 0])}
    if "length" not in c["default"]:
        kw["length"] = length
    if "ndiv" not in c["default"]:
        kw["ndiv"] = {"int": N, "list": [N], "tuple": (N,), "array": np.array([N]), "int64": [np.int64(N)]}[c["ndiv"]]
    for k, name in (("R", "r"), ("G", "g")):
        if k not in c["default"] and s[k]:
            kw[name] = s[k]
    if "Z" not in c["default"]:
        for k in ("Zs", "Zl"):
            a = np.array([s[k]] * n)
            kw[k] = {"number": s[k], "list": a, "row": a.reshape(1, n), "column": a.reshape(n, 1), "int": int(s[k])}[c["Z"]]

    def z(p):
        x = length / N * (p[0] + p[1] / 100.0)
        if abs(p[1] - 50) < 1:
            raise Invalid("a point as near to two nodes")
        return x

    def go(line, f):
        for a in c["put"]:
            x, y = f(z(a["p"])), f(z(a["q"]))
            if a["k"] == "resistance":
                line.set_resistance_in_region(x, y, a["c"], a["x"])
            elif a["k"] == "conductance":
                line.add_conductance_in_region(x, y, a["c"], a["x"] * 1e-3)
            elif a["k"] == "source":
                line.add_voltage_source(x, a["c"], lambda t: 1.0)
        for d in c["drives"]:
            line.add_voltage_source(f(0.0 if d["e"] == "S" else length), d["c"], sim.wavefn(d["w"], dt))
        ps = [line.add_probe(f(z(p["p"])), p["t"]) for p in c["probes"]]
        rec = sim.Recorder(line, u[::max(1, N // 12)])
        line.run_until(sim.until(c["steps"], dt))
        return [p.val for p in ps] + list(rec.history())
    A = go(sim.build_mtl(full), lambda x: np.array([0.0, 0.0, x]))
    B = go(mtl.MTL(**kw), lambda x: x)
    sc = [np.max(np.abs(A[-2])), np.max(np.abs(A[-1]))]
    for k, (a, b) in enumerate(zip(A, B)):
        q = "voltage" if k == len(A) - 2 or k < len(c["probes"]) and c["probes"][k]["t"] == "voltage" else "current"
        need(a.shape == b.shape, "the shorter form of the line records %s, the longer one %s" % (b.shape, a.shape))
        close(b, a, "%s of the shorter form of a line at (step, conductor[, place])" % q, 1e-9, scale=max(sc[q == "current"], 1e-12))
    return Info(sc[1] > 0, ["default_" + k for k in c["default"]] + [c["Z"], "ndiv_" + c["ndiv"]] + sorted({a["k"] for a in c["put"]}))


# ---- systems of bundles -----------------------------------------------------------------------------------------

@st.composite
def net_case(draw):
    S = draw(sy.system(max_bundles=2, max_levels=2, steps_max=18, max_cells=5))
    ef = []
    for _ in range(draw(st.integers(0, 2))):
        bi = draw(st.integers(0, len(S["bundles"]) - 1))
        N = sum(S["bundles"][bi]["ndiv"])
        i = draw(st.integers(0, N - 1))
        ef.append({"b": bi, "i": i, "j": draw(st.integers(i + 1, N)),
                   "c": draw(st.integers(0, sum(sy.n_of_levels(S["bundles"][bi])) - 1)), "w": draw(gen.wave(S["steps"]))})
    chg = []
    for b in S["bundles"]:
        chg.append({"move": draw(motion()), "rev": draw(st.booleans()),
                    "perm": [[draw(st.permutations(list(range(s["n"])))) for s in lv] for lv in b["levels"]]})
    return {"S": S, "efield": ef, "chg": chg}


def level_perm(b, perms, lv):
    out, o = [], 0
    for s, p in zip(b["levels"][lv], perms[lv]):
        out += [o + x for x in p]
        o += s["n"]
    return out


def redescribe(c):
    S, ef = copy.deepcopy(c["S"]), copy.deepcopy(c["efield"])
    full = []
    for bi, (b, g) in enumerate(zip(S["bundles"], c["chg"])):
        b["nodes"] = moved(b["nodes"], g["move"])
        lp = [level_perm(b, g["perm"], lv) for lv in range(len(b["levels"]))]
        flat, o = [], 0
        for q in lp:
            flat += [o + x for x in q]
            o += len(q)
        full.append(flat)
        for lv, lines in enumerate(b["levels"]):
            for s, p in zip(lines, g["perm"][lv]):
                for k in ("L", "C", "R", "G"):
                    s[k] = perm_matrix(s[k], p)
        N = sum(b["ndiv"])
        for z in b["zt"]:
            z["oc"] = [lp[z["ol"]][k] for k in z["oc"]]
            z["ic"] = [lp[z["il"]][k] for k in z["ic"]]
        for d in b["disp"]:
            d["c"] = g["perm"][d["level"]][d["line"]][d["c"]]
            if g["rev"]:
                d["cell"] = N - 1 - d["cell"]
        if g["rev"]:
            b["nodes"], b["ndiv"] = b["nodes"][::-1], b["ndiv"][::-1]
        for e in ef:
            if e["b"] == bi:
                e["c"] = flat[e["c"]]
                if g["rev"]:
                    e["i"], e["j"] = N - e["j"], N - e["i"]
                    e["w"]["A"] = -e["w"]["A"]
    for net in S["nets"]:
        for e in net["ends"]:
            g = c["chg"][e["b"]]
            e["ids"] = perm_list(e["ids"], g["perm"][net["level"]][e["k"]])
            if g["rev"]:
                e["side"] = {"S": "L", "L": "S"}[e["side"]]
    return S, ef, full


def go_net(S, ef, wrap=None):
    r = sy.build_system(S, wrap=wrap)
    for e in ef:
        u, _ = sim.grid(S["bundles"][e["b"]])
        r.mds[e["b"]].add_localized_longitudinal_field(u[e["i"]].copy(), u[e["j"]].copy(), e["c"],
                                                       sim.wavefn(e["w"], r.dt), "efield")
    r.m.run_until(sim.until(S["steps"], r.dt))
    return [rec.history() for rec in r.rec]


def run_net(c):
    S2, ef2, full = redescribe(c)
    A, B = go_net(c["S"], c["efield"]), go_net(S2, ef2)
    tol = 2e-3 if any(b["t"] == "short" for n in S2["nets"] for b in n["br"]) else 1e-8
    vm, im = max(np.max(np.abs(h[0])) for h in A), max(np.max(np.abs(h[1])) for h in A)
    for bi, (a, b) in enumerate(zip(A, B)):
        need(a[0].shape == b[0].shape, "history has %d rows, the original %d" % (len(b[0]), len(a[0])))
        V, I = b[0][:, full[bi]], b[1][:, full[bi]]
        if c["chg"][bi]["rev"]:
            V, I = V[:, :, ::-1], -I[:, :, ::-1]
        close(V, a[0], "voltage of re-described bundle %d at (step, conductor, node)" % bi, tol, scale=vm)
        close(I, a[1], "current of re-described bundle %d at (step, conductor, cell)" % bi, tol, scale=im)
    cls = ["bundles%d" % len(A)]
    cls += ["reversed"] * any(g["rev"] for g in c["chg"])
    cls += ["permuted"] * any(p != sorted(p) for g in c["chg"] for lv in g["perm"] for p in lv)
    cls += ["zt"] * any(b["zt"] for b in S2["bundles"]) + ["efield"] * bool(ef2)
    return Info(vm > 0, cls)


# ---- reciprocity ------------------------------------------------------------------------------------------------

@st.composite
def recip_case(draw):
    S = draw(sy.system(max_bundles=2, max_levels=2, steps_max=25, max_cells=5, sources=False, shorts=False,
                       kinds=["R", "R", "R", "C", "LC", "RLC"]))
    for b in S["bundles"]:
        for z in b["zt"]:
            z["m"]["direction"] = "both"
    r = [(i, k) for i, n in enumerate(S["nets"]) for k, b in enumerate(n["br"]) if b["t"] == "R" and b["b"] is None]
    x = draw(st.permutations(r))[:2] if len(r) > 1 else []
    return {"S": S, "ports": [list(p) for p in x], "w": draw(gen.wave(S["steps"]))}


def node_voltage(S, H, node):
    for net in S["nets"]:
        for e in net["ends"]:
            if node in e["ids"]:
                b = S["bundles"][e["b"]]
                c = sy.offset(b, net["level"], e["k"]) + e["ids"].index(node)
                return H[e["b"]][0][:, c, 0 if e["side"] == "S" else -1]


def run_recip(c):
    if not c["ports"]:
        raise Invalid("fewer than two resistive ports")
    S = c["S"]
    out = []
    for k in (0, 1):
        S2 = copy.deepcopy(S)
        src, obs = [S2["nets"][i]["br"][j] for i, j in (c["ports"][k], c["ports"][1 - k])]
        src["w"] = c["w"]
        H = go_net(S2, [])
        out.append((node_voltage(S2, H, obs["a"]) / obs["R"], max(np.max(np.abs(h[0])) for h in H) / obs["R"]))
    close(out[0][0], out[1][0], "transfer response between two ports, one way and the other, at step", 1e-8,
          scale=max(out[0][1], out[1][1]))
    return Info(np.max(np.abs(out[0][0])) > 1e-9 * out[0][1],
                ["same_network" if c["ports"][0][0] == c["ports"][1][0] else "across"])


@st.composite
def recip_line(draw):
    s = draw(gen.line(max_n=3, max_cells=8, zero_z=False))
    n = s["n"]
    s["Zs"] = [draw(gen.pos(1.0, 500.0)) for _ in range(n)]
    s["Zl"] = [draw(gen.pos(1.0, 500.0)) for _ in range(n)]
    p = draw(st.permutations([[k, e] for k in range(n) for e in ("S", "L")]))[:2]
    steps = draw(gen.count(6, 40))
    return {"line": s, "steps": steps, "ports": [list(x) for x in p], "w": draw(gen.wave(steps))}


def run_recip_line(c):
    s = c["line"]
    out = []
    for k in (0, 1):
        (cs, es), (co, eo) = c["ports"][k], c["ports"][1 - k]
        V, I = go_line(s, [{"c": cs, "e": es, "w": c["w"]}], [], c["steps"])
        z = s["Zs" if eo == "S" else "Zl"][co]
        out.append((V[:, co, 0 if eo == "S" else -1] / z, np.max(np.abs(V)) / z))
    close(out[0][0], out[1][0], "transfer response between two terminals, one way and the other, at step", 1e-8,
          scale=max(out[0][1], out[1][1]))
    return Info(np.max(np.abs(out[0][0])) > 1e-9 * out[0][1], ["n%d" % s["n"]])


SUBS = [
    Sub("line", line_case, run_line, 1200, 16000, "some current flowed"),
    Sub("places", place_case, run_places, 1000, 16000, "a signal was present in a line of several segments"),
    Sub("shorthand", short_case, run_short, 480, 8000, "some current flowed"),
    Sub("network", net_case, run_net, 640, 8000, "something was recorded"),
    Sub("reciprocity", recip_case, run_recip, 480, 8000, "the transfer response was not negligible"),
    Sub("reciprocity_line", recip_line, run_recip_line, 480, 8000, "the transfer response was not negligible"),
]
