"""Systems of bundles and networks: strategies, builder, and node-law oracle."""
import math

import numpy as np
from hypothesis import strategies as st

from . import gen, kirchhoff as kh, sim
from .core import Invalid

import src.mtl as mtl
import src.mtln as mtln
import src.networks as networks


# ------------------------------------------------------------------ strategies

@st.composite
def pul(draw, n, lossy=True, uncoupled=False):
    s = {"n": n, "L": draw(gen.lmat(n)), "C": draw(gen.cmat(n)), "R": None, "G": None}
    if lossy and draw(st.booleans()):
        s["R"] = draw(gen.pos(0.0, 100.0)) if n == 1 else draw(gen.spd(n, 0.1, 50.0, +1))
    if lossy and draw(st.booleans()):
        s["G"] = draw(gen.pos(0.0, 0.03)) if n == 1 else draw(gen.spd(n, 1e-4, 0.02, -1))
    return s


@st.composite
def model(draw, max_poles=3, passive=True, scale=1.0):
    """cte + s prop + sum r/(s-p) with stable poles; passive: every term is a passive impedance."""
    k = draw(gen.count(0, max_poles, 2))
    pr, pi, rr, ri = [], [], [], []
    for _ in range(k):
        a = draw(gen.pos(1e7, 5e9))
        if draw(st.integers(0, 3)) == 0:
            # slow pole, down to a plain series capacitor: the charge barely leaks during a run
            pr.append(-draw(st.sampled_from([0.0, 1.0, 1e2, 1e4, 1e5, 1e6]))), pi.append(0.0)
            rr.append(gen.rnd(draw(gen.pos(1e7, 5e10)) * scale)), ri.append(0.0)
        elif draw(st.booleans()):
            # R/(1+sRC)-like real pole
            pr.append(-a), pi.append(0.0)
            rr.append(gen.rnd(a * draw(gen.pos(0.1, 100.0)) * scale)), ri.append(0.0)
        else:
            w = gen.rnd(a * draw(gen.pos(0.1, 3.0)))
            r = gen.rnd(a * draw(gen.pos(0.1, 50.0)) * scale)
            pr += [-a, -a]
            pi += [w, -w]
            rr += [r, r]
            ri += [0.0, 0.0]
            # Re r(s-p)^-1 + conj = 2 r (a + ...)/... >= 0 for real r > 0: passive
    cte = draw(st.one_of(st.just(0.0), gen.pos(0.1, 100.0))) * scale
    prop = draw(st.one_of(st.just(0.0), gen.pos(1e-10, 1e-7))) * scale
    return {"cte": gen.rnd(cte), "prop": gen.rnd(prop), "poles": {"real": pr, "imag": pi},
            "residues": {"real": rr, "imag": ri}}


@st.composite
def zt_model(draw, max_poles=3):
    m = draw(model(max_poles=max_poles, scale=0.05))
    m["direction"] = draw(st.sampled_from(["in", "in", "out", "both"]))
    if draw(st.booleans()):
        m["factor"] = draw(st.sampled_from([1, 2, 4]))
    return m


@st.composite
def bundle(draw, name, max_levels=3, max_n=2, max_cells=7, lossy=True, zt=True, geo=None, max_poles=2,
           disp=False, du=None, grow=False):
    nlev = draw(gen.count(1, max_levels, 1.5) if grow else st.integers(1, max_levels))
    levels = []
    for lv in range(nlev):
        cnt = 1 if lv == 0 else draw(gen.count(1, 2, 2) if grow else st.integers(1, 2))
        lines = []
        for k in range(cnt):
            s = draw(pul(draw(gen.count(1, max_n, 2) if grow else st.integers(1, max_n)), lossy))
            s["name"] = "%s_%d_%d" % (name, lv, k)
            lines.append(s)
        levels.append(lines)
    b = {"name": name, "levels": levels, "zt": [], "czt": [], "disp": []}
    b.update(draw(gen.geometry(max_cells=max_cells, max_seg=2, grow=grow)) if geo is None else geo)
    if zt and nlev > 1:
        for lv in range(1, nlev):
            n_out, n_in = sum(s["n"] for s in levels[lv - 1]), sum(s["n"] for s in levels[lv])
            for _ in range(draw(st.integers(0, 2))):
                oc = draw(st.integers(0, n_out - 1))
                ic = sorted(draw(st.sets(st.integers(0, n_in - 1), min_size=1, max_size=n_in)))
                b["zt"].append({"ol": lv - 1, "oc": [oc], "il": lv, "ic": ic, "m": draw(zt_model(max_poles))})
    if disp:
        N = sum(b["ndiv"])
        used = set()
        for _ in range(draw(st.integers(0, 2))):
            lv = draw(st.integers(0, nlev - 1))
            k = draw(st.integers(0, len(levels[lv]) - 1))
            c, cell = draw(st.integers(0, levels[lv][k]["n"] - 1)), draw(st.integers(0, N - 1))
            if (lv, k, c, cell) not in used:
                used.add((lv, k, c, cell))
                b["disp"].append({"level": lv, "line": k, "c": c, "cell": cell, "m": draw(model(max_poles))})
    return b


KINDS = ["R", "R", "R", "C", "LC", "RLC", "open", "short"]


@st.composite
def ground(draw, node, steps, sources=True, kinds=KINDS):
    t = draw(st.sampled_from(kinds))
    if t == "open":
        return None
    b = {"t": t, "a": node, "b": None}
    if t == "R":
        b["R"] = draw(gen.pos(0.5, 500.0))
    elif t == "C":
        b["C"] = draw(gen.pos(1e-13, 1e-10))
    elif t == "LC":
        b["R"], b["L"], b["C"] = draw(gen.pos(1.0, 300.0)), draw(gen.pos(1e-10, 1e-6)), draw(gen.pos(1e-13, 1e-9))
    elif t == "RLC":
        b["R"] = draw(gen.pos(1.0, 300.0))
        b["L"] = draw(st.one_of(st.just(0.0), gen.pos(1e-10, 1e-6)))
        b["C"] = draw(st.one_of(st.just(1e22), gen.pos(1e-13, 1e-9)))
        if b["L"] and draw(st.integers(0, 3)) == 0:
            b["R"] = 0.0
    if t != "short" and sources and draw(st.integers(0, 2)) == 0:
        b["w"] = draw(gen.wave(steps))
    return b


@st.composite
def nets(draw, bundles, steps, sources=True, kinds=KINDS, max_join=3, join=True, multi=True, shorts=True, link_w=True,
         loops=True):
    """Networks that together contain every line end exactly once."""
    out = []
    nid = 0
    maxlev = max(len(b["levels"]) for b in bundles)
    for lv in range(maxlev):
        ends = [(bi, k, side) for bi, b in enumerate(bundles) if lv < len(b["levels"])
                for k in range(len(b["levels"][lv])) for side in ("S", "L")]
        ends = draw(st.permutations(ends))
        i = 0
        while i < len(ends):
            m = draw(st.integers(1, max_join)) if join else 1
            grp = []
            for e in ends[i:i + m]:
                # both ends of a line in a network: now and then
                if any((bi, k) == (e[0], e[1]) for bi, k, _ in grp) and not (loops and draw(st.booleans())):
                    break
                grp.append(e)
            i += len(grp)
            net = {"level": lv, "ends": [], "br": []}
            if lv and out and draw(st.booleans()):
                net["with"] = draw(st.integers(0, len(out) - 1))    # same manager entry as an earlier network
            ids = []
            for bi, k, side in grp:
                n = bundles[bi]["levels"][lv][k]["n"]
                mine = list(range(nid, nid + n))
                nid += n
                net["ends"].append({"b": bi, "k": k, "side": side, "ids": mine})
                ids += mine
            used = set()
            lc = set()
            for a in ids:
                cnt = draw(st.sampled_from([1, 1, 1, 2])) if multi else 1
                for _ in range(cnt):
                    g = draw(ground(a, steps, sources, kinds))
                    if g is None or (g["t"] == "LC" and a in lc) or (g["t"] == "short" and not shorts):
                        continue
                    if g["t"] == "LC":      # at most one per node: its state belongs to the node
                        lc.add(a)
                    net["br"].append(g)
            if len(ids) > 1 and join:
                for _ in range(draw(st.integers(0, 3))):
                    a, b = draw(st.permutations(ids))[:2]
                    if (min(a, b), max(a, b)) in used:
                        continue
                    used.add((min(a, b), max(a, b)))
                    if shorts and draw(st.integers(0, 3)) == 0:
                        net["br"].append({"t": "short", "a": a, "b": b})
                    elif "RLC" in kinds and draw(st.integers(0, 3)) == 0:
                        net["br"].append(dict(draw(ground(a, steps, sources and link_w, ["RLC"])), b=b))
                    else:
                        br = {"t": "R", "a": a, "b": b, "R": draw(gen.pos(0.5, 500.0))}
                        if sources and link_w and draw(st.integers(0, 2)) == 0:
                            br["w"] = draw(gen.wave(steps))
                        net["br"].append(br)
            out.append(net)
    return out


@st.composite
def system(draw, max_bundles=2, steps_max=25, sources=True, kinds=KINDS, max_levels=2, disp=True, lossy=True,
           zt=True, max_cells=6, max_n=2, multi=True, shorts=True, join=True, link_w=True, max_poles=2, grow=True):
    steps = draw(gen.count(3, steps_max, 3) if grow else st.integers(3, steps_max))
    nb = draw(gen.count(1, max_bundles, 2) if grow else st.integers(1, max_bundles))
    bs = [draw(bundle("b%d" % i, max_levels=max_levels, max_n=max_n, max_cells=max_cells, lossy=lossy, zt=zt,
                      disp=disp, max_poles=max_poles, grow=grow)) for i in range(nb)]
    return {"steps": steps, "bundles": bs,
            "nets": draw(nets(bs, steps, sources, kinds, join=join, multi=multi, shorts=shorts, link_w=link_w))}


# ------------------------------------------------------------------ builder

def line_spec(b, s):
    return dict(s, nodes=b["nodes"], ndiv=b["ndiv"], Zs=0.0, Zl=0.0)


def n_of_levels(b):
    return [sum(s["n"] for s in lv) for lv in b["levels"]]


def offset(b, lv, k):
    """Index of the first conductor of line k of level lv in the bundle."""
    return sum(n_of_levels(b)[:lv]) + sum(s["n"] for s in b["levels"][lv][:k])


def bundle_dt(b):
    return min(sim.cfl(line_spec(b, s)) for lv in b["levels"] for s in lv)


def system_dt(S):
    return min(bundle_dt(b) for b in S["bundles"])


def build_lines(b):
    lines = {lv: [sim.build_mtl(line_spec(b, s)) for s in lines] for lv, lines in enumerate(b["levels"])}
    u, _ = sim.grid(b)
    for d in b.get("disp", []):
        # just inside the lower half of the cell: nearest node is the cell's first node
        pos = u[d["cell"]] + 0.1 * (u[d["cell"] + 1] - u[d["cell"]])
        lines[d["level"]][d["line"]].add_dispersive_connector(pos, d["c"], copy_model(d["m"]))
    return lines


def copy_model(m):
    import copy
    return copy.deepcopy(m)


def build_bundle(b, edit=None):
    lines = build_lines(b)
    if edit is not None:
        edit(lines)
    md = mtl.MTLD(lines, name=b["name"])
    for z in b.get("zt", []):
        md.add_transfer_impedance(out_level=z["ol"], out_level_conductors=list(z["oc"]),
                                  in_level=z["il"], in_level_conductors=list(z["ic"]),
                                  transfer_impedance=copy_model(z["m"]))
    for z in b.get("czt", []):
        md.set_connector_transfer_impedance(side=z["side"], out_level=z["ol"], out_level_conductors=list(z["oc"]),
                                            in_level=z["il"], in_level_conductors=list(z["ic"]),
                                            transfer_impedance=copy_model(z["m"]))
    return md, lines


def build_net(net, mds, lines, dt, wrap=None):
    """wrap: optional callable (branch, fn) -> the function to use as that branch's source, or None."""
    conns = {}
    for b in net["br"]:
        if b["t"] == "LC":
            conns[b["a"]] = {"connectorType": "Conn_LCpRs"}
        elif b["t"] == "RLC" and b["b"] is None:
            conns.setdefault(b["a"], {"connectorType": "Conn_sRLC", "resistance": b["R"], "inductance": b["L"],
                                      "capacitance": b["C"]})
    desc = {}
    for e in net["ends"]:
        line = lines[e["b"]][net["level"]][e["k"]]
        ends = [(x["b"], x["k"]) for x in net["ends"]]
        key, more = (line, {}) if len(set(ends)) == len(ends) else ((e["b"], e["k"], e["side"]), {"line": line})
        desc[key] = {**more, "side": e["side"], "bundle": mds[e["b"]],
                     "connections": [[i, c, dict(conns.get(i) or {"connectorType": "Conn_R"})]
                                     for c, i in e.get("order") or list(enumerate(e["ids"]))]}
    nw = networks.Network(desc)
    for b in net["br"]:
        kw = {}
        if b.get("w") is not None:
            f = sim.wavefn(b["w"], dt)
            f = f if wrap is None else wrap(b, f)
            if f is not None:
                kw["Vt"] = f
        if b["t"] == "short":
            nw.short_to_ground(b["a"]) if b["b"] is None else nw.short_nodes(b["a"], b["b"])
        elif b["t"] == "R" and b["b"] is None:
            (nw.connect_to_ground_R if b.get("alt") else nw.connect_to_ground)(b["a"], R=b["R"], **kw)
        elif b["t"] == "R":
            nw.connect_nodes(b["a"], b["b"], R=b["R"], **kw)
        elif b["t"] == "C":
            nw.connect_to_ground_C(b["a"], C=b["C"], **kw)
        elif b["t"] == "LC":
            nw.connect_to_ground_LCpRs(b["a"], R=b["R"], L=b["L"], C=b["C"], **kw)
        elif b["t"] == "RLC" and b["b"] is not None:
            nw.connect_nodes_sRLC(b["a"], b["b"], R=b["R"], L=b["L"], C=b["C"], **kw)
        elif b["t"] == "RLC":
            nw.connect_to_ground_sRLC(b["a"], R=b["R"], L=b["L"], C=b["C"], **kw)
    return networks.NetworkD({net["level"]: nw})


def build_nets(S, mds, lines, dt, wrap=None):
    """One NetworkD per network, or for several networks of different levels that ask to be held together."""
    out, at = [], []
    for net in S["nets"]:
        nd = build_net(net, mds, lines, dt, wrap)
        k = at[net["with"]] if net.get("with") is not None and net["with"] < len(at) else None
        if k is not None and net["level"] not in out[k].levels:
            out[k].levels.update(nd.levels)
            at.append(k)
        else:
            out.append(nd)
            at.append(len(out) - 1)
    return out


class Run:
    pass


def build_system(S, dt=None, wrap=None, record=True, order=None, edit=None):
    r = Run()
    r.req = dt
    r.dt = system_dt(S) if dt is None else dt
    r.mds, r.lines = [], []
    for bi, b in enumerate(S["bundles"]):
        md, ln = build_bundle(b, None if edit is None else lambda lines: edit(bi, lines))
        r.mds.append(md)
        r.lines.append(ln)
    r.nets = build_nets(S, r.mds, r.lines, r.dt, wrap)
    r.m = mtln.MTLN()
    for k in order or range(len(r.mds)):
        r.m.add_bundle(r.mds[k])
    for nw in r.nets:
        r.m.add_network(nw)
    r.rec = [sim.Recorder(md, sim.grid(b)[0]) for md, b in zip(r.mds, S["bundles"])] if record else []
    return r


def run_system(S, dt=None, wrap=None, steps=None):
    r = build_system(S, dt, wrap)
    T = sim.until(S["steps"] if steps is None else steps, r.dt)
    if dt is None:
        r.m.run_until(T)
    else:
        r.m.run_until(T, dt=dt)
    r.H = [rec.history() for rec in r.rec]
    return r


def peak(r):
    return max(max(np.max(np.abs(V)), np.max(np.abs(I))) for V, I in r.H)


# ------------------------------------------------------------------ node-law oracle

def node_laws(S, r, tol=1e-8, short_tol=5e-3, G_nodes=None, fields=None, low=0.0):
    """Kirchhoff's current law at every node of every network, from the recorded history.

    G_nodes: {bundle: G[node, n, n]} of bundles whose conductance was edited.
    fields: {bundle: e_T[T+1, n, node]} transverse voltages of an external field, which charge the lines besides V;
    low is the size below which they are not judged.
    """
    dt, T = r.dt, S["steps"]
    for ni, net in enumerate(S["nets"]):
        ids, V, W, I = [], [], [], []
        blocksC, blocksG = [], []
        for e in net["ends"]:
            b = S["bundles"][e["b"]]
            s = b["levels"][net["level"]][e["k"]]
            du = sim.grid(b)[1]
            o, n = offset(b, net["level"], e["k"]), s["n"]
            Vb, Ib = r.H[e["b"]]
            sl = slice(o, o + n)
            Wb = Vb if fields is None else Vb + fields[e["b"]]
            W.append(Wb[:, sl, 0 if e["side"] == "S" else -1])
            if e["side"] == "S":
                V.append(Vb[:, sl, 0])
                I.append(Ib[:, sl, 0])
                d = du[0]
            else:
                V.append(Vb[:, sl, -1])
                I.append(-Ib[:, sl, -1])
                d = du[-1]
            ids += list(e["ids"])
            blocksC.append(d * sim.arr(s["C"]))
            g = sim.mat(s["G"], n)
            if G_nodes is not None:
                g = G_nodes[e["b"]][0 if e["side"] == "S" else -1][sl, sl]
            blocksG.append(d * g)
        from scipy.linalg import block_diag
        C, G = block_diag(*blocksC), block_diag(*blocksG)
        V, W, I = (np.concatenate(x, axis=1) for x in (V, W, I))
        pos = {a: k for k, a in enumerate(ids)}
        N = len(ids)
        W1, W0, I0 = W[1:], W[:-1], I[:-1]
        parts = [W1 @ C.T / dt, -W0 @ C.T / dt, W1 @ G.T / 2, W0 @ G.T / 2, 2 * I0]
        tot = sum(parts)
        mag = sum(np.abs(p) for p in parts)
        cur = np.zeros((T, N))
        shorted_g, links = set(), []
        tm = np.arange(T) * dt
        for b in net["br"]:
            a = pos[b["a"]]
            c = None if b["b"] is None else pos[b["b"]]
            f = sim.wavefn(b["w"], dt) if b.get("w") else (lambda t: 0.0)
            now, prev = np.array([f(t) for t in tm]), np.array([f(t - dt) for t in tm])
            if b["t"] == "short":
                if c is None:
                    shorted_g.add(a)
                else:
                    links.append((a, c))
                continue
            if b["t"] == "R":
                va = V[:, a] - (0 if c is None else V[:, c])
                j = (va[1:] + va[:-1] - now - prev) / b["R"]
                mj = (np.abs(va[1:]) + np.abs(va[:-1]) + np.abs(now) + np.abs(prev)) / b["R"]
            elif b["t"] == "C":
                w = V[:, a]
                wp = np.concatenate([[0.0], w[:-1]])          # v one step earlier
                p2 = np.array([f(t - 2 * dt) for t in tm])
                j = b["C"] * ((w[1:] - wp[1:]) + (w[:-1] - wp[:-1]) - (now - p2)) / dt
                mj = b["C"] * (np.abs(w[1:]) + 2 * np.abs(w[:-1]) + np.abs(wp[:-1]) + np.abs(now) + np.abs(p2)) / dt
            elif b["t"] == "RLC":   # y = current, x = voltage of the capacitor; every part implicit
                R, L, Cc = b["R"], b["L"], b["C"]
                x = y = 0.0
                j, mj = np.zeros(T), np.zeros(T)
                va = V[:, a] - (0 if c is None else V[:, c])
                ma = np.abs(V[:, a]) + (0 if c is None else np.abs(V[:, c]))
                if L == 0 and Cc >= 1e22:
                    j = (va[1:] + va[:-1] - now - prev) / R
                    mj = (ma[1:] + ma[:-1] + np.abs(now) + np.abs(prev)) / R
                else:
                    cap = 0.0 if Cc >= 1e22 else dt / Cc
                    for m in range(T):
                        v1 = va[m + 1] - now[m]
                        if L:
                            # L (y1-y)/dt + R y1 + x1 = v1 ; x1 = x + cap y1
                            y1 = (L * y / dt + v1 - x) / (L / dt + R + cap)
                            j[m] = y1 + y
                            mj[m] = (L * abs(y) / dt + ma[m + 1] + abs(now[m]) + abs(x)) / (L / dt + R + cap) + abs(y)
                            x, y = x + cap * y1, y1
                        else:
                            x1 = (x + cap / R * v1) / (1 + cap / R)
                            j[m] = (v1 - x1 + va[m] - prev[m] - x) / R
                            mj[m] = (ma[m + 1] + ma[m] + abs(now[m]) + abs(prev[m]) + abs(x1) + abs(x)) / R
                            x = x1
            else:   # R in series with (L parallel C): x = voltage over L||C, y = inductor current
                R, L, Cc = b["R"], b["L"], b["C"]
                x = y = 0.0
                j, mj = np.zeros(T), np.zeros(T)
                for m in range(T):
                    # implicit step: C(x1-x)/dt = (v1-vs-x1)/R - y1 ; L(y1-y)/dt = x1
                    v1 = V[m + 1, a]
                    x1 = (Cc * x / dt + (v1 - now[m]) / R - y) / (Cc / dt + 1 / R + dt / L)
                    y1 = y + dt * x1 / L
                    j[m] = (v1 + V[m, a] - now[m] - prev[m] - x1 - x) / R
                    mj[m] = (abs(v1) + abs(V[m, a]) + abs(now[m]) + abs(prev[m]) + abs(x1) + abs(x)) / R
                    x, y = x1, y1
            cur[:, a] += j
            mag[:, a] += mj
            if c is not None:
                cur[:, c] -= j
                mag[:, c] += mj
        res = tot + cur
        # shorted clusters: equal voltages, and the current law summed over the cluster
        parent = list(range(N))

        def find(x):
            while parent[x] != x:
                x = parent[x]
            return x
        for a, c in links:
            parent[find(a)] = find(c)
        clusters = {}
        for k in range(N):
            clusters.setdefault(find(k), []).append(k)
        vmax = max(np.max(np.abs(Vb)) for Vb, _ in r.H) + 1e-300
        imax = np.max(mag) + 1e-300
        if fields is not None:
            imax += np.max(np.abs(C)) / dt * (low + max(np.max(np.abs(f)) for f in fields))
        for mem in clusters.values():
            where = "node(s) %s of network %d" % ([ids[k] for k in mem], ni)
            if any(k in shorted_g for k in mem):
                if np.max(np.abs(V[:, mem])) > 1e-5 * vmax + 1e-6 * imax:
                    kh.check(V[1:, mem], np.full((T, len(mem)), vmax), "zero voltage at grounded " + where, 1e-5)
                continue
            if len(mem) > 1:
                dv = V[1:, mem] - V[1:, mem[:1]]
                kh.check(dv, np.full(dv.shape, vmax), "equal voltages at shorted " + where, 1e-5)
            rs = np.sum(res[:, mem], axis=1)[:, None]
            ms = np.sum(mag[:, mem], axis=1)[:, None]
            t = short_tol if len(mem) > 1 else tol
            kh.check(rs, ms, "current law at " + where, t, imax)
