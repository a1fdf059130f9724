"""C08: transfer impedance between shield levels."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, laws, system as sy
from harness.core import Info, Sub, need

ASSUMPTIONS = [
    "convolutions are evaluated for currents linear within each step; complex poles come in conjugate pairs",
    "'in' couples the outer level's current into the inner level's voltage law, 'out' the reverse",
]


@st.composite
def case(draw):
    steps = draw(gen.count(4, 25))
    b = draw(sy.bundle("b0", max_levels=3, max_n=2, max_cells=6, zt=False, disp=draw(st.booleans()), grow=True))
    if len(b["levels"]) == 1:
        s = draw(sy.pul(draw(st.integers(1, 3))))
        s["name"] = "b0_1_0"
        b["levels"].append([s])
    cnt = sy.n_of_levels(b)
    for lv in range(1, len(b["levels"])):
        for _ in range(draw(st.integers(1, 2))):
            oc = sorted(draw(st.sets(st.integers(0, cnt[lv - 1] - 1), min_size=1, max_size=2)))
            ic = sorted(draw(st.sets(st.integers(0, cnt[lv] - 1), min_size=1, max_size=cnt[lv])))
            b["zt"].append({"ol": lv - 1, "oc": oc, "il": lv, "ic": ic, "m": draw(sy.zt_model(3))})
    for _ in range(draw(st.integers(0, 2))):
        lv = draw(st.integers(1, len(b["levels"]) - 1))
        side = draw(st.sampled_from(["initial", "end"]))
        if (side, lv) in [(z["side"], z["il"]) for z in b["czt"]]:
            continue
        m = draw(sy.zt_model(2))
        if draw(st.integers(0, 3)) == 0:
            m.update(cte=0.0, prop=0.0, poles={"real": [], "imag": []}, residues={"real": [], "imag": []})
        oc = draw(st.integers(0, cnt[lv - 1] - 1))
        ic = sorted(draw(st.sets(st.integers(0, cnt[lv] - 1), min_size=1, max_size=cnt[lv])))
        b["czt"].append({"side": side, "ol": lv - 1, "oc": [oc], "il": lv, "ic": ic, "m": m})
    nets = draw(sy.nets([b], steps, kinds=["R", "R", "R", "open"], shorts=False, join=False))
    S = {"steps": steps, "bundles": [b], "nets": nets}
    # drive one conductor for certain
    r = [x for n in nets for x in n["br"] if x["t"] == "R"]
    if r and not any("w" in x for x in r):
        draw(st.sampled_from(r))["w"] = draw(gen.wave(steps))
    return {"S": S, "dt": draw(st.sampled_from([None, None, 0.8]))}


def run(c):
    S = c["S"]
    b = S["bundles"][0]
    dt = sy.bundle_dt(b) * (c["dt"] or 1.0)
    r = sy.run_system(S, dt=None if c["dt"] is None else dt)
    V, I = r.H[0]
    need(len(V) == S["steps"] + 1, "wrong number of rows")
    zt, scale = laws.bundle(b, V, I, dt)
    sy.node_laws(S, r, tol=1e-7)
    cls = ["levels%d" % len(b["levels"])] + ["connector"] * bool(b["czt"]) + ["disp"] * bool(b["disp"])
    for z in b["zt"] + b["czt"]:
        m = z["m"]
        cls.append(m["direction"])
        cls += ["factor"] * (m.get("factor", 1) != 1) + ["cte"] * bool(m["cte"]) + ["prop"] * bool(m["prop"])
        cls += ["poles"] * bool(m["poles"]["real"]) + ["several_poles"] * (len(m["poles"]["real"]) > 1)
    return Info(zt > 1e-9 * scale, sorted(set(cls)))


# ---- uncoupled levels stay independent --------------------------------------------------------------------------

@st.composite
def indep_case(draw):
    c = draw(case())
    nets = c["S"]["nets"]
    keep = draw(st.integers(0, len(nets) - 1))
    for k, n in enumerate(nets):
        for b in n["br"]:
            if k != keep:
                b.pop("w", None)
    if not any("w" in b for b in nets[keep]["br"]):
        for b in nets[keep]["br"]:
            if b["t"] == "R":
                b["w"] = draw(gen.wave(c["S"]["steps"]))
                break
    c["keep"] = keep
    return c


def run_indep(c):
    S = c["S"]
    b = S["bundles"][0]
    dt = sy.bundle_dt(b) * (c["dt"] or 1.0)
    r = sy.run_system(S, dt=None if c["dt"] is None else dt)
    V, I = r.H[0]
    n = V.shape[1]
    # conductors reachable from the driven ones
    line_of = []
    for lv, lines in enumerate(b["levels"]):
        for k, s in enumerate(lines):
            line_of += [(lv, k)] * s["n"]
    hot = set()
    for net in S["nets"]:
        for e in net["ends"]:
            for k, i in enumerate(e["ids"]):
                if any("w" in x and i in (x["a"], x["b"]) for x in net["br"]):
                    hot.add(line_of[sy.offset(b, net["level"], e["k"]) + k])
    cp = {(line_of[row], line_of[col]) for row, col in laws.couplings(b)}
    grow = True
    while grow:
        new = {row for row, col in cp if col in hot}
        for net in S["nets"]:
            ends = {(net["level"], e["k"]) for e in net["ends"]}
            if ends & hot:
                new |= ends
        grow = not new <= hot
        hot |= new
    cold = [k for k in range(n) if line_of[k] not in hot]
    need(not np.any(V[:, cold]) and not np.any(I[:, cold]), "conductors %s are not coupled to any driven one but carry a signal" % cold)
    return Info(bool(cold) and np.max(np.abs(V)) > 0, ["cold%d" % min(len(cold), 4)])


SUBS = [
    Sub("coupling", case, run, 1600, 12000, "a transfer-impedance drop was not negligible"),
    Sub("independence", indep_case, run_indep, 480, 3000, "some line was coupled to no driven one"),
]
