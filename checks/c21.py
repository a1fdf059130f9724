"""C21: rational-fit helpers agree with the circuits they stand for."""
import json
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

import src.VF.utils as vfu
from harness import gen
from harness.core import Info, Sub, close, need

ASSUMPTIONS = [
    "Zw is specified by its formula only: R (1+2.5j) exp(-(f-f0)^2/(2 sigma^2))",
    "a fit is given as skrf 0.32 gives it: complex poles without their conjugates, one row of residues per matrix entry",
]

HELPERS = ["RLpar", "RCpar", "RLseries", "Y_RLseries", "epsDebye", "epsDebyeErr", "vf", "Zw", "z"]


def jw(f):
    return 2j * np.pi * np.asarray(f, dtype=float)


@st.composite
def formula_case(draw):
    k = draw(st.sampled_from(HELPERS))
    f = [draw(st.one_of(st.integers(0, 9).map(lambda e: 10.0 ** e), gen.pos(1.0, 1e10))) for _ in range(draw(st.integers(1, 6)))]
    c = {"k": k, "f": f, "array": draw(st.booleans()) or k == "Zw"}
    n = draw(st.integers(1, 4))
    if k == "RLpar":
        c.update(R=draw(gen.pos(1e-3, 1e4)), L=draw(gen.pos(1e-9, 1e-2)))
    elif k == "RCpar":
        c.update(R=draw(gen.pos(1e-3, 1e4)), C=draw(gen.pos(1e-15, 1e-3)))
    elif k in ("RLseries", "Y_RLseries"):
        c.update(R=draw(gen.pos(1e-3, 1e4)), L=draw(gen.pos(1e-9, 1e-2)), n=draw(st.sampled_from([1.0, 1.0, 0.5, 2.0, 0.8])))
    elif k.startswith("epsDebye"):
        c.update(chi=[draw(gen.pos(0.01, 100.0)) for _ in range(n)], tau=[draw(gen.pos(1e-12, 1e-2)) for _ in range(n)],
                 p=draw(st.sampled_from([0.0, 1.0, 5.0, 50.0])))
    elif k == "vf":
        c.update(poles=[[-draw(gen.pos(1.0, 1e9)), draw(st.sampled_from([0.0, 1e6, -1e6, 3e8]))] for _ in range(n)],
                 res=[[draw(gen.pos(-1e9, 1e9)), draw(st.sampled_from([0.0, 1e6, -2e7]))] for _ in range(n)])
    elif k == "Zw":
        c.update(R=draw(gen.pos(1e-3, 1e4)), f0=draw(gen.pos(1.0, 1e10)), sigma=draw(gen.pos(1e7, 1e10)))
    else:
        f0 = draw(gen.pos(1.0, 1e9))
        c.update(f0=f0, rdc=draw(gen.pos(1e-3, 1e4)))
        c["f"] += [f0, f0 * (1 - 1e-9), f0 * (1 + 1e-9)]
    return c


def run_formula(c):
    k = c["k"]
    fs = np.array(c["f"], dtype=float)
    args = [fs] if c["array"] else [float(x) for x in fs]
    for f in args:
        s, n = jw(f), np.size(f)

        def same(got, want, what, rtol=1e-9):
            got, want = np.atleast_1d(got), np.atleast_1d(want)
            scale = np.abs(want)
            close(np.real(got), np.real(want), what + ", real part", rtol=0.0, atol=rtol * scale)
            close(np.imag(got), np.imag(want), what + ", imaginary part", rtol=0.0, atol=rtol * scale)

        at = " at f=%s" % (f,)
        if k == "RLpar":
            same(vfu.RLpar(f, c["R"], c["L"]), c["R"] * s * c["L"] / (c["R"] + s * c["L"]), "parallel R and L" + at)
        elif k == "RCpar":
            same(vfu.RCpar(f, c["R"], c["C"]), 1 / (1 / c["R"] + s * c["C"]), "parallel R and C" + at)
        elif k == "RLseries":
            same(vfu.RLseriesDisp(f, c["R"], c["L"], c["n"]), c["R"] + 1j * np.abs(s) ** c["n"] * c["L"], "series R and L" + at)
        elif k == "Y_RLseries":
            same(vfu.Y_RLseriesDisp(f, c["R"], c["L"], c["n"]), 1 / (c["R"] + 1j * np.abs(s) ** c["n"] * c["L"]),
                 "admittance of series R and L" + at)
        elif k == "epsDebye":
            same(vfu.epsDebye(f, c["chi"], c["tau"]), 1 + sum(a / (1 + s * t) for a, t in zip(c["chi"], c["tau"])), "Debye law" + at)
        elif k == "epsDebyeErr":
            law = np.atleast_1d(sum(a / (1 + s * t) for a, t in zip(c["chi"], c["tau"])))
            q = (np.atleast_1d(vfu.epsDebyeErr(f, c["chi"], c["tau"], c["p"])) - 1.0) / law
            noise = 1e-9 + 1e-13 / np.abs(law)
            need(q.shape == (n,), "Debye law with errors has shape %s" % (q.shape,))
            need(np.all(np.abs(q.imag) <= noise), "Debye law with errors: the error factor %s is not real%s" % (q, at))
            need(np.all(np.abs(q.real - 1) <= c["p"] / 100 + noise), "Debye law with errors of %g %%: factor %s%s" % (c["p"], q.real, at))
        elif k == "vf":
            p = np.array([complex(*x) for x in c["poles"]])
            r = np.array([complex(*x) for x in c["res"]])
            parts = [b / (s - a) for a, b in zip(p, r)]
            scale = sum(np.abs(x) for x in parts)
            got = np.atleast_1d(vfu.vf(f, p, r) - sum(parts))
            close(np.abs(got), np.zeros(n), "pole-residue sum" + at, rtol=0.0, atol=np.atleast_1d(1e-9 * scale))
            for i, x in enumerate(parts):
                same(vfu.vfi(f, p, r, i), x, "term %d of the pole-residue sum%s" % (i, at))
        elif k == "Zw":
            want = c["R"] * (1 + 2.5j) * np.exp(-(f - c["f0"]) ** 2 / (2 * c["sigma"] ** 2))
            got = vfu.Zw(f, c["f0"], c["R"], c["sigma"])
            same(got, want, "Zw" + at)
            if np.all(np.abs(want) > 1e-200):
                same(vfu.Y_Zw(f, c["f0"], c["R"], c["sigma"]), 1 / want, "Y_Zw" + at)
        else:
            f0 = c["f0"]
            x = np.atleast_1d(f) / f0
            want = np.where(x < 1.0, c["rdc"] * (1 + 1j * x), c["rdc"] * (1 + 1j) * np.sqrt(x))
            same(vfu.z(f, f0, c["rdc"]), want, "surface impedance, transition at f0=%g%s" % (f0, at))
    return Info(True, [k, "array" if c["array"] else "scalar"])


# ---- serialised fits ------------------------------------------------------------------------------------------------

@st.composite
def fit_case(draw):
    nr, nc = draw(st.integers(0, 3)), draw(st.integers(0, 2))
    if nr + nc == 0:
        nr = 1
    ports = draw(st.integers(1, 4))
    num = gen.pos(-100.0, 100.0)
    poles = [[-draw(gen.pos(1.0, 1e9)), 0.0] for _ in range(nr)] + \
            [[-draw(gen.pos(1.0, 1e9)), draw(gen.pos(1.0, 1e9))] for _ in range(nc)]
    poles = draw(st.permutations(poles))
    res = [[[draw(num), draw(num) if p[1] else 0.0] for p in poles] for _ in range(ports ** 2)]
    return {"nr": nr, "nc": nc, "ports": ports, "poles": poles, "res": res,
            "cte": [draw(num) for _ in range(ports ** 2)] if draw(st.booleans()) else None,
            "prop": [draw(num) for _ in range(ports ** 2)] if draw(st.booleans()) else None}


def run_fit(c):
    import skrf
    n = c["ports"]
    p = np.array([complex(*x) for x in c["poles"]])
    r = np.array([[complex(*x) for x in row] for row in c["res"]])
    a = np.array(c["cte"] if c["cte"] is not None else [0.0] * n ** 2)
    b = np.array(c["prop"] if c["prop"] is not None else [0.0] * n ** 2)
    keep = [x.copy() for x in (p, r, a, b)]
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="verif-c21-") as d:
        os.chdir(d)
        try:
            vfu.serializeJSON(c["nr"], c["nc"], c["cte"] is not None, c["prop"] is not None, a, b, p, r)
            with open("info.json") as f:
                out = json.load(f)
        finally:
            os.chdir(cwd)
    for x, y in zip(keep, (p, r, a, b)):
        need(np.array_equal(x, y), "serializing a fit changed its arrays")
    need(sorted(out) == [str(i) for i in range(n)], "fit of %d ports serialised as %s" % (n, sorted(out)))
    fit = skrf.VectorFitting.__new__(skrf.VectorFitting)
    fit.poles, fit.residues, fit.constant_coeff, fit.proportional_coeff = p, r, a, b
    f = np.array([0.1, 1.0, 3e3, 1e6, 2e7, 5e8, 3e9])
    s = jw(f)
    for i in range(n):
        e = out[str(i)]
        need(set(e) == {"constant", "proportional", "polesR", "polesI", "residuesR", "residuesI"}, "entries %s" % sorted(e))
        m = c["nr"] + 2 * c["nc"]
        for key in ("polesR", "polesI", "residuesR", "residuesI"):
            need(len(e[key]) == m, "port %d: %d entries in %s, expected %d" % (i, len(e[key]), key, m))
        close(e["constant"], a[i * (n + 1)], "constant of port %d" % i, rtol=1e-12)
        close(e["proportional"], b[i * (n + 1)], "proportional of port %d" % i, rtol=1e-12)
        ps = np.array(e["polesR"]) + 1j * np.array(e["polesI"])
        rs = np.array(e["residuesR"]) + 1j * np.array(e["residuesI"])
        # every pole of the fit is there with its residue
        for x, y in zip(p, r[i * (n + 1)]):
            need(np.any((ps == x) & (rs == y)), "port %d: pole %s with residue %s is missing from %s, %s" % (i, x, y, ps, rs))
        got = sum(y / (s - x) for x, y in zip(ps, rs)) + e["constant"] + s * e["proportional"]
        want = fit.get_model_response(i, i, f)
        scale = sum(np.abs(y / (s - x)) for x, y in zip(ps, rs)) + abs(e["constant"]) + np.abs(s) * abs(e["proportional"])
        close(np.abs(got - want), np.zeros(len(f)), "response of port %d rebuilt from its serialised fit" % i, rtol=0.0, atol=1e-9 * scale)
    return Info(n > 1 or c["nc"] > 0, ["ports=%d" % n, "complex=%d" % c["nc"]])


SUBS = [
    Sub("formula", formula_case, run_formula, 4000, 100000, "every case"),
    Sub("fit", fit_case, run_fit, 1000, 20000, "more than one port or complex poles"),
]
