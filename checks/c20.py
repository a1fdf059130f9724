"""C20: runs are reproducible and objects independent."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen, sim, system as sy
from harness.core import Info, Sub, need

ASSUMPTIONS = ["results are compared bit by bit; the steps of interleaved runs are those of the same system run alone"]


def same(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, "%s: shape %s instead of %s" % (what, a.shape, b.shape))
    if not np.array_equal(a, b):
        k = np.unravel_index(int(np.argmax(np.abs(a - b) > 0)), a.shape)
        need(False, "%s: %.17g instead of %.17g at %s" % (what, a[k], b[k], tuple(int(i) for i in k)))


# ---- single lines: copies ----------------------------------------------------------------------------------------

@st.composite
def line_spec(draw):
    s = draw(gen.line(max_n=3, max_cells=7))
    steps = draw(gen.count(3, 15))
    N = sum(s["ndiv"])
    disp, used = [], set()
    for _ in range(draw(st.integers(0, 2))):
        k, c = draw(st.integers(0, N - 1)), draw(st.integers(0, s["n"] - 1))
        if (k, c) not in used:
            used.add((k, c))
            disp.append({"cell": k, "c": c, "m": draw(sy.model())})
    return {"line": s, "steps": steps, "drives": draw(gen.drives(s["n"], steps)), "disp": disp,
            "dt": draw(st.sampled_from([None, None, 0.6])),
            "edit": draw(st.one_of(st.none(), st.tuples(st.integers(0, N), gen.pos(1.0, 100.0)).map(list)))}


def build(c, probes=True):
    """Returns (line, recorder, {name: argument passed}, dt)."""
    s = c["line"]
    u, _ = sim.grid(s)
    dt = sim.cfl(s) * (c["dt"] or 1.0)
    kw = sim.mtl_args(s)
    line = sim.mtl.MTL(**kw)
    args = dict(kw)
    for i, d in enumerate(c["disp"]):
        m, p = copy.deepcopy(d["m"]), u[d["cell"]].copy()
        args["model%d" % i], args["model_pos%d" % i] = m, p
        line.add_dispersive_connector(p, d["c"], m)
    if c["dt"]:
        line.set_time_step(1, dt)
    if c["edit"]:
        p = u[c["edit"][0]].copy()
        args["region"] = p
        line.set_resistance_in_region(p, p, c["line"]["n"] - 1, c["edit"][1])
    for i, d in enumerate(c["drives"]):
        p = sim.end_pos(u, d["e"])
        args["source_pos%d" % i] = p
        line.add_voltage_source(p, d["c"], sim.wavefn(d["w"], dt))
    rec = sim.Recorder(line, u) if probes else None
    return line, rec, args, dt


def freeze(x):
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.tobytes())
    if isinstance(x, dict):
        return ("dict", tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    return ("value", repr(x))


def scribble(x):
    """Overwrite an argument the caller still owns."""
    if isinstance(x, np.ndarray):
        x[...] = -7.5
    elif isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list, np.ndarray)):
                scribble(x[k])
            elif isinstance(x[k], float):
                x[k] = 123.0
    elif isinstance(x, list):
        for i in range(len(x)):
            if isinstance(x[i], float):
                x[i] = 123.0
            else:
                scribble(x[i])


@st.composite
def copy_case(draw):
    return {"a": draw(line_spec()), "before": draw(st.integers(0, 6)), "copy_steps": draw(st.integers(1, 8)),
            "order": draw(st.sampled_from(["copy_first", "original_first"])), "twice": draw(st.booleans()),
            "scribble": draw(st.booleans())}


def run_copy(c):
    a = c["a"]
    # the same line, freshly built and run for the numbers of steps needed below
    fresh, rec, _, dt = build(a)
    fresh.run_until(sim.until(c["copy_steps"], dt))
    want_copy = rec.history()
    ref, rec0, _, _ = build(a)
    if c["before"]:
        ref.run_until(sim.until(c["before"], dt))
    ref.run_until(sim.until(a["steps"], dt))
    want = rec0.history()

    line, rec1, args, _ = build(a)
    frozen = {k: freeze(v) for k, v in args.items()}
    if c["before"]:
        line.run_until(sim.until(c["before"], dt))
    for k, v in args.items():
        need(freeze(v) == frozen[k], "argument %s was modified by building or running the line" % k)
    if c["scribble"]:
        for v in args.values():
            scribble(v)
    before = [freeze(x) for x in (line.v, line.i, line.l, line.c, line.r, line.g, line.zs, line.zl)] + [line.time, line.dt]
    cp = line.create_clean_copy()
    after = [freeze(x) for x in (line.v, line.i, line.l, line.c, line.r, line.g, line.zs, line.zl)] + [line.time, line.dt]
    need(before == after, "copying changed the original line")
    need(not np.any(cp.v) and not np.any(cp.i) and cp.time == 0.0, "a clean copy does not start from rest")
    need(cp.dt == line.dt, "a clean copy has another time step")
    if c["twice"]:
        cp = cp.create_clean_copy()
    rc = sim.Recorder(cp, sim.grid(a["line"])[0])

    def go_copy():
        cp.run_until(sim.until(c["copy_steps"], dt))
        h = rc.history()
        for q, x, y in zip(("voltage", "current"), h, want_copy):
            same(x, y, "clean copy after %d steps: %s at (step, conductor, place)" % (c["before"], q))

    def go_original():
        line.run_until(sim.until(a["steps"], dt))
        for q, x, y in zip(("voltage", "current"), rec1.history(), want):
            same(x, y, "original beside its copy: %s at (step, conductor, place)" % q)
    for f in ((go_copy, go_original) if c["order"] == "copy_first" else (go_original, go_copy)):
        f()
    live = bool(np.any(want_copy[0]))
    return Info(live and c["before"] > 0, ["disp"] * bool(a["disp"]) + ["dt_set"] * bool(a["dt"]) + ["edit"] * bool(a["edit"])
                + [c["order"]] + ["scribbled"] * c["scribble"])


# ---- interleaved systems --------------------------------------------------------------------------------------------

@st.composite
def mixed_case(draw):
    k = draw(st.integers(1, 3))
    items = []
    for _ in range(k):
        if draw(st.integers(0, 2)) == 0:
            items.append({"t": "line", "a": draw(line_spec())})
        else:
            items.append({"t": "net", "S": draw(sy.system(max_bundles=2, max_levels=2, steps_max=8, max_cells=4, shorts=False))})
    if draw(st.booleans()) and len(items) < 3:
        items.append(copy.deepcopy(items[0]))
    ops = []
    for i in range(len(items)):
        ops.append(["build", i])
    ops += [["run", draw(st.integers(0, len(items) - 1)), draw(st.integers(1, 4))] for _ in range(draw(st.integers(1, 6)))]
    ops += [["lines", draw(st.integers(0, len(items) - 1))] for _ in range(draw(st.integers(0, 2)))]
    ops = draw(st.permutations(ops))
    return {"items": items, "ops": ops}


class Thing:
    def __init__(self, it):
        self.it = it
        if it["t"] == "line":
            self.o, self.rec, _, self.dt = build(it["a"])
        else:
            self.o = sy.build_system(it["S"])
            self.dt = self.o.dt

    def run(self, k):
        if self.it["t"] == "line":
            self.o.run_until(sim.until(k, self.dt))
            return [self.rec.history()]
        self.o.m.run_until(sim.until(k, self.dt))
        return [r.history() for r in self.o.rec]

    def lines(self):
        """Run, separately, the lines a bundle was built from."""
        if self.it["t"] == "net":
            for ls in self.o.lines:
                for lv in ls.values():
                    for line in lv:
                        line.run_until(3.5 * line.dt)
                        line.create_clean_copy()


def run_mixed(c):
    ops = c["ops"]
    # what each system does when alone
    want = {}
    for i, it in enumerate(c["items"]):
        th = Thing(it)
        want[i] = [th.run(o[2]) for o in ops if o[0] == "run" and o[1] == i]
    things, got = {}, {i: [] for i in want}
    for o in ops:
        if o[1] not in things:
            things[o[1]] = Thing(c["items"][o[1]])
        if o[0] == "run":
            got[o[1]].append(things[o[1]].run(o[2]))
        elif o[0] == "lines":
            things[o[1]].lines()
    live = 0
    for i in want:
        for n, (x, y) in enumerate(zip(got[i], want[i])):
            for bi, (p, q) in enumerate(zip(x, y)):
                for what, g, w in zip(("voltage", "current"), p, q):
                    same(g, w, "system %d (%s) among others, run %d, bundle %d: %s at (step, conductor, place)" % (
                        i, c["items"][i]["t"], n, bi, what))
                    live += bool(np.any(w))
    return Info(live > 0 and sum(1 for o in ops if o[0] == "run") > 1,
                ["items%d" % len(c["items"])] + sorted({it["t"] for it in c["items"]}) + ["lines_run"] * any(o[0] == "lines" for o in ops))


# ---- arguments of bundles and networks ---------------------------------------------------------------------------------

@st.composite
def args_case(draw):
    S = draw(sy.system(max_bundles=2, max_levels=3, steps_max=8, max_cells=4, shorts=False))
    return {"S": S, "scribble": draw(st.booleans())}


def run_args(c):
    S = c["S"]
    want = sy.run_system(S)
    seen = {}
    real = {}

    def spy(cls, name):
        f = getattr(cls, name)
        real[(cls, name)] = f

        def g(self, *a, **k):
            for j, x in enumerate(list(a) + list(k.values())):
                if isinstance(x, (np.ndarray, dict)) and not any(isinstance(v, sim.mtl.MTL) for v in (x if isinstance(x, dict) else [])):
                    seen[len(seen)] = ("%s.%s argument %d" % (cls.__name__, name, j), x, freeze(x))
            return f(self, *a, **k)
        setattr(cls, name, g)
    try:
        for cls, names in ((sim.mtl.MTL, ["__init__", "add_dispersive_connector", "add_probe"]),
                           (sim.mtl.MTLD, ["add_transfer_impedance", "set_connector_transfer_impedance", "add_probe"])):
            for n in names:
                spy(cls, n)
        desc = []
        f = sim.networks.Network.__init__
        real[(sim.networks.Network, "__init__")] = f

        def gd(self, d):
            desc.append((d, [(id(k), v["side"], id(v["bundle"]), copy.deepcopy(v["connections"])) for k, v in d.items()]))
            f(self, d)
        sim.networks.Network.__init__ = gd
        r = sy.build_system(S)
    finally:
        for (cls, name), f in real.items():
            setattr(cls, name, f)

    def check(when):
        for what, x, fr in seen.values():
            need(freeze(x) == fr, "%s was modified by %s" % (what, when))
        for d, fr in desc:
            need([(id(k), v["side"], id(v["bundle"]), v["connections"]) for k, v in d.items()] == fr,
                 "the description of a network was modified by %s" % when)
    check("building the system")
    if c["scribble"]:
        for _, x, _ in seen.values():
            scribble(x)
        for k in seen:
            seen[k] = (seen[k][0], seen[k][1], freeze(seen[k][1]))
    r.m.run_until(sim.until(S["steps"], r.dt))
    check("running the system")
    for bi, (rec, h) in enumerate(zip(r.rec, want.H)):
        for q, x, y in zip(("voltage", "current"), rec.history(), h):
            same(x, y, "same description built again%s: %s of bundle %d at (step, conductor, place)" % (
                ", arguments overwritten after building" if c["scribble"] else "", q, bi))
    return Info(sy.peak(want) > 0, ["scribbled"] * c["scribble"] + ["disp"] * any(b["disp"] for b in S["bundles"])
                + ["zt"] * any(b["zt"] for b in S["bundles"]))


# ---- several managers of the same objects -------------------------------------------------------------------------------

@st.composite
def managers_case(draw):
    S = draw(sy.system(max_bundles=3, max_levels=3, steps_max=8, max_cells=4, shorts=False))
    return {"S": S, "idle": draw(st.integers(0, 2)), "before": draw(st.sampled_from([0, 0, 1, 3])),
            "order": draw(st.permutations(range(len(S["bundles"])))), "list": draw(st.booleans())}


def run_managers(c):
    """A manager made of objects that other managers hold, or held, runs them as if it were the only one."""
    S = c["S"]
    want = sy.build_system(S)
    if c["before"]:
        want.m.run_until(sim.until(c["before"], want.dt))
    want.m.time = 0.0                               # a new manager starts its clock, not its objects, from zero
    want.m.run_until(sim.until(S["steps"], want.dt))

    r = sy.build_system(S)
    if c["before"]:
        r.m.run_until(sim.until(c["before"], r.dt))

    def manager():
        if c["list"]:
            return sy.mtln.MTLN([r.mds[k] for k in c["order"]], list(r.nets))
        m = sy.mtln.MTLN()
        for k in c["order"]:
            m.add_bundle(r.mds[k])
        m.add_networks(list(r.nets))
        return m
    for _ in range(c["idle"]):
        manager()
    m = manager()
    m.run_until(sim.until(S["steps"], r.dt))
    live = 0
    for bi, (a, b) in enumerate(zip(r.rec, want.rec)):
        for q, x, y in zip(("voltage", "current"), a.history(), b.history()):
            same(x, y, "manager %d of the same bundles and networks: %s of bundle %d at (step, conductor, place)" % (c["idle"] + 2, q, bi))
            live += bool(np.any(y))
    off = any(len(b["levels"]) > 1 for b in S["bundles"])
    return Info(live > 0 and off, ["levels"] * off + ["idle%d" % c["idle"], "before%d" % c["before"]])


SUBS = [
    Sub("managers", managers_case, run_managers, 480, 4000, "a bundle of several levels and a signal present"),
    Sub("copy", copy_case, run_copy, 1800, 15000, "the copied line had been run before and carries a signal"),
    Sub("mixed", mixed_case, run_mixed, 600, 5000, "at least two runs and a signal present"),
    Sub("arguments", args_case, run_args, 600, 5000, "a signal was present"),
]
