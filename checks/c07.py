"""C07: Kirchhoff's current law at network nodes, branch by branch."""
import numpy as np
from hypothesis import strategies as st

from harness import system as sy
from harness.core import Info, Sub

ASSUMPTIONS = [
    "ideal shorts are realised by a 1e10 S conductance: shorted nodes agree to 1e-5 and the cluster balance to 5e-3",
    "capacitive branch currents use backward differences, reactive branches implicit Euler (the scheme's own order)",
]


def case():
    return sy.system(max_bundles=3, max_levels=2, steps_max=20, disp=False, zt=False, max_cells=4)


def run(S):
    r = sy.run_system(S)
    sy.node_laws(S, r)
    cls = {b["t"] + ("g" if b["b"] is None else "n") + ("w" if b.get("w") else "") for n in S["nets"] for b in n["br"]}
    cls.add("nets_%d" % min(9, len(S["nets"])))
    if any(len(n["ends"]) > 1 for n in S["nets"]):
        cls.add("junction")
    if any(len({(e["b"], e["k"]) for e in n["ends"]}) < len(n["ends"]) for n in S["nets"]):
        cls.add("loop")
    return Info(sy.peak(r) > 0, sorted(cls))


SUBS = [Sub("kcl", case, run, 3200, 20000, "some source drove the network")]
