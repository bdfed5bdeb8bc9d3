"""Extrinsic and neutron-induced trap densities."""
from hypothesis import strategies as st
from .. import gen, model, timectl
from ..core import Violation

RULE = (
    "a case counts when an extrinsic density became positive over at least two steps; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 200, "seconds": 120}, "thorough": {"cases": 6000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    c = gen.problem(
        g, transient=True, geo=("1d", "1d", "1d", "2d", "cyl1"), nmat=(1, 2), traps=(0, 1),
        T="solve" if g.chance(1, 6) else "val", bc_mix=("d", "d", "none"), dt_n=(3, 6),
    )
    tf = c["settings"]["final"]
    n = g.int(1, 2)
    for _ in range(n):
        idx = g.some(len(c["mats"]))
        t = gen.ext_trap(g, idx, tf)
        c["traps"].insert(g.int(0, len(c["traps"])), t)
    c["ics"] = [i for i in c["ics"] if i["field"] in (0, "0", "solute")]
    c["fails"] = []
    if isinstance(c["dt"], dict):
        c["fails"] = [g.chance(1, 4) for _ in range(g.int(0, 6))]
        c["dt"]["stepsize_change_ratio"] = g.num(1.1, 2.0)
    c["rerun"] = g.chance(1, 5)
    return c


def strategy(tier):
    return case(tier)


def check(c):
    hook = None
    if any(c["fails"]):
        hook = lambda sim: timectl.faulty(sim, [(3, not f) for f in c["fails"]])
    sim, states = model.run(c, hook=hook, again=c["rerun"])
    model.lag_density(c, states)
    M = model.Model(c, sim)
    model.check_density(M, states)
    model.check_traps(M, states)
    model.check_mobile(M, states)
    return {"nontrivial": len(states) > 2 and any(d is not None and d.max() > 0 for d in states[-1]["dens"]), "labels": model.labels(c), "sub": model.count(M, states)}
