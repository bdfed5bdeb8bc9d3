"""Volumetric sources and radioactive decay."""
from hypothesis import strategies as st
from .. import gen, model
from ..core import Violation

RULE = (
    "a case counts when it has at least one source or decay and the concentration field is not identically zero; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 300, "seconds": 120}, "thorough": {"cases": 6000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    chem = g.chance(1, 6)
    c = gen.problem(
        g, traps=(0, 2), T="solve" if g.chance(1, 4) else "val", chem=chem, uniformT=chem and g.chance(),
        bc_mix=("d", "none", "none"), sources=4, source_kinds=("src", "src", "imp", "decay"),
    )
    return c


def strategy(tier):
    return case(tier)


def check(c):
    sim, states = model.run(c)
    M = model.Model(c, sim)
    model.check_mobile(M, states)
    model.check_traps(M, states)
    if c["T"]["kind"] == "solve":
        model.check_heat(M, states)
    return {"nontrivial": bool(c["sources"]) and abs(states[-1]["u"]).max() > 0, "labels": model.labels(c), "sub": model.count(M, states)}
