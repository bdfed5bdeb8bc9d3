"""Trapping kinetics against the reference weak form."""
from hypothesis import strategies as st
from .. import gen, model
from ..core import Violation

RULE = (
    "a case counts when at least one trap holds hydrogen at the last solution (max |c_t| > 1e-6 of the density scale); distinct by the whole case"
)
BUDGET = {"quick": {"cases": 240, "seconds": 120}, "thorough": {"cases": 6000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    return gen.problem(
        g, traps=(1, 3), T="solve" if g.chance(1, 8) else "val", bc_kinds=("dirichlet",),
        geo=("1d", "1d", "1d", "1d", "2d", "cyl1", "sph") * 2 + ("3d",), sources=1, source_kinds=("src",),
    )


def strategy(tier):
    return case(tier)


def check(c):
    sim, states = model.run(c)
    M = model.Model(c, sim)
    model.check_traps(M, states)
    model.check_mobile(M, states)
    model.check_outside(M, states)
    return {"nontrivial": model.trapped(c, states), "labels": model.labels(c), "sub": model.count(M, states)}
