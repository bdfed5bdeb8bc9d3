"""Heat transfer problem."""
from hypothesis import strategies as st
from .. import gen, model
from ..core import Violation

RULE = (
    "a case counts when the solved temperature is not uniform at the last solution; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 240, "seconds": 120}, "thorough": {"cases": 6000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    c = gen.problem(
        g, T="solve", chem=g.chance(1, 6), soret=g.chance(1, 6), nmat=(1, 3), bc_mix=("d", "none"),
        bc_kinds=("dirichlet", "sieverts", "customd"), traps=(0, 1),
    )
    if g.chance(1, 6):
        c["T"]["maxit"] = g.int(1, 3)  # converges or stops with an error
    return c


def strategy(tier):
    return case(tier)


def check(c):
    sim, states = model.run(c)
    M = model.Model(c, sim)
    model.check_heat(M, states)
    model.check_dirichlet(M, states, rel=1e-8)
    model.check_mobile(M, states)
    model.check_T0(M, states)
    return {"nontrivial": model.spread(states[-1]["T"]) > 1e-4, "labels": model.labels(c), "sub": model.count(M, states)}
