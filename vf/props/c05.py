"""Mobile hydrogen diffusion against the reference weak form."""
from hypothesis import strategies as st
from .. import gen, model

RULE = (
    "a case counts when the run produced at least one solution whose concentration is not uniform "
    "(relative spread > 1e-3), so that the diffusive flux is really exercised; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 240, "seconds": 120}, "thorough": {"cases": 6000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    return gen.problem(
        g, T="solve" if g.chance(1, 6) else "val", flux_kinds=("flux", "flux", "mass"), sources=1
    )


def strategy(tier):
    return case(tier)


def check(c):
    sim, states = model.run(c)
    M = model.Model(c, sim)
    model.check_mobile(M, states)
    model.check_dirichlet(M, states)
    model.check_reported(M, sim, states)
    return {"nontrivial": model.varied(states), "labels": model.labels(c), "sub": model.count(M, states)}
