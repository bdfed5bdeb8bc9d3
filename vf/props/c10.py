"""Flux boundary conditions."""
from hypothesis import strategies as st
from .. import gen, model
from ..core import Violation

RULE = (
    "a case counts when it has at least one flux condition other than a single constant prescribed flux and the concentration or temperature is not uniform at the last solution; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 300, "seconds": 120}, "thorough": {"cases": 6000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    c = gen.problem(
        g, T="solve" if g.chance(1, 3) else "val", nmat=(1, 2), bc_mix=("f", "f", "ff", "ff", "d", "none"),
        flux_kinds=("flux", "rec", "dis", "mass", "custom"), traps=(0, 1), geo=("1d", "1d", "2d", "2d", "cyl1", "cyl2", "sph") * 2 + ("3d",),
    )
    gen.merge_surfaces(g, c)
    return c


def strategy(tier):
    return case(tier)


def check(c):
    sim, states = model.run(c)
    M = model.Model(c, sim)
    model.check_mobile(M, states)
    if c["T"]["kind"] == "solve":
        model.check_heat(M, states)
    return {"nontrivial": model.varied(states) and sum(b["type"] in ("flux", "rec", "dis", "mass", "custom", "conv") for b in c["bcs"]) > 0, "labels": model.labels(c), "sub": model.count(M, states)}
