"""Conservation of chemical potential."""
from hypothesis import strategies as st
from .. import gen, model
from ..core import Violation

RULE = (
    "a case counts when the concentration is not uniform at the last solution and the model has at least two materials or a varying temperature; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 240, "seconds": 120}, "thorough": {"cases": 6000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    k = g.pick("d", "d", "flux")
    return gen.problem(
        g, chem=True, T="solve" if g.chance(1, 8) else "val",
        traps=(0, 1), uniformT=k == "flux" and g.chance(),
        bc_kinds=("dirichlet", "sieverts", "henrys", "implant", "customd"),
        flux_kinds=("flux", "rec", "dis", "mass", "custom"),
        bc_mix=("d", "d", "none") if k == "d" else ("d", "f", "f", "none"),
        geo=("1d", "1d", "1d", "1d", "2d", "cyl1", "cyl2", "sph") * 2 + ("3d",), nmat=(1, 3), sources=1,
    )


def strategy(tier):
    return case(tier)


def check(c):
    sim, states = model.run(c)
    M = model.Model(c, sim)
    model.check_mobile(M, states)
    model.check_traps(M, states)
    model.check_reported(M, sim, states)
    model.check_dirichlet(M, states, rel=1e-8)
    return {"nontrivial": model.varied(states) and (len(c["mats"]) > 1 or c["T"]["kind"] == "solve" or isinstance(c["T"]["v"], dict)), "labels": model.labels(c), "sub": model.count(M, states)}
