"""Fixed-value boundary conditions."""
from hypothesis import strategies as st
from .. import gen, model
from ..core import Violation

RULE = (
    "a case counts when at least one fixed-value condition depends on time, temperature or position or names several surfaces; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 300, "seconds": 120}, "thorough": {"cases": 6000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    c = gen.problem(
        g, T="solve" if g.chance(1, 5) else "val", nmat=(1, 2), bc_mix=("d", "d", "d", "f", "none"), chem=g.chance(),
        bc_kinds=("dirichlet", "sieverts", "henrys", "implant", "customd"), traps=(0, 2), trap_bcs=True, uniformT=g.chance(1, 4),
        geo=("1d", "1d", "1d", "2d", "2d", "cyl1", "sph") * 2 + ("3d",),
    )
    gen.merge_surfaces(g, c)
    return c


def strategy(tier):
    return case(tier)


def check(c):
    sim, states = model.run(c)
    M = model.Model(c, sim)
    model.check_dirichlet(M, states, rel=1e-8)
    model.check_mobile(M, states)
    model.check_traps(M, states)
    return {"nontrivial": any(isinstance(b["surf"], list) or b["type"] != "dirichlet" or isinstance(b["v"], dict) for b in c["bcs"] if b["type"] in ("dirichlet", "sieverts", "henrys", "implant", "customd")), "labels": model.labels(c), "sub": model.count(M, states)}
