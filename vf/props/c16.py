"""Derived quantities against integrals/averages/extrema of the recorded fields."""
from hypothesis import strategies as st
from .. import dq, gen, model
from ..core import Violation

RULE = (
    "a case counts when the concentration is not uniform and at least three quantities of at least two kinds are compared; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 240, "seconds": 120}, "thorough": {"cases": 6000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    c = gen.problem(
        g, nmat=(1, 3), traps=(0, 2), T="solve" if g.chance(1, 3) else "val", chem=g.chance(1, 4), soret=g.chance(1, 3),
        bc_mix=("d", "d", "f", "none"), flux_kinds=("flux",), sources=1, dt_n=(1, 3),
        geo=("1d", "1d", "2d", "2d", "cyl1", "cyl2", "sph") * 2 + ("3d",),
    )
    c = gen.name_traps(g, c)
    c["qs"] = [dq.gen(g, c) for _ in range(g.int(3, 6))]
    return c


def strategy(tier):
    return case(tier)


def check(c):
    import festim as F

    qs = [dq.make(q, c) for q in c["qs"]]
    table = F.DerivedQuantities(qs)
    sim, states = model.run(c, exports=[table])
    M = model.Model(c, sim)
    for spec, q in zip(c["qs"], qs):
        if len(q.data) != len(states) - 1:
            raise Violation("%d values of %s for %d solutions" % (len(q.data), spec, len(states) - 1))
        for s, got in zip(states[1:], q.data):
            dq.judge(M, s, spec, got)
    return {
        "nontrivial": model.varied(states) and len({q["q"] for q in c["qs"]}) > 1,
        "labels": model.labels(c) + sorted({"q:%s:%s" % (q["q"], q["field"] if q["field"] in ("T", "retention") else "solute" if q["field"] in (0, "0", "solute") else "trap") for q in c["qs"]}),
        "sub": len(c["qs"]) * (len(states) - 1),
    }
