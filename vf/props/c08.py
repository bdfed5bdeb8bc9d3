"""Soret effect."""
from hypothesis import strategies as st
from .. import gen, model
from ..core import Violation

RULE = (
    "a case counts when the temperature is not uniform at the last solution and some hydrogen is present, or when it is a comparison run with the effect disabled; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 240, "seconds": 120}, "thorough": {"cases": 6000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    c = gen.problem(
        g, soret=True, chem=g.chance(1, 4), T="solve" if g.chance(1, 4) else "val",
        traps=(0, 1), nmat=(1, 2), bc_mix=("d", "d", "none"), sources=1,
    )
    if c["T"]["kind"] == "val" and g.chance(3, 4) and not isinstance(c["T"]["v"], dict):
        c["T"]["v"] = {"k": "xlin", "p": [c["T"]["v"], g.num(-0.06, 0.08) / g.ls]}
    c["off"] = g.pick(None, None, None, "Q0", "uniform")
    if c["off"] == "Q0":
        for m in c["mats"]:
            m["Q"] = g.pick(0.0, {"f": [0.0, 0.001]})
    if c["off"] == "uniform":
        c["T"] = g.temperature(1.0, uniform=True, timedep=c["settings"].get("transient", True))
        c["bcs"] = [b for b in c["bcs"] if b.get("field") != "T"]
        c["sources"] = [b for b in c["sources"] if b.get("field") != "T"]
    return c


def strategy(tier):
    return case(tier)


def check(c):
    sim, states = model.run(c)
    M = model.Model(c, sim)
    model.check_mobile(M, states)
    model.check_traps(M, states)
    model.check_reported(M, sim, states)
    if c["off"]:
        d = dict(c, settings={k: v for k, v in c["settings"].items() if k != "soret"})
        _, other = model.run(d)
        model.same(states, other, 1e-7, "run with inactive Soret effect")
    return {"nontrivial": bool(c["off"]) or (model.spread(states[-1]["T"]) > 1e-4 and abs(states[-1]["u"]).max() > 0), "labels": model.labels(c), "sub": model.count(M, states)}
