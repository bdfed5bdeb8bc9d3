"""Surface kinetics against the reference equations."""
from hypothesis import strategies as st
from .. import gen, model
from ..core import Violation

RULE = (
    "a case counts when some surface adsorbs hydrogen (adsorbed concentration changed by more than 1e-6 of the site density); distinct by the whole case"
)
BUDGET = {"quick": {"cases": 240, "seconds": 120}, "thorough": {"cases": 6000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    tr = g.chance(5, 6)
    c = gen.problem(
        g, transient=tr, geo=("1d",), nmat=(1, 3), traps=(0, 2), bc_mix=("none",), sources=1,
        chem=g.chance(1, 5), uniformT=True, trap_bcs=False,
    ) if tr or g.chance() else gen.problem(g, transient=tr, geo=("1d",), nmat=(1, 2), bc_mix=("none",), uniformT=True)
    c["bcs"] = [b for b in c["bcs"] if b["type"] != "dirichlet"]
    tf = c["settings"].get("final", 1.0)
    # a steady state needs an outlet: hydrogen entering has to leave
    k = g.pick("both", "list", "left", "right", "reversed") if tr else g.pick("left", "right")
    if k in ("both", "reversed"):
        sk = [gen.sk(g, 1, tf, tr), gen.sk(g, [2], tf, tr)]
        c["bcs"] += sk if k == "both" else sk[::-1]
    elif k == "list":
        c["bcs"].append(gen.sk(g, g.pick([1, 2], [2, 1]), tf, tr))
    else:
        s = 1 if k == "left" else 2
        c["bcs"].append(gen.sk(g, s, tf, tr))
        o = g.pick("none", "d", "f", "f") if tr else "d"
        if o == "d":
            c["bcs"].insert(g.int(0, 1), gen.dirichlet(g, 3 - s, tf, ("dirichlet",), 0, tr))
        elif o == "f":
            c["bcs"].insert(g.int(0, 1), gen.flux(g, 3 - s, tf, ("flux", "mass", "rec"), tr))
    return c


def strategy(tier):
    return case(tier)


def check(c):
    vals, dq = model.ads_exports(c)
    sim, states = model.run(c, exports=[dq])
    M = model.Model(c, sim)
    model.check_mobile(M, states)
    model.check_traps(M, states)
    model.check_adsorbed(M, sim, states, vals)
    return {"nontrivial": model.adsorbed(c, states), "labels": model.labels(c), "sub": model.count(M, states)}
