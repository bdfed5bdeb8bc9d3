"""Initial conditions."""
from hypothesis import strategies as st
from .. import ex, files, gen, model
from ..core import Violation

RULE = (
    "a case counts when at least one initial condition is given (or the defaults are observed with a trap present); distinct by the whole case"
)
BUDGET = {"quick": {"cases": 300, "seconds": 120}, "thorough": {"cases": 6000, "seconds": 3000}}


def stored(g, i, chem):
    """the condition is read from a step of a checkpoint file"""
    n = g.int(1, 4)
    kinds = ("const", "xlin") if chem else ("const", "xlin", "xquad")
    i["steps"] = [g.spec(g.log(0.2, 1.5) * g.cs, kinds) for _ in range(n)]
    i["step"] = g.int(-1, n - 1)
    i["v"] = i["steps"][i["step"]]
    i["label"] = g.pick("solute", "u", "some label")
    i["file"] = "stored%d.xdmf" % i["k"]


def store(c):
    import fenics as f

    V = None
    for i in c["ics"]:
        if i.get("file"):
            V = V or f.FunctionSpace(model.festim_mesh(c).mesh, "CG", 1)
            u = f.Function(V)
            for k, s in enumerate(i["steps"]):
                u.vector()[:] = ex.val(s, V.tabulate_dof_coordinates(), 0.0)
                with f.XDMFFile(i["file"]) as fh:
                    fh.write_checkpoint(u, i["label"], 0.5 * k, f.XDMFFile.Encoding.HDF5, k > 0)


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    chem = g.chance(1, 3)
    c = gen.problem(
        g, transient=True, traps=(0, 3), chem=chem, nmat=(1, 2), henry=True, bc_mix=("d", "none"), dt_n=(1, 2),
        T="solve" if g.chance(1, 6) else "val", uniformT=chem and g.chance(),
    )
    nt = len(c["traps"])
    tr = g.draw(st.permutations(list(range(1, nt + 1))))
    if nt and g.chance(1, 2):
        # ids given by the user, in any order, not only 1..n
        ids = tr if g.chance() else g.draw(st.lists(st.integers(1, 9), min_size=nt, max_size=nt, unique=True))
        for t, i in zip(c["traps"], ids):
            t["id"] = i
    c["ics"] = []
    for f in range(nt + 1):
        if g.chance(2, 3):
            i = c["traps"][f - 1].get("id", f) if f else 0
            c["ics"].append({
                "field": g.pick("solute", "0", 0) if f == 0 else g.pick(i, str(i)),
                "v": g.spec(g.log(0.2, 1.5) * g.cs, ("const", "xlin", "xquad")),
                "k": f,
            })
            if g.chance(1, 5):
                stored(g, c["ics"][-1], chem)
    c["ics"] = g.draw(st.permutations(c["ics"]))
    return c


def strategy(tier):
    return case(tier)


def check(c):
    with files.scratch():
        return inner(c)


def inner(c):
    store(c)
    sim, states = model.run(c)
    M = model.Model(c, sim)
    model.check_initial(M, states)
    model.check_mobile(M, states)
    model.check_traps(M, states)
    model.check_T0(M, states)
    return {"nontrivial": bool(c["ics"] or c["traps"]), "labels": model.labels(c) + (["read from XDMF"] if any(i.get("file") for i in c["ics"]) else []), "sub": model.count(M, states)}
