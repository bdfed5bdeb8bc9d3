"""Time marching: milestones and final time."""
from hypothesis import strategies as st
from .. import gen, model, timectl
from ..core import Violation

RULE = (
    "a case counts when the run took at least two steps and has milestones, TXT times, an adaptive "
    "step or a first step longer than the simulated time; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 900, "seconds": 120}, "thorough": {"cases": 20000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw)
    c = timectl.gen_time(g)
    c["txt"] = timectl.times(g, c["final"], c["dt"]) if g.chance(1, 3) else None
    if c["txt"]:
        allm = list(c["dt"].get("milestones") or [])
        c["txt"] = [x for x in c["txt"] if all(x == m or abs(x - m) > 2e-4 * x for m in allm)] or None
        timectl.bound(c, 60, c["txt"] or ())
    c["ref"] = draw(st.booleans())  # user passes a plain number when possible
    return c


def strategy(tier):
    return case(tier)


def base(c, exports=()):
    import festim as F

    sim = F.Simulation(log_level=50)
    sim.mesh = F.MeshFromVertices([0.0, 0.3, 0.7, 1.0])
    L2T = 1.0 / c["final"]
    sim.materials = F.Material(1, D_0=0.3 * L2T, E_D=0)
    sim.T = 500.0
    sim.boundary_conditions = [F.DirichletBC(1, 1.0, field=0)]
    # the rounding of the residual is proportional to 1/dt
    sim.settings = F.Settings(1e-9 * max(1.0, 1.0 / c["dt"]["initial_value"]), 1e-10, final_time=c["final"])
    d = timectl.stepsize_kwargs(c["dt"])
    if set(d) == {"initial_value"} and c.get("ref"):
        sim.dt = d["initial_value"]
    else:
        sim.dt = F.Stepsize(**d)
    rec = model.Recorder(sim, 0)
    sim.exports = list(exports) + [rec.dq]
    return sim, rec


def execute(c, exports=(), limit=400):
    sim, rec = base(c, exports)
    err = None
    with model.Guard(limit):
        sim.initialise()
        timectl.faulty(sim, [tuple(o) for o in c["outcomes"]], after=1)
        try:
            sim.run()
        except ValueError as e:
            err = str(e)
    return sim, [s["t"] for s in rec.steps], err


def check(c):
    import festim as F, os

    ex = []
    if c["txt"]:
        ex = [F.TXTExport("solute", "t.txt", times=list(c["txt"]))]
    want, stop = timectl.simulate(c["dt"], c["final"], [tuple(o) for o in c["outcomes"]], c["txt"] or ())
    sim, ts, err = execute(c, ex)
    final = c["final"]
    if not all(b > a for a, b in zip([0.0] + ts, ts)):
        raise Violation("solution times do not increase: %s" % ts)
    if ts and ts[-1] > final * (1 + 1e-12):
        raise Violation("solution at %r beyond the final time %r" % (ts[-1], final))
    if err is not None:
        if stop is None:
            raise Violation("run stopped with %r at times %s" % (err, ts))
        return {"nontrivial": False, "labels": ["stopped"]}
    if stop is None:
        if not ts or not timectl.close(ts[-1], final):
            raise Violation("last solution at %r instead of the final time %r" % (ts[-1:], final))
        for m in list(c["dt"].get("milestones") or []) + list(c["txt"] or []):
            if 0 < m <= final and not any(timectl.close(t, m) for t in ts):
                raise Violation("milestone %r is not a solution time: %s" % (m, ts))
    labels = ["adaptive" if "stepsize_change_ratio" in c["dt"] else "constant", "scale%g" % (10 ** round(__import__("math").log10(final)))]
    for k in ("milestones", "max_stepsize", "t_stop"):
        if c["dt"].get(k):
            labels.append(k)
    if c["txt"]:
        labels.append("txt-times")
    if any(not o[1] for o in c["outcomes"][: len(ts)]):
        labels.append("failed-solves")
    first_long = c["dt"]["initial_value"] > final
    if first_long:
        labels.append("first-step-too-long")
    return {"nontrivial": len(ts) >= 2 and len(labels) > 2 or first_long, "labels": labels, "sub": len(ts)}
