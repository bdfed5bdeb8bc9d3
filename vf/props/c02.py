"""Adaptive step size against a reference controller."""
from hypothesis import strategies as st
from .. import gen, timectl
from ..core import Violation
from . import c01

RULE = (
    "a case counts when at least one step size change was predicted by the reference controller "
    "(growth, reduction, cap or shortening); distinct by the whole case"
)
BUDGET = {"quick": {"cases": 700, "seconds": 120}, "thorough": {"cases": 30000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw)
    c = timectl.gen_time(g, adaptive=g.chance(4, 5))
    c["kind"] = g.pick("api", "run", "run")
    c["txt"] = None
    if c["kind"] == "api" and "t_stop" in c["dt"] and g.chance():
        c["dt"]["t_stop"] = c["dt"]["initial_value"]  # exactly the time of the first solution
    # histories may also end in a failure that cannot be recovered
    if c["kind"] == "api" or g.chance(1, 4):
        k = g.int(0, max(1, len(c["outcomes"])))
        for _ in range(g.int(1, 3)):
            c["outcomes"].insert(k, [30, False])
        timectl.bound(c, 60)
    return c


def strategy(tier):
    return case(tier)


def rel(a, b):
    return abs(a - b) <= 1e-9 * abs(b)


def api(c):
    """Stepsize.adapt on a history of attempts, no simulation"""
    import festim as F

    s = F.Stepsize(**timectl.stepsize_kwargs(c["dt"]))
    ctl = timectl.Controller(dict(c["dt"], milestones=None), None)
    ctl.ms = sorted(set(c["dt"].get("milestones") or []))
    if not rel(float(s.value), c["dt"]["initial_value"]):
        raise Violation("initial step size %r" % float(s.value))
    t = 0.0
    n = 0
    outs = [tuple(o) for o in c["outcomes"]] or [(1, True)]
    for nb, ok in outs:
        # the reference follows the real value (no accumulation of differences)
        ctl.t, ctl.h = t, float(s.value)
        try:
            ctl.outcome(nb, ok)
            stop = None
        except timectl.Stop as e:
            stop = str(e)
        if ok:
            t = t + float(s.value)
        try:
            s.adapt(t, nb, ok)
            err = None
        except ValueError as e:
            err = str(e)
        if (err is None) != (stop is None):
            raise Violation("after %s: error %r, expected %r" % ((nb, ok), err, stop))
        if err:
            return n
        if not abs(float(s.value) - ctl.h) <= 1e-9 * ctl.h + 1e-12 * t:
            raise Violation("step size %r after (nb_it=%s, converged=%s) at t=%r, expected %r" % (float(s.value), nb, ok, t, ctl.h))
        n += 1
    return n


def check(c):
    if c["kind"] == "api":
        n = api(c)
        return {"nontrivial": n > 0, "labels": ["api"], "sub": n}
    outs = [tuple(o) for o in c["outcomes"]]
    want, stop = timectl.simulate(c["dt"], c["final"], outs)
    sim, ts, err = c01.execute(c)
    if (err is None) != (stop is None):
        raise Violation("run ended with %r, expected %r" % (err, stop))
    if len(ts) != len(want):
        raise Violation("solution times %s, expected %s" % (ts, want))
    for a, b in zip(ts, want):
        if not abs(a - b) <= 1e-9 * abs(b):
            raise Violation("solution times %s, expected %s" % (ts, want))
    labels = ["run", "stopped" if stop else "finished"]
    for k in ("milestones", "max_stepsize", "t_stop", "stepsize_change_ratio"):
        if c["dt"].get(k):
            labels.append(k)
    if any(not o[1] for o in outs):
        labels.append("failures")
    return {"nontrivial": len(want) > 1, "labels": labels, "sub": len(ts)}
