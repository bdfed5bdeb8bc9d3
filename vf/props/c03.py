"""Failed nonlinear solves: fault injection through the user's Newton solver,
and real non-convergence through a small iteration limit."""
from hypothesis import strategies as st
from .. import gen, model, timectl
from ..core import Violation, Inconclusive

RULE = (
    "a case counts when at least one solve failed (injected with a corrupted solution vector, or a real "
    "one) and either the run went on, all accepted steps being judged by the reference equations, or the "
    "documented error was raised; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 200, "seconds": 130}, "thorough": {"cases": 5000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    kind = g.pick("retry", "retry", "retry", "retry", "real", "fixed", "nomin", "below", "steady", "steadyreal")
    c = gen.problem(
        g,
        transient=kind not in ("steady", "steadyreal"),
        geo=("1d", "1d", "1d", "2d"),
        nmat=(1, 2),
        chem=kind == "retry" and g.chance(1, 4),
        traps=(0, 2) if kind != "real" else (1, 1),
        T="solve" if g.chance(1, 4) and kind == "retry" else "val",
        bc_mix=("d", "f", "none"),
        flux_kinds=("flux", "rec", "mass", "custom", "dis"),
        sources=1,
    )
    c["kind"] = kind
    if c["settings"].get("transient", True):
        tf = c["settings"]["final"]
        if c["T"]["kind"] == "val" and g.chance():
            v = c["T"]["v"]["p"][0] if isinstance(c["T"]["v"], dict) else c["T"]["v"]
            c["T"]["v"] = {"k": "tlin", "p": [v, g.num(0.02, 0.2) / tf]}
        h = tf / (g.int(2, 4) + g.num(0.0, 0.4))
        d = {"initial_value": float("%.6g" % h), "stepsize_change_ratio": g.num(1.1, 2.5), "dt_min": 1e-8 * tf}
        if g.chance(1, 3):
            d["milestones"] = [float("%.6g" % (tf * g.num(0.1, 0.9))) for _ in range(g.int(1, 2))]
        if kind == "fixed":
            d = {"initial_value": d["initial_value"]}
        if kind == "nomin":
            d.pop("dt_min")
        c["dt"] = d
        outs = []
        if kind == "retry":
            for _ in range(g.int(1, 8)):
                outs.append([30, False] if g.chance(2, 5) else [g.pick(1, 3, 7), True])
            if all(o[1] for o in outs):
                outs[g.int(0, len(outs) - 1)] = [30, False]
        elif kind in ("fixed", "nomin"):
            outs = [[3, True]] * g.int(0, 2) + [[30, False]]
        elif kind == "below":
            n = g.int(1, 4)
            # dt_min between the n-1 th and the n-th reduction of the step
            d["dt_min"] = d["initial_value"] / d["stepsize_change_ratio"] ** (n - 0.5)
            d.pop("milestones", None)
            outs = [[30, False]] * n
        c["outcomes"] = outs
        if kind == "real":
            c["settings"]["maxit"] = g.int(2, 4)
            d["dt_min"] = 0.05 * d["initial_value"]
            d["stepsize_change_ratio"] = g.num(1.5, 2.5)
    else:
        c["outcomes"] = [[30, False]]
        if kind == "steadyreal":
            c["settings"]["maxit"] = 1
    return c


def strategy(tier):
    return case(tier)


def run(c):
    sim, rec = model.build(c)
    err = None
    tried = {"fails": 0}
    with model.Guard(600):
        sim.initialise()
        s0 = model.state(sim, prev=True)
        s0["t"] = 0.0
        if c["T"]["kind"] == "solve" and c["T"]["transient"]:
            s0["T"] = model.nodal(sim.T.T_n)
        if c["kind"] in ("real", "steadyreal"):
            real(sim, tried)
        else:
            F = timectl.faulty(sim, [tuple(o) for o in c["outcomes"]])
        try:
            sim.run()
        except ValueError as e:
            err = str(e)
    if c["kind"] not in ("real", "steadyreal"):
        tried["fails"] = F.fails
    return sim, [s0] + rec.steps, err, tried


def real(sim, tried):
    import fenics as f

    class Count(f.NewtonSolver):
        def solve(self, problem, vec):
            nb, ok = f.NewtonSolver.solve(self, problem, vec)
            tried["fails"] += not ok
            tried["last"] = ok
            return nb, ok

    s, old = Count(), sim.h_transport_problem.newton_solver
    for k in ("error_on_nonconvergence", "absolute_tolerance", "relative_tolerance", "maximum_iterations", "linear_solver"):
        s.parameters[k] = old.parameters[k]
    sim.h_transport_problem.newton_solver = s


def check(c):
    sim, states, err, tried = run(c)
    kind = c["kind"]
    labels = [kind] + model.labels(c)
    fails = tried["fails"]
    if kind == "steady":
        if err is None:
            raise Violation("a steady run that did not converge ended without an error")
        return {"nontrivial": True, "labels": labels, "sub": 1}
    if kind == "steadyreal":
        if (err is None) != bool(tried["last"]):
            raise Violation("steady solve converged=%s but the run ended with %r" % (tried["last"], err))
        return {"nontrivial": not tried["last"], "labels": labels, "sub": 1}
    M = model.Model(c, sim)
    n = len(states)
    model.check_mobile(M, states)
    model.check_traps(M, states)
    model.check_dirichlet(M, states, rel=1e-8)
    if c["T"]["kind"] == "solve":
        model.check_heat(M, states)
    else:
        model.check_T(M, states)
    if kind in ("fixed", "nomin", "below"):
        if fails and err is None:
            raise Violation("%s: the failed solve was not reported" % kind)
        k = sum(o[1] for o in c["outcomes"])
        if n - 1 != min(k, n - 1) or n - 1 > k:
            raise Violation("%s: %d solutions although only %d solves converged" % (kind, n - 1, k))
    elif kind == "retry":
        if err is not None:
            raise Violation("run stopped with %r" % err)
        if not timectl.close(states[-1]["t"], c["settings"]["final"]):
            raise Violation("run ended at %r" % states[-1]["t"])
    else:
        if err is None:
            if not timectl.close(states[-1]["t"], c["settings"]["final"]):
                raise Violation("run ended at %r" % states[-1]["t"])
        elif fails == 0:
            raise Violation("run stopped with %r although every solve converged" % err)
    return {"nontrivial": fails > 0, "labels": labels, "sub": model.count(M, states)}
