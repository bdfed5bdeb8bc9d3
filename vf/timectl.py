"""Time stepping: generator, reference controller and a Newton solver whose
outcomes follow a generated schedule."""
import numpy as np
from .core import Violation, Inconclusive

RTOL = 1e-5  # relative precision with which FESTIM compares times


def close(a, b):
    return abs(a - b) <= RTOL * abs(b)


def cap_at(dt, t):
    """max_stepsize of the spec at time t (None: no limit)"""
    if dt.get("t_stop") is not None:
        return dt["stepsize_stop_max"] if t >= dt["t_stop"] else None
    ms = dt.get("max_stepsize")
    if isinstance(ms, list):
        return next((c for t0, c in reversed(ms) if t >= t0), None)
    return ms


def stepsize_kwargs(dt):
    d = {k: v for k, v in dt.items() if v is not None}
    ms = d.get("max_stepsize")
    if isinstance(ms, list):
        tab = ms
        d["max_stepsize"] = lambda t: next((c for t0, c in reversed(tab) if t >= t0), None)
    return d


class Stop(Exception):
    pass


class Controller:
    """reference: the documented step size controller"""

    def __init__(self, dt, final, extra=()):
        self.dt, self.final = dt, final
        ms = list(dt.get("milestones") or []) + list(extra)
        self.ms = sorted(set(ms))
        self.t = 0.0
        self.h = dt["initial_value"]
        self.clip()

    def clip(self):
        for m in self.ms:
            if m > self.t and not close(self.t, m):
                if self.t + self.h > m:
                    self.h = m - self.t
                break
        if self.final is not None and self.t + self.h > self.final:
            self.h = self.final - self.t

    def outcome(self, nb, ok):
        """one attempt"""
        r = self.dt.get("stepsize_change_ratio")
        if ok:
            self.t += self.h
            if r:
                self.h = self.h * r if nb < 5 else self.h / r
        else:
            if not r or self.dt.get("dt_min") is None:
                raise Stop("cannot be reduced")
            self.h /= r
            if self.h < self.dt["dt_min"]:
                raise Stop("below dt_min")
        if r:
            c = cap_at(self.dt, self.t)
            if c is not None and self.h > c:
                self.h = c
        self.clip()

    def done(self):
        return self.t >= self.final or close(self.t, self.final)


def simulate(dt, final, outcomes, extra=(), limit=200):
    """expected solution times; outcomes: list of (nb, ok), then (1, True)"""
    c = Controller(dt, final, extra)
    times, k = [], 0
    while not c.done():
        o = outcomes[k] if k < len(outcomes) else (1, True)
        k += 1
        if k > limit:
            raise OverflowError
        try:
            c.outcome(*o)
        except Stop as e:
            return times, str(e)
        if o[1]:
            times.append(c.t)
    return times, None


def faulty(sim, outcomes, corrupt=True, after=None):
    """user supplied Newton solver: solves as usual but reports the scheduled
    number of iterations, or fails (leaving a corrupted vector behind);
    after: number of iterations reported when the schedule is over (default: the real one)"""
    import fenics as f

    class Faulty(f.NewtonSolver):
        k = fails = 0

        def solve(self, problem, vec):
            o = outcomes[Faulty.k] if Faulty.k < len(outcomes) else None
            Faulty.k += 1
            if o is not None and not o[1]:
                Faulty.fails += 1
                if corrupt:
                    v = vec.get_local()
                    vec.set_local(v * 1.5 + 1e3 * (np.abs(v).max() + 1.0))
                    vec.apply("insert")
                return 30, False
            nb, ok = f.NewtonSolver.solve(self, problem, vec)
            if not ok:
                raise Inconclusive("the solve itself did not converge")
            return (o[0] if o is not None else after or nb), ok

    s = Faulty()
    old = sim.h_transport_problem.newton_solver
    for k in ("error_on_nonconvergence", "absolute_tolerance", "relative_tolerance", "maximum_iterations", "linear_solver"):
        s.parameters[k] = old.parameters[k]
    sim.h_transport_problem.newton_solver = s
    return Faulty


def gen_time(g, fails=True, adaptive=None, max_steps=60, ts=None):
    """-> dict(dt, final, outcomes)"""
    ts = ts if ts is not None else g.pick(1.0, 1.0, 1e-9, 1e-3, 1e4, 1e8)
    final = float("%.7g" % (ts * g.num(0.5, 2.0)))
    ad = g.chance(2, 3) if adaptive is None else adaptive
    dt = {"initial_value": float("%.7g" % (final * g.log(0.02, 3.0)))}
    if g.chance(1, 4):  # commensurate with the final time
        dt["initial_value"] = final / g.int(1, 12)
    elif g.chance(1, 4):  # a short decimal number
        dt["initial_value"] = float("%.1e" % (final * g.log(0.05, 0.3)))
    if ad:
        dt["stepsize_change_ratio"] = g.pick(1.0, g.num(1.01, 1.5), g.num(1.5, 3.0))
        if g.chance(1, 4):
            dt["initial_value"] *= 1e-3
            dt["stepsize_change_ratio"] = g.num(2.0, 4.0)
        if g.chance(3, 4):
            dt["dt_min"] = dt["initial_value"] * g.pick(1e-4, 1e-2, 0.3)
        k = g.pick("none", "none", "num", "tab", "stop")
        if k == "num":
            dt["max_stepsize"] = final * g.log(0.04, 1.0)
        elif k == "tab":
            cut = sorted(final * g.num(0.05, 0.9) for _ in range(g.int(1, 2)))
            dt["max_stepsize"] = [[c, g.pick(None, final * g.log(0.04, 0.5))] for c in cut]
            if g.chance():
                dt["max_stepsize"].insert(0, [0.0, final * g.log(0.04, 0.5)])
        elif k == "stop":
            dt["t_stop"] = final * g.num(0.1, 0.8)
            dt["stepsize_stop_max"] = final * g.log(0.04, 0.5)
    if g.chance(2, 3):
        dt["milestones"] = times(g, final, dt)
    outcomes = []
    for _ in range(g.int(0, 25)):
        if fails and ad and dt.get("dt_min") and dt["stepsize_change_ratio"] > 1 and g.chance(1, 5):
            outcomes.append([30, False])
        else:
            outcomes.append([g.pick(1, 2, 4, 5, 6, 12), True])
    if not ad and g.chance(1, 2):
        outcomes = []
    out = {"dt": dt, "final": final, "outcomes": outcomes}
    bound(out, max_steps)
    return out


def bound(c, max_steps, extra=()):
    """by construction: at most max_steps attempts (else coarser steps)"""
    for _ in range(6):
        try:
            simulate(c["dt"], c["final"], c["outcomes"], extra, max_steps)
            return
        except OverflowError:
            d = c["dt"]
            d["initial_value"] = max(d["initial_value"], c["final"] * 0.05)
            if "stepsize_change_ratio" not in d or d["stepsize_change_ratio"] < 1.3:
                d["stepsize_change_ratio"] = 1.3 + 0.2 * len(d)
            c["outcomes"] = c["outcomes"][:10]
            for k in ("max_stepsize", "t_stop", "stepsize_stop_max"):
                d.pop(k, None)
    c["outcomes"] = []


def times(g, final, dt):
    n = g.int(1, 6)
    out = []
    for _ in range(n):
        k = g.pick("any", "any", "any", "grid", "near", "beyond", "final", "dup", "early", "pair", "pair")
        if k == "any":
            out.append(float("%.6g" % (final * g.num(0.01, 0.99))))
        elif k == "grid":
            m = dt["initial_value"] * g.int(1, 5)
            out.append(m)
        elif k == "pair":
            # one that equal steps reach up to rounding, and another within the next step
            h = dt["initial_value"]
            m = float("%.12g" % (h * g.int(2, 9)))
            out += [m, m + h * g.num(0.1, 0.95)]
        elif k == "near" and out:
            out.append(out[-1] * (1 + g.pick(1e-3, 2e-2)))
        elif k == "beyond":
            out.append(final * g.num(1.1, 3.0))
        elif k == "final":
            out.append(final)
        elif k == "dup" and out:
            out.append(out[0])
        elif k == "early":
            out.append(final * g.log(1e-4, 1e-2))
    return separate(out) or [final * 0.5]


def separate(out):
    """milestones that differ by less than the comparison precision of the
    code are merged (they are the same time for FESTIM)"""
    res = []
    for m in out:
        if any(m != o and abs(m - o) <= 20 * RTOL * max(m, o) for o in res):
            continue
        res.append(m)
    return res
