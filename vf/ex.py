"""Symbolic scalars of generated cases.

A spec is a JSON value: a plain number, or {"k": kind, "p": [numbers]}.
``sym`` gives the sympy/float object handed to FESTIM; ``val`` evaluates it
independently with numpy at points X (n, d) and time t.
"""
import numpy as np


def sym(s):
    import sympy as sp
    import festim as F

    if not isinstance(s, dict):
        return s
    if s.get("as"):
        return fenics_object(s)
    k, p = s["k"], s["p"]
    x, y, z, t = F.x, F.y, F.z, F.t
    if k == "xlin":
        return p[0] * (1.0 + p[1] * x)
    if k == "xylin":
        return p[0] * (1.0 + p[1] * x + p[2] * y)
    if k == "xyz":
        return p[0] * (1.0 + p[1] * x + p[2] * y + p[3] * z)
    if k == "xyzt":
        return p[0] * (1.0 + p[1] * x + p[2] * y + p[3] * z) * (1.0 + p[4] * t)
    if k == "tlin":
        return p[0] * (1.0 + p[1] * t)
    if k == "xt":
        return p[0] * (1.0 + p[1] * x) * (1.0 + p[2] * t)
    if k == "xpt":
        return p[0] * (1.0 + p[1] * x + p[2] * t)
    if k == "step":  # value p0 for t <= p2, p1 afterwards
        return sp.Piecewise((p[0], t <= p[2]), (p[1], True))
    if k == "xstep":
        return sp.Piecewise((p[0] * (1.0 + p[3] * x), t <= p[2]), (p[1], True))
    if k == "sin":
        return p[0] * (1.0 + p[1] * sp.sin(p[2] * t))
    if k == "texp":
        return p[0] * (1.0 + p[1] * sp.exp(-p[2] * t))
    if k == "tquad":
        return p[0] * (1.0 + p[1] * t * t)
    if k == "xquad":
        return p[0] * (1.0 + p[1] * x + p[2] * x * x)
    if k == "bool":  # p0 * (t < p1)  (python comparison of the docs' examples)
        return sp.Piecewise((p[0], t < p[1]), (0.0, True))
    raise KeyError(k)


def fenics_object(s):
    """the same value as a fenics Expression or UserExpression"""
    import fenics as f
    import sympy as sp

    v = {k: x for k, x in s.items() if k != "as"}
    if s["as"] == "expr":
        return f.Expression(sp.printing.ccode(sym(v)), t=0, degree=2)

    class Given(f.UserExpression):
        def __init__(self, **kw):
            super().__init__(**kw)
            self.t = 0.0

        def eval(self, value, x):
            value[0] = val(v, np.atleast_1d(x)[None], self.t)[0]

        def value_shape(self):
            return ()

    return Given(degree=2)


def val(s, X, t):
    X = np.asarray(X, float)
    n = X.shape[:-1]
    if not isinstance(s, dict):
        return np.full(n, float(s))
    k, p = s["k"], s["p"]
    x = X[..., 0]
    y = X[..., 1] if X.shape[-1] > 1 else 0.0 * x
    z = X[..., 2] if X.shape[-1] > 2 else 0.0 * x
    one = np.ones(n)
    if k == "xlin":
        return p[0] * (1 + p[1] * x)
    if k == "xylin":
        return p[0] * (1 + p[1] * x + p[2] * y)
    if k in ("xyz", "xyzt"):
        return p[0] * (1 + p[1] * x + p[2] * y + p[3] * z) * (1 + p[4] * t if k == "xyzt" else 1.0)
    if k == "tlin":
        return p[0] * (1 + p[1] * t) * one
    if k == "xt":
        return p[0] * (1 + p[1] * x) * (1 + p[2] * t)
    if k == "xpt":
        return p[0] * (1 + p[1] * x + p[2] * t)
    if k == "step":
        return (p[0] if t <= p[2] else p[1]) * one
    if k == "xstep":
        return p[0] * (1 + p[3] * x) if t <= p[2] else p[1] * one
    if k == "sin":
        return p[0] * (1 + p[1] * np.sin(p[2] * t)) * one
    if k == "texp":
        return p[0] * (1 + p[1] * np.exp(-p[2] * t)) * one
    if k == "tquad":
        return p[0] * (1 + p[1] * t * t) * one
    if k == "xquad":
        return p[0] * (1 + p[1] * x + p[2] * x * x)
    if k == "bool":
        return (p[0] if t < p[1] else 0.0) * one
    raise KeyError(k)


def is_t(s):
    return isinstance(s, dict) and s["k"] not in ("xlin", "xylin", "xyz", "xquad")


def breaks(s):
    """times at which the spec is discontinuous"""
    if isinstance(s, dict):
        if s["k"] in ("step", "xstep"):
            return [s["p"][2]]
        if s["k"] == "bool":
            return [s["p"][1]]
    return []
