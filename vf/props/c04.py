"""Conservation of hydrogen over every step."""
import numpy as np
from hypothesis import strategies as st
from .. import ex, gen, model, timectl
from ..core import Violation, near
from ..ref import arr

RULE = (
    "a case counts when hydrogen is present and it moves (the inventory or its distribution changed by more "
    "than 1e-3 of the inventory over the run); distinct by the whole case"
)
BUDGET = {"quick": {"cases": 240, "seconds": 120}, "thorough": {"cases": 6000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    sk = g.chance(1, 4)
    chem = g.chance(1, 3)
    c = gen.problem(
        g, transient=True, geo=("1d",) if sk else ("1d", "1d", "1d", "2d", "cyl1", "cyl2") * 2 + ("3d",), nmat=(1, 3),
        chem=chem, soret=not sk and g.chance(1, 3), traps=(0, 2),
        T="solve" if g.chance(1, 4) else "val", uniformT=sk,
        bc_mix=("none",) if sk else ("f", "f", "ff", "none"),
        flux_kinds=("flux", "rec", "dis", "mass", "custom"),
        sources=3, source_kinds=("src", "src", "imp", "decay"), dt_n=(3, 6),
    )
    tf = c["settings"]["final"]
    if sk:
        k = g.pick(1, 2, [1, 2], [2, 1])
        c["bcs"].append(gen.sk(g, k, tf))
        if not isinstance(k, list):
            c["bcs"].insert(g.int(0, 1), gen.flux(g, 3 - k, tf, ("flux", "rec", "mass")))
    if not any(i["field"] in (0, "0", "solute") for i in c["ics"]) and g.chance(2, 3):
        c["ics"].append({"field": 0, "v": g.spec(g.log(0.2, 1.5) * g.cs, ("const", "xlin"))})
    if not chem and g.chance(1, 6):
        idx = [g.int(0, len(c["mats"]) - 1)]
        c["traps"].append(gen.ext_trap(g, idx, tf))
    gen.merge_surfaces(g, c) if not sk else None
    c["fails"] = []
    if isinstance(c["dt"], dict) and g.chance(1, 3):
        c["fails"] = [g.chance(1, 3) for _ in range(g.int(1, 6))]
    return c


def strategy(tier):
    return case(tier)


def amounts(M, s):
    """-> list of (name, amount per field), and the weighted integral of |.|"""
    m = M.m
    W = m.W * (m.jac() if m.coords == "cylindrical" else 1.0)
    out = []
    cq = np.zeros(W.shape)
    uq, gu = m.q(m.cg(s["u"])), m.grad(m.cg(s["u"]))
    Tq, gT = m.q(m.cg(s["T"])), m.grad(m.cg(s["T"]))
    for mat in M.case["mats"]:
        k = m.mask(model.aslist(mat["id"]))
        cq[k] = M.conc(mat, uq, gu, Tq, gT)[0][k]
    out.append(cq * W)
    for ct in s["traps"]:
        out.append(m.q(ct) * W)
    for b in M.bcs:
        if b["type"] == "sk":
            off = M.sk_index(b)
            for j, su in enumerate(model.aslist(b["surf"])):
                a = s["ads"][off + j]
                cm = M.sk_fluxes(b, j, su, s["u"], s["T"], a, 0.0)[1]
                out.append(np.array([a, b["lam"] * cm]))
    return out, cq


def gains(M, s, am, cq, t):
    """rates of gain, one number each"""
    m = M.m
    W = m.W * (m.jac() if m.coords == "cylindrical" else 1.0)
    g = []
    for q in M.case.get("sources", []):
        if q.get("field") == "T":
            continue
        k = m.mask(model.aslist(q["vol"]))[:, None]
        ty = q.get("type", "src")
        if ty == "decay":
            f = q["field"]
            n = len(s["traps"])
            idx = range(n + 1) if f == "all" else [0] if f in ("0", "solute") else [int(f)]
            for i in idx:
                x = am[i]
                if i == 0 and M.chem and M.coarse is None:
                    # an interpolated solubility is within the tolerance
                    x = np.zeros_like(x)
                    for mat in M.case["mats"]:
                        z = m.mask(model.aslist(mat["id"]))
                        S = arr(mat["S0"], mat["ES"], m.q(m.cg(s["T"])))
                        x[z] = (am[0] / S * m.q(M.cell_S(mat, s["T"])))[z]
                g.append(-q["lam"] * float(np.sum(x * k)))
        elif ty == "imp":
            gs = lambda x: model.implanted(q, x, t)
            prof = gs(m.Xq) if M.coarse is None else m.p2(gs)
            g.append(float(np.sum(prof * W * k)))
        else:
            g.append(float(np.sum(ex.val(q["v"], m.Xq, t) * W * k)))
    for b in M.bcs:
        if b.get("field") == "T" or b["type"] == "conv":
            continue
        if b["type"] == "sk":
            off = M.sk_index(b)
            for j, su in enumerate(model.aslist(b["surf"])):
                g.append(M.sk_fluxes(b, j, su, s["u"], s["T"], s["ads"][off + j], t)[2])
            continue
        for key, ci, k, tag in m.facets:
            if tag in model.aslist(b["surf"]):
                Xf, wf, Nf = m.facet_quad(key)
                v = M.flux_value(b, Xf, M.facet_c(s["u"], s["T"], Nf, key, ci), Nf @ s["T"][list(key)], t)
                if m.coords == "cylindrical":
                    v = v * Xf[:, 0]
                g.append(float(np.sum(v * wf)))
    return g


def balance(M, a, b):
    dt = b["t"] - a["t"]
    A, _ = amounts(M, a)
    B, cq = amounts(M, b)
    G = gains(M, b, B, cq, b["t"])
    terms = np.array([float(np.sum(y - x)) for x, y in zip(A, B)] + [-dt * x for x in G])
    scale = sum(float(np.sum(np.abs(y - x))) for x, y in zip(A, B)) + dt * sum(map(abs, G))
    inv = sum(float(np.sum(np.abs(y))) for y in B)
    return terms, scale, inv


def check(c):
    hook = None
    if any(c["fails"]):
        hook = lambda sim: timectl.faulty(sim, [(3, not f) for f in c["fails"]])
    sim, states = model.run(c, hook=hook)
    M = model.Model(c, sim)
    moved = 0.0
    n = len(M.m.X)
    for a, b in zip(states[:-1], states[1:]):
        terms, scale, inv = balance(M, a, b)
        lo = balance(M.coarse, a, b)[0]
        d = terms.sum()
        # sensitivity to quadrature, also without cancellation of terms
        quad = max(5 * abs(d - lo.sum()), 2 * np.abs(terms - lo).sum())
        r = np.abs(M.m.X[:, 0]).max() if M.m.coords == "cylindrical" else 1.0
        tol = {"1d": 1e-6, "2d": 1e-5, "3d": 1e-4}[c["mesh"]["kind"]] * scale + 1e-10 * inv + quad
        tol += 3 * n**0.5 * c["settings"]["atol"] * (b["t"] - a["t"]) * r * (2 + len(c["traps"]))
        near(abs(d) / tol, "inventory in %s" % c["mesh"]["kind"])
        if not abs(d) <= tol:
            raise Violation(
                "inventory changed by %.6e more than the net gain at t=%s (exchanged amount %.3e, tolerance %.1e)"
                % (d, b["t"], scale, tol)
            )
        moved = max(moved, scale / max(inv, 1e-300))
    return {"nontrivial": moved > 1e-3, "labels": model.labels(c) + (["failed-steps"] if any(c["fails"]) else []), "sub": len(states) - 1}
