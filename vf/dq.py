"""Derived quantities: generator, construction and reference values."""
import numpy as np
from . import model
from .model import aslist, tval
from .ref import arr, KB

PI = np.pi


def fields(c, chem_ok=True):
    """documented names of the fields of the case"""
    out = ["solute", "0", 0, "T", "retention"]
    for i, t in enumerate(c.get("traps", [])):
        k = t.get("id") or i + 1
        out += [k, str(k)]
    return out


def angles(g, lo, hi):
    a, b = sorted([g.num(0.0, 1.0), g.num(0.0, 1.0)])
    if b - a < 0.05:
        a, b = 0.0, 1.0
    return [lo + (hi - lo) * a, lo + (hi - lo) * b]


def gen(g, c, kinds=None):
    """one quantity spec valid for the geometry of the case"""
    from . import gen as G

    coords = c["mesh"].get("coords", "cartesian")
    vols, surfs = G.volumes(c["mats"]), G.surfaces(c["mesh"])
    heat = c["T"]["kind"] == "solve"
    k = g.pick(*(kinds or ("TotalVolume", "AverageVolume", "TotalSurface", "AverageSurface", "SurfaceFlux", "SurfaceFlux", "MaximumVolume", "MinimumVolume", "MaximumSurface", "MinimumSurface", "PointValue")))
    q = {"q": k}
    fl = fields(c)
    if k == "SurfaceFlux":
        fl = ["solute", "0", 0] + (["T"] if heat else [])
    q["field"] = g.pick(*fl)
    if k.endswith("Volume"):
        q["id"] = g.pick(*vols)
    elif k != "PointValue":
        q["id"] = g.pick(*surfs)
    if k == "PointValue":
        m = c["mesh"]
        f = g.num(0.02, 0.98)
        if m["kind"] == "1d":
            x = m["verts"][0] + f * (m["verts"][-1] - m["verts"][0])
            q["x"] = g.pick(x, [x]) if not g.chance(1, 5) else g.pick(m["verts"][0], m["verts"][-1])
        else:
            q["x"] = [m["x0"] + f * m["lx"], g.num(0.02, 0.98) * m["ly"]]
            if m["kind"] == "3d":
                q["x"].append(g.num(0.02, 0.98) * m["lz"])
    if coords == "cylindrical" and k in ("TotalVolume", "TotalSurface", "SurfaceFlux") and g.chance():
        q["az"] = angles(g, 0.0, 2 * PI)
    if coords == "spherical":
        if k in ("TotalVolume", "TotalSurface"):
            if g.chance():
                q["az"] = angles(g, 0.0, 2 * PI)
            if g.chance():
                q["pol"] = angles(g, 0.0, PI)
        if k == "SurfaceFlux":
            if g.chance():
                q["az"] = angles(g, 0.0, PI)
            if g.chance():
                q["pol"] = angles(g, -PI, PI)
    if k == "SurfaceFlux" and coords == "cartesian":
        if q["field"] == "solute" and g.chance(1, 3):
            q["q"] = "HydrogenFlux"
        if q["field"] == "T" and g.chance(1, 3):
            q["q"] = "ThermalFlux"
    return q


def make(q, c):
    import festim as F

    coords = c["mesh"].get("coords", "cartesian")
    k = q["q"]
    suffix = {"cartesian": "", "cylindrical": "Cylindrical", "spherical": "Spherical"}[coords]
    kw = {}
    if "az" in q:
        kw["azimuth_range"] = tuple(q["az"])
    if "pol" in q:
        kw["polar_range"] = tuple(q["pol"])
    if k in ("HydrogenFlux", "ThermalFlux"):
        return getattr(F, k)(q["id"])
    if k == "PointValue":
        x = q["x"]
        return F.PointValue(q["field"], x)
    if k in ("TotalVolume", "AverageVolume", "TotalSurface", "AverageSurface", "SurfaceFlux"):
        return getattr(F, k + suffix)(q["field"], q["id"], **kw)
    return getattr(F, k)(q["field"], q["id"])


def cells(M, s, field):
    """cell-wise nodal values (nc, d+1) of a field of a recorded state"""
    m = M.m
    if field in ("solute", "0", 0):
        return s["c"]
    if field == "T":
        return m.cg(s["T"])
    if field == "retention":
        return s["c"] + sum(s["traps"]) if s["traps"] else s["c"]
    for i, t in enumerate(M.case["traps"]):
        if str(t.get("id") or i + 1) == str(field):
            return s["traps"][i]
    raise KeyError(field)


def factor(q, coords):
    if coords == "cartesian":
        return 1.0
    k = q["q"]
    if coords == "cylindrical":
        a = q.get("az", [0.0, 2 * PI])
        return a[1] - a[0]
    if k == "SurfaceFlux":
        a, p = q.get("az", [0.0, PI]), q.get("pol", [-PI, PI])
        return (p[1] - p[0]) * (np.cos(a[0]) - np.cos(a[1]))
    a, p = q.get("az", [0.0, 2 * PI]), q.get("pol", [0.0, PI])
    return (a[1] - a[0]) * (np.cos(p[0]) - np.cos(p[1]))


def weight(m, X):
    r = X[..., 0]
    return {"cartesian": 1.0 + 0 * r, "cylindrical": r, "spherical": r**2}[m.coords]


def facets(M, sid):
    """(cell, vertices' positions in the cell, quadrature points, weights, shape values)"""
    for key, ci, k, tag in M.m.facets:
        if tag == sid:
            Xf, wf, Nf = M.m.facet_quad(key)
            cell = M.m.cells[ci].tolist()
            yield ci, k, [cell.index(v) for v in key], Xf, wf, Nf


def value(M, s, q):
    """-> (candidates, tolerance)"""
    m, k = M.m, q["q"]
    field = {"HydrogenFlux": "solute", "ThermalFlux": "T"}.get(k) or q["field"]
    if k in ("HydrogenFlux", "ThermalFlux"):
        q = dict(q, q="SurfaceFlux")
        k = "SurfaceFlux"
    F = cells(M, s, field)
    if k in ("TotalVolume", "AverageVolume"):
        z = m.mask([q["id"]])[:, None]
        W = m.W * m.jac() * z
        fq = m.q(F)
        tot, mag = float(np.sum(fq * W)), float(np.sum(np.abs(fq) * W))
        f = factor(q, m.coords) if k == "TotalVolume" else 1.0 / float(np.sum(W))
        return [tot * f], 1e-9 * mag * abs(f)
    if k in ("TotalSurface", "AverageSurface"):
        tot = mag = area = 0.0
        for ci, _, pos, Xf, wf, Nf in facets(M, q["id"]):
            w = wf * weight(m, Xf)
            v = Nf @ F[ci][pos]
            tot += float(np.sum(v * w))
            mag += float(np.sum(np.abs(v) * w))
            area += float(np.sum(w))
        f = factor(q, m.coords) if k == "TotalSurface" else 1.0 / area
        return [tot * f], 1e-9 * mag * abs(f)
    if k == "SurfaceFlux":
        res = []
        for interp in (False, True):
            tot = mag = 0.0
            for ci, kk, pos, Xf, wf, Nf in facets(M, q["id"]):
                mat = M.mat_of(m.vol[ci])
                n = m.normal(ci, kk)
                Tn = s["T"][m.cells[ci]][pos]
                Tf = Nf @ Tn
                w = wf * weight(m, Xf)
                if field == "T":
                    prop = lambda T: tval(mat["lam"], T)
                else:
                    prop = lambda T: arr(mat["D0"], mat["ED"], T)
                Qf = (lambda T: tval(mat["Q"], T)) if M.soret and field != "T" else None

                def at(fun):
                    if not interp or m.d == 1:
                        return fun(Tf)
                    # quadratic interpolation on the facet
                    out = 0.0
                    for a in range(m.d):
                        out = out + fun(Tn[a]) * Nf[:, a] * (2 * Nf[:, a] - 1)
                        for b in range(a):
                            out = out + fun(0.5 * (Tn[a] + Tn[b])) * 4 * Nf[:, a] * Nf[:, b]
                    return out

                g = float(F[ci] @ m.G[ci] @ n)
                gm = float(np.abs(F[ci]) @ np.linalg.norm(m.G[ci], axis=1))
                p = at(prop)
                tot += float(np.sum(p * g * w))
                mag += float(np.sum(p * gm * w))
                if Qf is not None:
                    gT = float(s["T"][m.cells[ci]] @ m.G[ci] @ n)
                    cf = Nf @ F[ci][pos]
                    x = p * at(Qf) * cf / KB / Tf**2 * gT * w
                    tot += float(np.sum(x))
                    mag += float(np.sum(np.abs(x)))
            f = factor(q, m.coords)
            res.append((tot * f, mag * abs(f)))
        (a, mag), (b, _) = res
        # Soret: the quadrature of 1/T**2 along an edge
        extra = 1e-6 if M.soret and m.d > 1 else 0.0
        return [a], (1e-9 + extra) * mag + 5 * abs(a - b)
    if k in ("MaximumVolume", "MinimumVolume"):
        v = F[m.mask([q["id"]])]
    elif k in ("MaximumSurface", "MinimumSurface"):
        v = np.concatenate([F[ci][pos] for ci, _, pos, _, _, _ in facets(M, q["id"])])
    else:  # PointValue
        x = np.atleast_1d(np.asarray(q["x"], float))
        P = m.X[m.cells]
        E = P[:, 1:, :] - P[:, :1, :]
        lam = np.linalg.solve(np.transpose(E, (0, 2, 1)), (x[None] - P[:, 0])[..., None])[..., 0]
        bary = np.concatenate([1 - lam.sum(1, keepdims=True), lam], 1)
        hit = np.flatnonzero(bary.min(1) >= -1e-7)
        c = [float(bary[i] @ F[i]) for i in hit]
        return c, 1e-8 * float(np.abs(F[hit]).max())
    e = float(v.max() if k.startswith("Max") else v.min())
    return [e], 1e-12 * float(np.abs(v).max())


def judge(M, s, q, got, where=""):
    from .core import Violation, near

    want, tol = value(M, s, q)
    near(min(abs(got - w) for w in want) / max(tol, 1e-300), q["q"])
    if not any(abs(got - w) <= tol for w in want):
        raise Violation("%s%s: %r instead of %r (tolerance %.1e) at t=%s" % (where, q, got, want[0], tol, s["t"]))
