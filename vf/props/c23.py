"""Two descriptions of one physical problem: metamorphic comparison."""
import numpy as np
from hypothesis import strategies as st
from .. import dq, gen, model, rewrite
from ..core import Violation, near
from ..model import aslist

RULE = (
    "a case counts when at least one rewriting applied to the model and the solution varies in space or time; distinct by the whole case (model and rewritings)"
)
BUDGET = {"quick": {"cases": 320, "seconds": 150}, "thorough": {"cases": 6000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    dims = gen.GEO_12 if g.ls == 1.0 else ("1d", "1d", "cyl1", "sph")
    kind = g.pick("plain", "traps", "traps", "traps", "chem", "chem", "soret", "heat", "sk", "ext")
    tr = True if kind in ("sk", "ext") else g.chance(3, 4)
    c = gen.problem(
        g, transient=tr, nmat=(1, 3), chem=kind == "chem" or (kind == "sk" and g.chance(1, 5)), soret=kind == "soret",
        traps=(1, 3) if kind == "traps" else (0, 1), henry=kind == "chem" and g.chance(1, 2),
        geo=("1d",) if kind == "sk" else dims, bc_mix=("none",) if kind == "sk" else ("d", "f", "ff", "none"),
        bc_kinds=("dirichlet", "dirichlet", "sieverts", "henrys", "implant", "customd"),
        flux_kinds=("flux", "rec", "dis", "mass", "custom"), T="solve" if kind == "heat" else "val", uniformT=kind in ("chem", "sk"),
        sources=2, source_kinds=("src", "src", "imp", "decay"), dt_n=(2, 4), trap_bcs=kind == "traps" and g.chance(1, 4),
    )
    tf = c["settings"].get("final", 1.0)
    if kind == "sk":
        k = g.pick("list", "both", 1, 2)
        if k == "list":
            c["bcs"].append(gen.sk(g, g.pick([1, 2], [2, 1]), tf, True))
        elif k == "both":
            c["bcs"] += [gen.sk(g, 1, tf, True), gen.sk(g, 2, tf, True)]
        else:
            c["bcs"] += [gen.sk(g, k, tf, True), gen.flux(g, 3 - k, tf, ("flux", "mass"), True)]
    if kind == "ext":
        c["traps"].append(gen.ext_trap(g, [g.int(0, len(c["mats"]) - 1)], tf))
    def inside(s):
        """hydrogen is only put in traps where they exist"""
        f = s.get("field", "0")
        if s.get("type", "src") != "src" or f in rewrite.SOLUTE + ("T",):
            return True
        return set(aslist(s["vol"])) <= {v for i in c["traps"][int(f) - 1]["mats"] for v in aslist(c["mats"][i]["id"])}

    c["sources"] = [s for s in c["sources"] if inside(s)]
    if tr and isinstance(c["dt"], dict):
        c["dt"] = c["dt"]["initial_value"]  # steps do not depend on iteration counts
    if g.chance(1, 3):
        gen.merge_surfaces(g, c)
    c["dqs"] = [dq.gen(g, c) for _ in range(g.int(0, 3))]
    ops = []
    often = [k for k in ("order_mats", "order_lists", "order_traps") if k in rewrite.OPS]
    for _ in range(g.int(2, 7)):
        ops.append({"op": g.pick(*(sorted(rewrite.OPS) + often)), "r": [g.int(0, 999) for _ in range(5)]})
    return {"base": c, "ops": ops}


def strategy(tier):
    return case(tier)


def fscale(c, field, M):
    return 1.0 if field == "T" else M.a


def mapped(c, q, M):
    """[(spec, ...)] of the rewritten model with a way to combine them, and the
    factor its values have"""
    k = {"HydrogenFlux": "SurfaceFlux", "ThermalFlux": "SurfaceFlux"}.get(q["q"], q["q"])
    field = {"HydrogenFlux": "solute", "ThermalFlux": "T"}.get(q["q"], q["field"])
    out = [dict(q)]
    comb = sum
    how = None
    if str(field).isdigit() and field not in rewrite.SOLUTE:
        js = M.traps[int(field) - 1]
        out = [dict(q, field=type(field)(j + 1)) for j in js]
        if len(js) > 1:
            if k in ("MaximumVolume", "MinimumVolume", "MaximumSurface", "MinimumSurface"):
                return None
            how = "traps"
    if k.endswith("Volume"):
        vs = M.vol.get(q["id"], [q["id"]])
        if len(vs) > 1:
            if k == "AverageVolume" or (how and k != "TotalVolume"):
                return None
            comb = {"TotalVolume": sum, "MaximumVolume": max, "MinimumVolume": min}[k]
        out = [dict(o, id=v) for o in out for v in vs]
    elif k != "PointValue":
        out = [dict(o, id=M.surf.get(q["id"], q["id"])) for o in out]
    else:
        x = q["x"]
        f = lambda p: [M.mx[0] * p[0] + M.mx[1]] + [M.ly * y for y in p[1:]]
        out = [dict(o, x=f(x) if isinstance(x, list) else f([x])[0]) for o in out]
        if c["mesh"]["kind"] == "1d":
            v = c["mesh"]["verts"]
            for e in (min(v), max(v)):
                if np.ravel(x)[0] == e:  # end points exactly
                    return None
    g = c["mesh"]
    l = M.ly
    dim = 1 if g["kind"] == "1d" else 2
    pv = {"cartesian": dim, "cylindrical": dim + 1, "spherical": 3}[g.get("coords", "cartesian")]
    s = fscale(c, field, M)
    if k == "TotalVolume":
        s *= l**pv
    elif k == "TotalSurface":
        s *= l ** (pv - 1)
    elif k == "SurfaceFlux":
        s *= l / M.tau * l ** (pv - 1)
    return out, comb, s, field, k


class Grid:
    """matching of cells and vertices of the two meshes"""

    def __init__(self, s1, s2, M):
        X1, X2 = s1.mesh.mesh.coordinates(), s2.mesh.mesh.coordinates()
        Y = np.array(X1)
        Y[:, 0] = M.mx[0] * Y[:, 0] + M.mx[1]
        if Y.shape[1] > 1:
            Y[:, 1] *= M.ly
        if X1.shape != X2.shape:
            raise Violation("meshes of %d and %d vertices" % (len(X1), len(X2)))
        d = np.abs(Y[:, None, :] - X2[None, :, :]).max(2)
        self.v = d.argmin(1)
        h = np.ptp(X2, axis=0).max()
        if d.min(1).max() > 1e-9 * h or len(set(self.v)) != len(X1):
            raise Violation("the meshes do not have the same vertices")
        C1, C2 = s1.mesh.mesh.cells(), s2.mesh.mesh.cells()
        where = {tuple(sorted(c)): i for i, c in enumerate(C2.tolist())}
        self.c = []
        self.k = []
        for c in C1:
            w = [int(self.v[i]) for i in c]
            i = where[tuple(sorted(w))]
            self.c.append(i)
            self.k.append([C2[i].tolist().index(j) for j in w])
        self.c, self.k = np.array(self.c), np.array(self.k)

    def cells(self, a):
        return np.take_along_axis(a[self.c], self.k, 1)


def cmp(what, a, b, scale, rel=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    d = np.abs(a - b)
    if d.size and scale > 0:
        near(np.nan_to_num(d.max()) / (rel * scale), what)
    if not np.all(np.isfinite(d)) or d.max() > rel * scale:
        i = np.unravel_index(np.nanargmax(d), d.shape) if d.size else None
        raise Violation("%s: %r in one description, %r in the other (scale %.3g)" % (what, a[i], b[i], scale))


def adskeys(c):
    return [s for b in c["bcs"] if b["type"] == "sk" for s in aslist(b["surf"])]


def run(c, specs):
    import festim as F

    q = [dq.make(s, c) for s in specs]
    ex = [F.DerivedQuantities(q)] if q else []
    sim, states = model.run(c, exports=ex)
    return sim, states, [list(x.data) for x in q]


def check(case):
    c = case["base"]
    c2, M, done = rewrite.apply(c, case["ops"])
    qs = []
    for q in c.get("dqs", []):
        m = mapped(c, q, M)
        if m is not None:
            qs.append((q,) + m)
    s1, st1, d1 = run(c, [q[0] for q in qs])
    s2, st2, d2 = run(c2, [o for q in qs for o in q[1]])
    if len(st1) != len(st2):
        raise Violation("%s: %d steps in one description, %d in the other" % (done, len(st1) - 1, len(st2) - 1))
    G = Grid(s1, s2, M)
    chem = c["settings"].get("chem")
    tag = "+".join(done) + ": "
    tiny = 1e-12 * c["settings"]["atol"]
    mx = lambda k: max([tiny] + [float(np.abs(s[k]).max()) for s in st1 if k in s])
    cu, cT = mx("u"), mx("T")
    cc = max(mx("c"), 0.0 if chem else cu)
    tt = [max([cc] + [float(np.abs(s["traps"][i]).max()) for s in st1]) for i in range(len(M.traps))]
    k1, k2 = adskeys(c), adskeys(c2)
    sub = 0
    for i, (a, b) in enumerate(zip(st1, st2)):
        w = tag + "step %d, " % i
        cmp(w + "time", [a["t"] * M.tau], [b["t"]], max(st1[-1]["t"] * M.tau, 1e-300), 1e-9)
        cmp(w + "mobile", a["u"], b["u"][G.v] / (1.0 if chem else M.a), cu)
        cmp(w + "temperature", a["T"], b["T"][G.v], cT)
        if "c" in a:
            cmp(w + "concentration", a["c"], G.cells(b["c"]) / M.a, cc)
        for j, js in enumerate(M.traps):
            cmp(w + "trap %d" % (j + 1), a["traps"][j], sum(G.cells(b["traps"][x]) for x in js) / M.a, tt[j])
            if a["dens"][j] is not None and len(js) == 1:
                cmp(w + "density of trap %d" % (j + 1), a["dens"][j], b["dens"][js[0]][G.v] / M.a, np.abs(a["dens"][j]).max() + tiny)
        for s, v in zip(k1, a["ads"]):
            x = b["ads"][k2.index(M.surf.get(s, s))]
            bc = [y for y in c["bcs"] if y["type"] == "sk" and s in aslist(y["surf"])][0]
            cmp(w + "adsorbed on %s" % s, [v], [x / M.a / M.ly], bc["nsurf"])
        sub += a["u"].size * (2 + len(M.traps))
    j = 0
    V = c["mesh"]
    if V["kind"] == "1d":
        h = np.diff(sorted(set(V["verts"]))).min()
        meas = 4 * np.pi * max(np.abs(V["verts"])) ** 2 if V.get("coords") == "spherical" else 2 * np.pi * max(np.abs(V["verts"])) if V.get("coords") == "cylindrical" else 1.0
    else:
        h = min(V["lx"] / V["nx"], V["ly"] / V["ny"])
        meas = 2 * np.pi * (V["x0"] + V["lx"]) * (V["lx"] + V["ly"])
    for (q, outs, comb, s, field, k), v1 in zip(qs, d1):
        v2 = [comb(x) / s for x in zip(*[d2[j + i] for i in range(len(outs))])]
        j += len(outs)
        scale = max([abs(x) for x in v1] + [1e-300])
        if k == "SurfaceFlux":
            T = [s_["T"] for s_ in st1]
            Dm = max(m["D0"] * np.exp(-m["ED"] / 8.6173303e-5 / np.max(T)) for m in c["mats"])
            if field == "T":
                Dm = max(np.max(model.tval(m["lam"], np.array(T))) for m in c["mats"])
            scale += (cT if field == "T" else cc) * Dm / h * meas
        elif field != "T":
            vol = {"TotalVolume": 1, "TotalSurface": 1}.get(k)
            if vol:
                scale += 0.0
        if len(v1) != len(v2):
            raise Violation("%s%r: %d values and %d values" % (tag, q, len(v1), len(v2)))
        fs = cT if field == "T" else max([cc] + tt)
        if k in ("PointValue", "MaximumVolume", "MinimumVolume", "MaximumSurface", "MinimumSurface", "AverageVolume", "AverageSurface"):
            scale = max(scale, fs)
        else:
            scale = max(scale, 1e-2 * fs * {"TotalVolume": volume(c), "TotalSurface": meas}.get(k, 0.0))
        cmp(tag + "derived quantity %r" % q, v1, v2, scale)
        sub += len(v1)
    return {"nontrivial": bool(done) and model.varied(st1), "labels": ["op:" + d for d in done] + model.labels(c), "sub": sub}


def volume(c):
    V = c["mesh"]
    if V["kind"] == "2d":
        r = 2 * np.pi * (V["x0"] + V["lx"]) if V.get("coords") == "cylindrical" else 1.0
        return V["lx"] * V["ly"] * r
    v = np.abs(V["verts"]).max()
    L = np.ptp(V["verts"])
    return L * {"cylindrical": 2 * np.pi * v, "spherical": 4 * np.pi * v * v}.get(V.get("coords"), 1.0)
