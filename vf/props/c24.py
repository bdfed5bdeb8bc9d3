"""Lookups and conversions: generated collections, queries, files and expressions
against plain Python models of them."""
import numpy as np
from hypothesis import strategies as st
from .. import ex, files, gen
from ..core import Violation

RULE = (
    "a case counts when the collection has at least three items and some query matched some but not all "
    "of them, when several steps or labels were written, or when an expression of position or time was "
    "evaluated at several points and times; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 640, "seconds": 120}, "thorough": {"cases": 20000, "seconds": 3000}}

SURF = ("SurfaceFlux", "HydrogenFlux", "ThermalFlux", "TotalSurface", "AverageSurface", "MaximumSurface", "MinimumSurface", "AdsorbedHydrogen",
        "SurfaceFluxCylindrical", "TotalSurfaceSpherical")
VOL = ("TotalVolume", "AverageVolume", "MaximumVolume", "MinimumVolume", "TotalVolumeCylindrical", "AverageVolumeSpherical")
BASES = ("SurfaceQuantity", "VolumeQuantity", "DerivedQuantity")
# class -> classes it is a kind of (documented hierarchy)
KIND = {k: {k, "SurfaceQuantity", "DerivedQuantity"} for k in SURF}
KIND.update({k: {k, "VolumeQuantity", "DerivedQuantity"} for k in VOL})
KIND["HydrogenFlux"].add("SurfaceFlux")
KIND["ThermalFlux"].add("SurfaceFlux")
KIND["SurfaceFluxCylindrical"].add("SurfaceFlux")
KIND["TotalSurfaceSpherical"].add("TotalSurface")
KIND["TotalVolumeCylindrical"].add("TotalVolume")
KIND["AverageVolumeSpherical"].add("AverageVolume")
KIND["PointValue"] = {"PointValue", "DerivedQuantity"}


def some(g, xs):
    k = g.int(1, min(3, len(xs)))
    out = g.draw(st.lists(st.sampled_from(list(xs)), min_size=k, max_size=k, unique=True))
    return out[0] if k == 1 and g.chance() else out


@st.composite
def case(draw, tier):
    g = gen.G(draw)
    kind = g.pick("filter", "filter", "traps", "mats", "mats", "expr", "expr", "energy", "xdmf")
    c = {"kind": kind}
    if kind == "filter":
        top = g.int(1, 5)
        mob = g.pick("solute", "0", 0)
        fl = [mob, "T", "retention"] + ([1, 2] if g.chance() else ["1", "2"])
        c["items"] = []
        for _ in range(g.int(0, 10)):
            k = g.pick(*SURF, *VOL, "PointValue", "SurfaceFlux", "TotalVolume")
            c["items"].append([k, g.pick(*fl), g.int(1, top)])
        c["queries"] = []
        for _ in range(g.int(2, 6)):
            q = {}
            if g.chance():
                q["surfaces"] = some(g, range(1, top + 2))
            if g.chance(1, 3):
                q["volumes"] = some(g, range(1, top + 2))
            if g.chance():
                q["fields"] = some(g, fl + ["adsorbed"])
            if g.chance():
                q["instances"] = some(g, SURF + VOL + BASES + ("PointValue",))
            c["queries"].append(q)
    elif kind == "traps":
        n = g.int(1, 5)
        c["ids"] = draw(st.lists(st.integers(1, 12), min_size=n, max_size=n, unique=True))
        if g.chance(1, 3):
            c["ids"] = [None] * n
    elif kind == "mats":
        n = g.int(1, 5)
        pool = draw(st.lists(st.integers(1, 30), min_size=4 * n, max_size=4 * n, unique=True))
        names = draw(st.permutations(["a", "b", "ab", "tungsten", "W", "1", "cu"]))
        c["mats"] = []
        for i in range(n):
            c["mats"].append({"id": g.pick(pool[4 * i], pool[4 * i : 4 * i + g.int(1, 4)]), "name": g.pick(None, names[i])})
    elif kind == "energy":
        c["E"] = [g.num(-300, 300) for _ in range(g.int(1, 6))]
    elif kind == "expr":
        g.ls = g.pick(1.0, 1e-3)
        a = g.pick(1.0, 1e20, 1e-7) * g.num(0.3, 3)
        kinds = ("const", "xlin", "tlin", "xt", "xpt", "step", "sin", "texp", "tquad", "xquad", "bool", "xstep", "xylin")
        c["specs"] = [g._spec(a, kinds, 1.0) for _ in range(g.int(1, 3))]
        c["via"] = g.pick("as_expression", "as_constant_or_expression")
        c["pts"] = [[g.num(0, 1) * g.ls, g.num(0, 1) * g.ls] for _ in range(g.int(1, 3))]
        c["times"] = [g.num(0, 1.5) for _ in range(g.int(1, 4))]
    else:
        c["times"] = sorted(draw(st.lists(st.integers(1, 60), min_size=1, max_size=6, unique=True)))
        c["scale"] = g.pick(1.0, 0.1, 1e3, 1e-4)
        c["label"] = g.pick("mobile_concentration", "T", "some label", "x1")
        c["checkpoint"] = g.chance(3, 4)
    return c


def strategy(tier):
    return case(tier)


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def raises(fun, what):
    try:
        r = fun()
    except ValueError:
        return
    raise Violation("%s: returned %r instead of raising a ValueError" % (what, r))


def check(c):
    import festim as F

    return {"filter": do_filter, "traps": do_traps, "mats": do_mats, "energy": do_energy, "expr": do_expr, "xdmf": do_xdmf}[c["kind"]](F, c)


def aslist(v):
    return v if isinstance(v, list) else [v]


def do_filter(F, c):
    objs = []
    for k, f, i in c["items"]:
        if k in ("HydrogenFlux", "ThermalFlux", "AdsorbedHydrogen"):
            f = {"HydrogenFlux": "solute", "ThermalFlux": "T", "AdsorbedHydrogen": "adsorbed"}[k]
            o = getattr(F, k)(i)
        elif k == "PointValue":
            o = F.PointValue(f, [float(i)])
            i = None
        else:
            o = getattr(F, k)(f, i)
        objs.append((o, k, f, i if k in SURF else None, i if k in VOL else None))
    dq = F.DerivedQuantities([o[0] for o in objs])
    nt = False
    for q in c["queries"]:
        want = []
        for o, k, f, s, v in objs:
            if "surfaces" in q and s not in aslist(q["surfaces"]):
                continue
            if "volumes" in q and v not in aslist(q["volumes"]):
                continue
            if "fields" in q and not any(type(x) is type(f) and x == f for x in aslist(q["fields"])):
                continue
            if "instances" in q and not KIND[k] & set(aslist(q["instances"])):
                continue
            want.append(o)
        kw = dict(q)
        for name in ("surfaces", "volumes", "fields"):
            if isinstance(kw.get(name), list):
                kw[name] = list(kw[name])
        if "instances" in q:
            kw["instances"] = [cls(F, x) for x in q["instances"]] if isinstance(q["instances"], list) else cls(F, q["instances"])
        got = dq.filter(**kw)
        if len(want) == 1:
            if got is not want[0]:
                raise Violation("filter(%r): %r instead of the single match %r" % (q, got, want[0]))
        elif not (isinstance(got, list) and same(list(got), want)):
            raise Violation("filter(%r): %d items instead of the %d that match" % (q, len(aslist(got)), len(want)))
        nt = nt or 0 < len(want) < len(objs)
    if not same(list(dq), [o[0] for o in objs]):
        raise Violation("filtering changed the collection")
    return {"nontrivial": nt and len(objs) > 2, "labels": ["filter"], "sub": len(c["queries"])}


def cls(F, name):
    if name in ("SurfaceQuantity", "VolumeQuantity", "DerivedQuantity"):
        import festim.exports.derived_quantities.derived_quantity as m

        return getattr(m, name)
    return getattr(F, name)


def do_traps(F, c):
    mat = F.Material(1, 1, 0, name="a")
    traps = [F.Trap(1, 0, 1, 0, mat, 1, id=i) for i in c["ids"]]
    t = F.Traps(list(traps))
    t.assign_traps_ids()
    ids = [i if i is not None else k for k, i in enumerate(c["ids"], 1)]
    for i in range(0, 14):
        if i in ids:
            if t.get_trap(i) is not traps[ids.index(i)]:
                raise Violation("get_trap(%d) of ids %r returned trap %r" % (i, ids, t.get_trap(i).id))
        else:
            raises(lambda: t.get_trap(i), "get_trap(%d) of ids %r" % (i, ids))
    return {"nontrivial": len(ids) > 2, "labels": ["traps"], "sub": 14}


def do_mats(F, c):
    objs = [F.Material(m["id"], 1, 0, name=m["name"]) for m in c["mats"]]
    M = F.Materials(list(objs))
    for i in range(0, 32):
        want = [o for o, m in zip(objs, c["mats"]) if i in aslist(m["id"])]
        for fun in (M.find_material, M.find_material_from_id):
            if want:
                if fun(i) is not want[0]:
                    raise Violation("material of id %d: %r" % (i, fun(i).id))
            else:
                raises(lambda: fun(i), "material of id %d" % i)
    for n in ("a", "b", "ab", "tungsten", "W", "1", "cu", "zz"):
        want = [o for o, m in zip(objs, c["mats"]) if m["name"] == n]
        for fun in (M.find_material, M.find_material_from_name):
            if want:
                if fun(n) is not want[0]:
                    raise Violation("material named %r: %r" % (n, fun(n).name))
            else:
                raises(lambda: fun(n), "material named %r" % n)
    for o in objs:
        if M.find_material(o) is not o:
            raise Violation("find_material of a material returned another one")
    return {"nontrivial": len(objs) > 2, "labels": ["mats"], "sub": 80}


def do_energy(F, c):
    # k_B / R of the documented constants
    for e in c["E"]:
        want = e * 1e3 * 8.6173303e-5 / 8.314462618
        got = F.kJmol_to_eV(e)
        if not abs(got - want) <= 1e-12 * abs(want):
            raise Violation("%r kJ/mol converted to %r eV instead of %r" % (e, got, want))
    return {"nontrivial": any(c["E"]), "labels": ["energy"], "sub": len(c["E"])}


def do_expr(F, c):
    import fenics as f

    exprs = [getattr(F, c["via"])(ex.sym(s)) for s in c["specs"]]
    moving = [e for e in exprs if not isinstance(e, f.Constant)]
    for t in c["times"]:
        F.update_expressions(moving, t)
        for s, e in zip(c["specs"], exprs):
            for p in c["pts"]:
                got = float(e(*p)) if not isinstance(e, f.Constant) else float(e)
                want = float(ex.val(s, np.array([p]), t)[0])
                if not abs(got - want) <= 1e-9 * abs(want):
                    raise Violation("%s(%r) at x=%r t=%r: %r instead of %r" % (c["via"], s, p, t, got, want))
    for v in (2, 2.5):
        for fun in (F.as_constant, F.as_constant_or_expression):
            if not (isinstance(fun(v), f.Constant) and float(fun(v)) == v):
                raise Violation("%s(%r) is %r" % (fun.__name__, v, fun(v)))
    # fenics objects are used as they are
    k, e = f.Constant(3.0), f.Expression("x[0] + t", t=0, degree=1)
    if F.as_constant(k) is not k or F.as_constant_or_expression(k) is not k or F.as_constant_or_expression(e) is not e or F.as_expression(e) is not e:
        raise Violation("a fenics object was replaced by a conversion")
    return {"nontrivial": any(isinstance(s, dict) for s in c["specs"]) and len(c["times"]) > 1, "labels": ["expr", c["via"]], "sub": len(exprs) * len(c["times"]) * len(c["pts"])}


def do_xdmf(F, c):
    import fenics as f

    with files.scratch():
        mesh = f.UnitIntervalMesh(4)
        V = f.FunctionSpace(mesh, "CG", 1)
        e = F.XDMFExport("solute", label=c["label"], filename="a.xdmf", checkpoint=c["checkpoint"])
        ts = [n * c["scale"] for n in c["times"]]
        for t in ts:
            e.function = f.interpolate(f.Expression("x[0] + t", t=t, degree=1), V)
            e.write(t)
            e.append = True
        e.file.close()
        got = F.extract_xdmf_times("a.xdmf")
        if not (len(got) == len(ts) and np.allclose(got, ts, rtol=1e-6, atol=0)):
            raise Violation("times %r read as %r" % (ts, got))
        lab = F.extract_xdmf_labels("a.xdmf")
        if list(lab) != [c["label"]]:
            raise Violation("label %r read as %r" % (c["label"], lab))
    return {"nontrivial": len(ts) > 1, "labels": ["xdmf"], "sub": len(ts) + 1}
