"""Rejection of inconsistent models, wrong values and foreign items; acceptance
of their consistent neighbours."""
import math
import numpy as np
from hypothesis import strategies as st
from .. import dq, files, gen, model
from ..core import Violation

RULE = (
    "a case counts when a generated model that is accepted was made inconsistent in one place, when wrong and right values of one argument were both tried, or when a history of at least three operations with a foreign item was applied to a collection; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 700, "seconds": 130}, "thorough": {"cases": 20000, "seconds": 3000}}


# ------------------------------------------------------------------ generator
@st.composite
def case(draw, tier):
    g = gen.G(draw, 1.0, 1.0)
    k = g.pick("model", "model", "model", "model", "value", "ops")
    if k == "value":
        return value_case(g)
    if k == "ops":
        return ops_case(g)
    return model_case(g)


def strategy(tier):
    return case(tier)


def model_case(g):
    fam = g.pick("h", "h", "h", "heat", "heat", "chem", "soret", "sk", "steady")
    tr = fam != "steady" and not (fam == "heat" and g.chance(1, 3))
    c = gen.problem(
        g, transient=tr, nmat=(1, 3), geo=("1d", "1d", "1d", "2d", "2d", "cyl1", "cyl2", "sph") if fam != "sk" else ("1d",),
        traps=(0, 2), chem=fam == "chem", soret=fam == "soret", T="solve" if fam == "heat" else "val",
        bc_mix=("none",) if fam == "sk" else ("d", "d", "f", "ff", "none"),
        bc_kinds=("dirichlet", "sieverts", "henrys", "implant", "customd"), flux_kinds=("flux", "rec", "dis", "mass", "custom"),
        sources=1, trap_bcs=g.chance(1, 3), dt_n=(1, 2),
    )
    tf = c["settings"].get("final", 1.0)
    if fam == "sk":
        c["bcs"].append(gen.sk(g, g.pick(1, 2), tf, True))
        if g.chance():
            s = 3 - c["bcs"][-1]["surf"]
            c["bcs"].insert(0, g.pick(gen.dirichlet(g, s, tf, ("dirichlet",)), gen.flux(g, s, tf, ("flux", "rec"))))
    if g.chance(1, 3):
        gen.merge_surfaces(g, c)
    c["kind"] = "model"
    nt = len(c["traps"])
    heat = c["T"]["kind"] == "solve"
    one = c["mesh"]["kind"] == "1d"
    unknown = lambda: g.pick("foo", nt + 1, str(nt + 1), "Solute", -1, nt + 3)
    D = ["noT", "no_mesh", "no_materials", "no_settings", "bc_field", "src_field", "clash", "clash", "clash", "coords", "coords", "setter", "export_field", "ads"]
    D += ["nodt", "nofinal", "ic_field"] if tr else ["dt_steady"]
    D += ["heat_prop", "heat_prop"] if heat else ["T_bc", "T_bc", "T_src"]
    if heat and c["T"]["transient"]:
        D += ["heat_ic"]
    if len(c["mats"]) > 1:
        D += ["dup_id", "dup_id", "partial", "partial"]
    if nt:
        D += ["trap_dup", "trap_name", "trap_len"]
        if c["settings"].get("chem"):
            D += ["henry_trap", "henry_trap"]
    if not one:
        D += ["sk2d"]
    if not c["settings"].get("chem"):
        D += ["chem_noS"]
    if not c["settings"].get("soret"):
        D += ["soret_noQ"]
    k = g.pick(*D)
    d = {"d": k, "seed": [g.int(0, 11) for _ in range(6)]}
    if k in ("bc_field", "ic_field"):
        d["field"] = g.pick(unknown(), "T") if k == "ic_field" else unknown()
    if k == "src_field":
        d["field"] = g.pick("foo", str(nt + 1), "Solute")
    if k == "setter":
        d["attr"] = g.pick("traps", "materials", "exports", "T", "dt")
        d["v"] = g.pick("text", {"a": 1}, (1,), object.__name__, [1], ["a"])
        if d["attr"] in ("T", "dt") and isinstance(d["v"], tuple):
            d["v"] = "text"
        d["v"] = list(d["v"]) if isinstance(d["v"], tuple) else d["v"]
    if k == "coords":
        d["type"] = g.pick("spherical2d", "cylindrical3d", "spherical3d", "unknown") if not one else g.pick("cylindrical3d", "unknown")
        d["name"] = g.pick("polar", "Cartesian", "", "cylinder")
    if k == "export_field":
        d["field"] = g.pick("foo", nt + 1, str(nt + 1), "theta")
        d["out"] = g.pick("dq", "txt", "xdmf") if one else g.pick("dq", "xdmf")
        if d["out"] == "xdmf":
            d["field"] = str(d["field"])
    c["defect"] = d
    return c


# ------------------------------------------------------------------ models
def pick(d, i, xs):
    return xs[d["seed"][i] % len(xs)]


def corrupt(c, sim, d):
    """introduces the inconsistency the way a user would write it"""
    import festim as F
    import fenics as f

    k = d["d"]
    nt = len(c["traps"])
    mats = sim.vf_mats
    surfs = gen.surfaces(c["mesh"])
    bcs = sim.boundary_conditions

    def add(b):
        bcs.insert(d["seed"][5] % (len(bcs) + 1), b)

    if k == "noT":
        sim.T = None
    elif k == "no_mesh":
        sim.mesh = None
    elif k == "no_materials":
        sim.materials = pick(d, 0, [None, F.Materials([])])
    elif k == "no_settings":
        sim.settings = None
    elif k == "nodt":
        sim.dt = None
    elif k == "dt_steady":
        sim.dt = pick(d, 0, [F.Stepsize(0.1), 0.5])
    elif k == "nofinal":
        sim.settings.final_time = None
    elif k == "bc_field":
        s = pick(d, 0, surfs)
        add(pick(d, 1, [F.DirichletBC(s, 1.0, d["field"]), F.FluxBC(s, 1.0, field=d["field"]), F.CustomFlux(s, lambda T, c: 1.0 + 0 * T, d["field"]), F.CustomDirichlet(s, lambda T: 1.0 + 0 * T, d["field"])]))
    elif k == "src_field":
        sim.sources.append(F.Source(1.0, pick(d, 0, gen.volumes(c["mats"])), d["field"]))
    elif k == "ic_field":
        sim.initial_conditions.insert(0, F.InitialCondition(field=d["field"], value=1.0))
    elif k == "T_bc":
        s = pick(d, 0, surfs)
        add(pick(d, 1, [F.DirichletBC(s, 500.0, "T"), F.FluxBC(s, 1.0, field="T"), F.ConvectiveFlux(1.0, 300.0, s), F.CustomFlux(s, lambda T, c: 1.0 - T, "T")]))
    elif k == "T_src":
        sim.sources.append(F.Source(1.0, pick(d, 0, gen.volumes(c["mats"])), "T"))
    elif k == "clash":
        clash(c, sim, d, F, surfs, add)
    elif k == "coords":
        if d["type"] == "spherical2d":
            sim.mesh.type = "spherical"
        elif d["type"] == "unknown":
            sim.mesh.type = d["name"]
        else:
            m = f.UnitCubeMesh(1, 1, 1)
            vm = f.MeshFunction("size_t", m, 3, gen.volumes(c["mats"])[0])
            sim.mesh = F.Mesh(m, vm, f.MeshFunction("size_t", m, 2, 0), type=d["type"][:-2])
    elif k == "heat_prop":
        for m in mats:
            setattr(m, pick(d, 0, ["thermal_cond", "heat_capacity", "rho"] if c["T"]["transient"] else ["thermal_cond"]), None)
    elif k == "heat_ic":
        sim.T.initial_condition = None
    elif k == "dup_id":
        a, b = mats[d["seed"][0] % len(mats)], mats[(d["seed"][0] + 1) % len(mats)]
        i = b.id[d["seed"][1] % len(b.id)] if isinstance(b.id, list) else b.id
        if isinstance(a.id, list):
            a.id = [i] + a.id[1:]
        elif pick(d, 2, [True, False]) or c["mesh"]["kind"] == "1d":
            a.id = i
        else:
            a.id = [a.id, i]
    elif k == "partial":
        m = pick(d, 0, mats)
        attr = pick(d, 1, ["S", "thermal_cond", "heat_capacity", "rho", "Q"])
        for n in ("S_0", "E_S") if attr == "S" else (attr,):
            setattr(m, n, 1.0 if getattr(m, n) is None else None)
    elif k == "trap_dup":
        t = pick(d, 0, list(sim.traps))
        mi = c["traps"][list(sim.traps).index(t)]["mats"]
        ml = [mats[i] for i in mi]
        t.materials = ml + [pick(d, 1, [ml[0], ml[0].name])]
        if isinstance(t.k_0, list):
            for n in ("k_0", "E_k", "p_0", "E_p", "density"):
                getattr(t, n).append(getattr(t, n)[0])
    elif k == "trap_name":
        pick(d, 0, list(sim.traps)).materials = ["no such material"]
    elif k == "trap_len":
        mi = list(range(len(mats)))[: 1 + d["seed"][0] % len(mats)]
        n = [len(mi)] * 5
        n[d["seed"][1] % 5] += 1
        if d["seed"][2] % 2:
            n = [len(mi) + 1] * 5
        v = [[0.1 + 0.01 * j for j in range(x)] for x in n]
        sim.traps.append(F.Trap(v[0], v[1], v[2], v[3], [mats[i] for i in mi], v[4]))
    elif k == "henry_trap":
        i = pick(d, 0, c["traps"][0]["mats"])
        mats[i].solubility_law = "henry"
    elif k == "sk2d":
        s = [x for x in surfs if not any(x in b.surfaces for b in bcs)]
        sim.boundary_conditions = [b for b in bcs if b.field == "T"]
        sim.boundary_conditions.append(kinetics(F, pick(d, 0, s or surfs)))
    elif k == "ads":
        sks = [s for b in bcs if isinstance(b, F.SurfaceKinetics) for s in b.surfaces]
        s = pick(d, 0, [x for x in surfs if x not in sks] or [7])
        sim.exports.append(F.DerivedQuantities([F.AdsorbedHydrogen(s)]))
    elif k == "chem_noS":
        for m in mats:
            m.S_0 = m.E_S = None
        sim.settings.chemical_pot = True
    elif k == "soret_noQ":
        for m in mats:
            m.Q = None
        sim.settings.soret = True
    elif k == "setter":
        v = object() if d["v"] == "object" else d["v"]
        setattr(sim, d["attr"], v)
    elif k == "export_field":
        e = {
            "dq": lambda: F.DerivedQuantities([F.TotalVolume(d["field"], gen.volumes(c["mats"])[0])]),
            "txt": lambda: F.TXTExport(d["field"], filename="x.txt"),
            "xdmf": lambda: F.XDMFExport(d["field"], label="x", filename="x.xdmf"),
        }[d["out"]]()
        sim.exports.insert(0, e)
    else:
        raise KeyError(k)


def kinetics(F, s):
    return F.SurfaceKinetics(k_sb=1.0, k_bs=1.0, lambda_IS=0.1, n_surf=10.0, n_IS=10.0, J_vs=1.0, surfaces=s, initial_condition=0.0)


def clash(c, sim, d, F, surfs, add):
    """a fixed value (or surface kinetics) and another condition on one field
    and surface"""
    heat = c["T"]["kind"] == "solve"
    one = c["mesh"]["kind"] == "1d"
    bcs = sim.boundary_conditions
    nt = len(c["traps"])
    fields = ["h", "h"] + (["T"] if heat else []) + (["trap"] if nt else [])
    fld = pick(d, 0, fields)
    s = pick(d, 1, surfs)
    o = pick(d, 2, surfs)
    # other conditions of the field on these surfaces make way
    if fld == "h":
        names = [0, "0", "solute"]
    elif fld == "T":
        names = ["T"]
    else:
        i = 1 + d["seed"][3] % nt
        names = [i, str(i)]
    case_b = list(zip(c["bcs"], bcs))
    keep = []
    for spec, b in case_b:
        f_ = spec.get("field", "T" if spec["type"] == "conv" else 0)
        if str(f_) in [str(n) for n in names]:
            continue
        keep.append(b)
    bcs[:] = keep
    n1, n2 = pick(d, 3, names), pick(d, 4, names)
    # the two lists of surfaces have s in common, in every way
    lists = [s, [s], [s, o], [o, s]] if o != s else [s, [s]]
    sa = lists[(d["seed"][0] * 3 + d["seed"][4]) % len(lists)]
    sb = lists[(d["seed"][1] * 3 + d["seed"][3]) % len(lists)]
    first = [lambda: F.DirichletBC(sa, 500.0, n1), lambda: F.CustomDirichlet(sa, lambda T: 1.0 + 0 * T, n1)]
    if fld == "h":
        first += [lambda: F.SievertsBC(sa, 1.0, 0.1, 1.0), lambda: F.HenrysBC(sa, 1.0, 0.1, 1.0), lambda: F.ImplantationDirichlet(sa, 1.0, 1.0, 1.0, 0.1)]
        if one:
            first += [lambda: kinetics(F, sa), lambda: kinetics(F, [1, 2])]
    other = [lambda: F.FluxBC(sb, 1.0, field=n2), lambda: F.DirichletBC(sb, 510.0, n2), lambda: F.CustomFlux(sb, lambda T, c: 1.0 + 0 * T, n2)]
    if fld == "h":
        other += [lambda: F.SievertsBC(sb, 1.0, 0.1, 2.0), lambda: F.RecombinationFlux(1.0, 0.1, 2, sb), lambda: F.MassFlux(1.0, 1.0, sb), lambda: F.DissociationFlux(1.0, 0.1, 1.0, sb)]
        if one:
            other.append(lambda: kinetics(F, sb))
    if fld == "T":
        other.append(lambda: F.ConvectiveFlux(1.0, 300.0, sb))
    if fld == "trap":
        other = other[:2]
    a = pick(d, 5, first)()
    b = other[(d["seed"][2] * 5 + d["seed"][5]) % len(other)]()
    # without the second condition the model is a valid one
    bcs.append(a)
    yield_check = sim.vf_check
    yield_check()
    add(b)


def model_check(c):
    d = c["defect"]
    sim, _ = model.build(c, record=False)
    initialise(sim, "model")
    sim, _ = model.build(c, record=False)
    sim.vf_check = lambda: initialise(sim, "model without the second condition")
    stage = "definition"
    try:
        corrupt(c, sim, d)
        stage = "initialise"
        sim.initialise()
        if d["d"] == "export_field":
            stage = "run"
            sim.run()
    except Violation:
        raise
    except Exception as e:
        return {"nontrivial": True, "labels": ["defect:" + d["d"], "refused at " + stage, type(e).__name__], "sub": 2}
    raise Violation("a model with the inconsistency %r is accepted" % (d,))


def initialise(sim, what):
    try:
        sim.initialise()
    except Exception as e:
        raise Violation("consistent %s refused: %s: %s" % (what, type(e).__name__, str(e)[:300]))


# ------------------------------------------------------------------ values
JUNK = ["text", None, [1], 1.5, {"a": 1}]


def value_case(g):
    k = g.pick(
        "law", "S_pair", "decay", "txt_name", "csv_name", "xdmf_name", "xdmf_folder", "xdmf_mode", "xdmf_checkpoint", "entity", "entity",
        "azimuth", "azimuth", "polar", "ic_xdmf", "trap_mat", "single", "newton", "T_label",
    )
    c = {"kind": "value", "what": k, "seed": [g.int(0, 11) for _ in range(4)]}
    word = "".join(g.pick(*"abcxyz/.") for _ in range(g.int(1, 6)))
    if k == "law":
        c["good"], c["bad"] = g.pick("henry", "sievert"), g.pick("Henry", "sieverts", word, "", None, 1)
    elif k == "decay":
        c["good"], c["bad"] = g.pick(g.log(1e-9, 1e3), g.int(1, 9)), g.pick(0, 0.0, -g.log(1e-9, 1e3), "1", None, [1.0])
    elif k in ("txt_name", "csv_name", "xdmf_name"):
        e = "." + k.split("_")[0]
        c["good"] = word.replace("/", "") .strip(".") + "a" + e
        c["bad"] = g.pick(word + "b", word + e + "x", 3, 1.5, ["a" + e], word + g.pick(*[x for x in (".txt", ".csv", ".xdmf", ".h5") if x != e]))
    elif k == "xdmf_folder":
        c["good"], c["bad"] = "fold" + word.replace("/", "").replace(".", ""), g.pick(3, 1.5, ["a"], {"a": 1})
    elif k == "xdmf_mode":
        c["good"], c["bad"] = g.pick("last", g.int(1, 50)), g.pick(0, -g.int(1, 50), "first", "Last", word, 1.5, None, [1])
    elif k == "xdmf_checkpoint":
        c["good"], c["bad"] = g.chance(), g.pick("True", 1, 0, None, 1.0)
    elif k == "entity":
        c["good"], c["bad"] = g.int(0, 40), g.pick("1", 1.0, None, [1], True, False, "top")
    elif k == "azimuth":
        lo, hi = 0.0, 1.0
        a = [g.num(0, 0.45), g.num(0.55, 1)]
        c["good"], c["bad"] = a, g.pick([-g.num(0.001, 2), a[1]], [a[0], 1 + g.num(0.001, 2)], [-0.3, 1.4])
    elif k == "polar":
        a = [g.num(0, 0.45), g.num(0.55, 1)]
        c["good"], c["bad"] = a, g.pick([-g.num(0.001, 2), a[1]], [a[0], 1 + g.num(0.001, 2)], [-0.3, 1.4])
    elif k == "ic_xdmf":
        c["good"] = ["lab", g.int(-1, 5)]
        c["bad"] = g.pick([None, 0], ["lab", None], [None, None])
    elif k == "trap_mat":
        c["good"], c["bad"] = g.pick("name", ["name"], ["name", "other"]), g.pick(1, [1], ["name", 2], 1.5, [None], [["name"]])
    return c


def value_check(c):
    import festim as F
    import fenics as f

    k, sd = c["what"], c["seed"]
    vols = [F.TotalVolume, F.AverageVolume, F.MaximumVolume, F.MinimumVolume]
    surfs = [F.TotalSurface, F.AverageSurface, F.MaximumSurface, F.MinimumSurface, F.SurfaceFlux, F.SurfaceFluxCylindrical, F.SurfaceFluxSpherical]
    mat = lambda **kw: F.Material(1, 1.0, 0.1, **kw)

    def both(make, get=None):
        for v, ok in ((c.get("good"), True), (c.get("bad"), False)):
            try:
                o = make(v)
            except Exception as e:
                if ok:
                    raise Violation("%s: %r refused: %s" % (k, v, e))
                continue
            if not ok:
                raise Violation("%s: %r accepted" % (k, v))
            if get is not None and get(o) != v:
                raise Violation("%s: %r kept as %r" % (k, v, get(o)))

    def both_set(make, attr):
        """constructor, then assignment on a valid object"""
        both(lambda v: make(v), lambda o: getattr(o, attr))
        o = make(c["good"])
        try:
            setattr(o, attr, c["bad"])
        except Exception:
            if getattr(o, attr) != c["good"]:
                raise Violation("%s: %r left after a refused assignment" % (k, getattr(o, attr)))
            return
        raise Violation("%s: assignment of %r accepted" % (k, c["bad"]))

    if k == "law":
        both(lambda v: mat(solubility_law=v), lambda o: o.solubility_law)
    elif k == "S_pair":
        c = dict(c, good={"S_0": 1.0, "E_S": 0.1}, bad=[{"S_0": 1.0}, {"E_S": 0.1}, {"E_S": 0.0}][sd[0] % 3])
        both(lambda v: mat(**v))
    elif k == "decay":
        both_set(lambda v: F.RadioactiveDecay(v, 1, "all"), "decay_constant")
    elif k == "txt_name":
        both_set(lambda v: F.TXTExport("solute", filename=v), "filename")
    elif k == "csv_name":
        both_set(lambda v: F.DerivedQuantities([], filename=v), "filename")
    elif k == "xdmf_name":
        both(lambda v: F.XDMFExport("solute", filename=v), lambda o: o.filename)
    elif k == "xdmf_folder":
        both(lambda v: F.XDMFExport("solute", folder=v), lambda o: o.folder)
    elif k == "xdmf_mode":
        both_set(lambda v: F.XDMFExport("solute", mode=v), "mode")
    elif k == "xdmf_checkpoint":
        both(lambda v: F.XDMFExport("solute", checkpoint=v), lambda o: o.checkpoint)
    elif k == "entity":
        cls = (vols + surfs)[(sd[0] * 12 + sd[1]) % (len(vols) + len(surfs))]
        both_set(lambda v: cls("solute", v), "volume" if cls in vols else "surface")
    elif k in ("azimuth", "polar"):
        cyl = [F.SurfaceFluxCylindrical, F.TotalSurfaceCylindrical, F.TotalVolumeCylindrical]
        sph = [F.SurfaceFluxSpherical, F.TotalSurfaceSpherical, F.TotalVolumeSpherical]
        cls = (cyl + sph if k == "azimuth" else sph)[(sd[0] * 12 + sd[1]) % (6 if k == "azimuth" else 3)]
        if cls is F.SurfaceFluxSpherical:
            lo, hi = (0, math.pi) if k == "azimuth" else (-math.pi, math.pi)
        else:
            lo, hi = (0, 2 * math.pi) if k == "azimuth" else (0, math.pi)
        to = lambda v: tuple(lo + (hi - lo) * x for x in v)
        c = dict(c, good=to(c["good"]), bad=to(c["bad"]))
        both_set(lambda v: cls("solute", 1, **{k + "_range": v}), k + "_range")
        full = cls("solute", 1, **{k + "_range": (lo, hi)})
        if tuple(getattr(full, k + "_range")) != (lo, hi):
            raise Violation("whole %s range kept as %r" % (k, getattr(full, k + "_range")))
    elif k == "ic_xdmf":
        both(lambda v: F.InitialCondition(field=0, value="f.xdmf", label=v[0], time_step=v[1]))
    elif k == "trap_mat":
        both(lambda v: F.Trap(1.0, 0.1, 1.0, 0.1, v, 1.0))
    elif k == "single":
        sim = F.Simulation(log_level=50)
        m, t = mat(), F.Trap(1.0, 0.1, 1.0, 0.1, "a", 1.0)
        e, q = F.XDMFExport("solute"), F.DerivedQuantities([])
        for attr, v, n in (("materials", m, [m]), ("traps", t, [t]), ("exports", e, [e]), ("exports", q, [q]), ("traps", [t], [t]), ("materials", [m], [m]), ("traps", None, []), ("exports", None, [])):
            setattr(sim, attr, v)
            if [id(x) for x in getattr(sim, attr)] != [id(x) for x in n]:
                raise Violation("%s set to %r holds %r" % (attr, v, list(getattr(sim, attr))))
        sim.T = 300 + sd[0]
        sim.dt = 1 + sd[1]
        if float(sim.T.value) != 300 + sd[0] or float(sim.dt.initial_value) != 1 + sd[1]:
            raise Violation("numbers given as temperature or stepsize changed")
    elif k == "newton":
        h = F.HeatTransferProblem()
        n = f.NewtonSolver()
        h.newton_solver = n
        if h.newton_solver is not n:
            raise Violation("Newton solver not kept")
        try:
            h.newton_solver = JUNK[sd[0] % 5] or "text"
        except TypeError:
            return {"nontrivial": True, "labels": ["value:" + k], "sub": 2}
        raise Violation("newton_solver accepts anything")
    elif k == "T_label":
        mesh = f.UnitIntervalMesh(2)
        u = f.interpolate(f.Constant(400.0 + sd[0]), f.FunctionSpace(mesh, "CG", 1))
        with f.XDMFFile("t.xdmf") as fh:
            fh.write_checkpoint(u, "lab", 0, f.XDMFFile.Encoding.HDF5, False)
        c = dict(c, good="lab", bad=["Lab", "lab0", "", "T"][sd[1] % 4])
        both(lambda v: F.TemperatureFromXDMF("t.xdmf", v), lambda o: o.label)
    return {"nontrivial": True, "labels": ["value:" + k], "sub": 2}


# ------------------------------------------------------------------ collections
def ops_case(g):
    c = {"kind": "ops", "box": g.pick("materials", "traps", "exports", "quantities"), "ops": []}
    v = lambda: g.pick("ok", "ok", "ok", "int", "str", "none", "foreign", "list")
    for _ in range(g.int(2, 9)):
        op = g.pick("append", "insert", "extend", "extend_box", "extend_gen", "set", "iadd", "iadd_box", "init", "pop", "del", "reverse", "setslice")
        n = 1 if op in ("append", "insert", "set") else g.int(0, 3)
        c["ops"].append([op, [v() for _ in range(n)], g.int(-2, 4)])
    return c


def ops_check(c):
    import festim as F

    mk = {
        "materials": (F.Materials, lambda: F.Material(1, 1.0, 0.1), lambda: F.Trap(1.0, 0.1, 1.0, 0.1, "a", 1.0), F.Material),
        "traps": (F.Traps, lambda: F.Trap(1.0, 0.1, 1.0, 0.1, "a", 1.0), lambda: F.Material(1, 1.0, 0.1), F.Trap),
        "exports": (F.Exports, lambda: F.XDMFExport("solute"), lambda: F.Material(1, 1.0, 0.1), (F.Export, F.DerivedQuantities)),
        "quantities": (F.DerivedQuantities, lambda: F.TotalVolume("solute", 1), lambda: F.XDMFExport("solute"), F.DerivedQuantity),
    }
    cls, good, foreign, types = mk[c["box"]]

    def item(k):
        return {"ok": good, "int": lambda: 1, "str": lambda: "a", "none": lambda: None, "foreign": foreign, "list": lambda: [good()]}[k]()

    box, ref = cls([]), []
    bad_seen, n = False, 0
    for op, kinds, i in c["ops"]:
        items = [item(k) for k in kinds]
        bad = op not in ("pop", "del", "reverse") and any(k != "ok" for k in kinds)
        new = list(ref)
        before = list(ref)
        try:
            if op == "append":
                new.append(items[0])
                box.append(items[0])
            elif op == "insert":
                new.insert(i, items[0])
                box.insert(i, items[0])
            elif op == "extend":
                new.extend(items)
                box.extend(items)
            elif op == "extend_gen":
                new.extend(items)
                box.extend(x for x in items)
            elif op == "extend_box":
                if bad:
                    continue
                new.extend(items)
                box.extend(cls(items))
            elif op == "set":
                if not -len(ref) <= i < len(ref):
                    continue
                new[i] = items[0]
                box[i] = items[0]
            elif op == "setslice":
                if not bad:
                    continue  # slices of valid items need not be supported
                box[0:1] = items
            elif op == "iadd":
                new += items
                box += items
            elif op == "iadd_box":
                if bad:
                    continue
                new += items
                box += cls(items)
            elif op == "init":
                new = list(items)
                box = cls(items)
            elif op == "pop":
                if not ref:
                    continue
                new.pop()
                box.pop()
            elif op == "del":
                if not -len(ref) <= i < len(ref):
                    continue
                del new[i]
                del box[i]
            elif op == "reverse":
                new.reverse()
                box.reverse()
            raised = None
        except TypeError as e:
            raised = e
        except Exception as e:
            raise Violation("%s of %r on %s: %s: %s" % (op, kinds, c["box"], type(e).__name__, e))
        n += 1
        if not isinstance(box, cls):
            raise Violation("%s became a %s after %s" % (c["box"], type(box).__name__, op))
        wrong = [x for x in box if not isinstance(x, types)]
        if wrong:
            raise Violation("%s holds %r after %s of %r" % (c["box"], wrong, op, kinds))
        if bad:
            bad_seen = True
            if raised is None:
                raise Violation("%s of %r on %s is accepted" % (op, kinds, c["box"]))
            if op in ("append", "insert", "set", "init") and [id(x) for x in box] != [id(x) for x in before]:
                raise Violation("%s: refused %s changed the content" % (c["box"], op))
            new = list(box)
        elif raised is not None:
            raise Violation("%s of valid items on %s is refused: %s" % (op, c["box"], raised))
        elif [id(x) for x in box] != [id(x) for x in new]:
            raise Violation("%s: %d items instead of %d after %s" % (c["box"], len(box), len(new), op))
        ref = new
    return {"nontrivial": bad_seen and n >= 3, "labels": ["ops:" + c["box"]], "sub": n}


def check(c):
    with files.scratch():
        return {"model": model_check, "value": value_check, "ops": ops_check}[c["kind"]](c)
