"""XDMF exports, read back and used for restarts."""
import os
import re
import numpy as np
from hypothesis import strategies as st
from .. import dq, ex, files, gen, model, rewrite
from ..core import Violation
from ..ref import Rows, arr

RULE = (
    "a case counts when at least one checkpoint of a field that varies in space was read back or restarted from; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 200, "seconds": 120}, "thorough": {"cases": 5000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    tr = g.chance(5, 6)
    chem = g.chance(1, 4)
    c = gen.problem(
        g, transient=tr, nmat=(1, 3), traps=(0, 2), chem=chem, bc_mix=("d", "d", "none"), dt_n=(1, 6),
        geo=("1d", "1d", "2d", "cyl1"), T="solve" if g.chance(1, 3) else "val", sources=1, uniformT=chem,
    )
    c = gen.name_traps(g, rewrite.retime(g, c))
    nt = len(c["traps"])
    c["xdmf"] = []
    pool = ["solute", "T", "retention", "0"] + [str(t.get("id") or i + 1) for i, t in enumerate(c["traps"])]
    for i in range(g.int(1, 4)):
        f = g.pick(*pool)
        pool.remove(f)
        e = {"field": f, "mode": g.pick(1, 1, 2, 3, "last")}
        if f == "0" or g.chance():
            e["label"] = g.pick("foo", "conc", "my field") + str(i)
        if g.chance():
            e["filename"] = "file%d.xdmf" % i
        if g.chance():
            e["folder"] = g.pick("out", "out/deep", "other")
        if g.chance(1, 4):
            e["checkpoint"] = False
        c["xdmf"].append(e)
        if not pool:
            break
    c["density"] = g.int(0, nt - 1) if nt and g.chance() else None
    c["restart"] = {"seed": [g.num(0.0, 0.999) for _ in range(4)], "T": g.pick("read", "solve"), "elt": g.pick("CG", "DG"), "neg": g.chance()}
    c["again"] = g.chance(1, 5)
    return c


def strategy(tier):
    return case(tier)


AUTO = {"solute": "mobile_concentration", "T": "temperature", "retention": "retention"}


def label(e):
    return e.get("label") or AUTO.get(e["field"]) or "trap_%s_concentration" % e["field"]


def path(e):
    p = e.get("filename") or label(e) + ".xdmf"
    return e["folder"] + "/" + p if e.get("folder") else p


def read(sim, p, lab, k):
    """stored function k as cell values, with its element family"""
    import fenics as f

    fam = re.search(r'ElementFamily="(\w+)"', open(p).read()).group(1)
    u = f.Function(f.FunctionSpace(sim.mesh.mesh, fam, 1))
    with f.XDMFFile(p) as fh:
        fh.read_checkpoint(u, lab, k)
    return model.cellvals(u, sim.mesh.mesh.num_cells())


def vertices(M, e, p, k, F_):
    """plain (not checkpoint) file: one value per vertex, that of a cell around it"""
    import fenics as f

    items = re.findall(r'<Attribute Name="([^"]*)"[^>]*Center="Node">\s*<DataItem[^>]*>([^<:]*):([^<]*)</DataItem>', open(p).read())
    if k >= len(items) or items[k][0] != label(e):
        raise Violation("values %d of %r are not in %s" % (k, label(e), p))
    v = f.Vector()
    with f.HDF5File(f.MPI.comm_self, os.path.join(os.path.dirname(p), items[k][1].strip()), "r") as h:
        h.read(v, items[k][2].strip(), False)
    v = v.get_local()
    lo, hi = np.full(len(M.m.X), np.inf), np.full(len(M.m.X), -np.inf)
    np.minimum.at(lo, M.m.cells, F_)
    np.maximum.at(hi, M.m.cells, F_)
    tol = 1e-8 * np.abs(F_).max()
    if v.shape != lo.shape or (v < lo - tol).any() or (v > hi + tol).any():
        raise Violation("step %d of %s differs from the field at the vertices" % (k, p))
    return v.size


def check(c):
    with files.scratch():
        return inner(c)


def inner(c):
    import festim as F

    exports = []
    for e in c["xdmf"]:
        kw = {k: e[k] for k in ("label", "filename", "folder", "checkpoint") if k in e}
        if e["mode"] != 1:
            kw["mode"] = e["mode"]
        exports.append(F.XDMFExport(e["field"], **kw))
    built = model.build(c, exports)
    sim, rec = built
    if c["density"] is not None:
        d = F.TrapDensityXDMF(sim.traps[c["density"]], label="density", filename="density.xdmf")
        sim.exports.insert(0, d)
    states = model.finish(sim, rec, again=c["again"])
    M = model.Model(c, sim)
    steps = states[1:]
    stored = {}
    sub = 0
    for e in c["xdmf"]:
        if e["mode"] == "last":
            want = [len(steps) - 1]
        else:
            want = [n for n in range(len(steps)) if n % e["mode"] == 0]
        p = path(e)
        if not os.path.exists(p):
            raise Violation("no file %s" % p)
        if F.extract_xdmf_labels(p) != [label(e)]:
            raise Violation("labels %r of %s instead of %r" % (F.extract_xdmf_labels(p), p, label(e)))
        times = F.extract_xdmf_times(p)
        if len(times) != len(want) or not np.allclose(times, [steps[n]["t"] for n in want], rtol=1e-12, atol=0):
            raise Violation("times %r in %s instead of %r" % (times, p, [steps[n]["t"] for n in want]))
        for k, n in enumerate(want):
            F_ = dq.cells(M, steps[n], e["field"])
            if "checkpoint" in e:
                sub += vertices(M, e, p, k, F_)
                continue
            got = read(sim, p, label(e), k)
            if not np.abs(got - F_).max() <= 1e-8 * np.abs(F_).max():
                raise Violation("step %d of %s differs from the field by %.3e" % (k, p, np.abs(got - F_).max()))
            sub += got.size
        if "checkpoint" not in e:
            stored[e["field"]] = (p, label(e), want)
    if c["density"] is not None:
        density(c, M, sim, steps)
    r = restart(c, M, steps, stored)
    lab = ["mode:%s" % e["mode"] for e in c["xdmf"]] + ["restart:" + x for x in r] + ["plain"] * any("checkpoint" in e for e in c["xdmf"]) + ["density"] * (c["density"] is not None) + ["again"] * c["again"]
    return {"nontrivial": model.varied(states) and sub > 0, "labels": sorted(set(model.labels(c) + lab)), "sub": sub}


def density(c, M, sim, steps):
    """projection of the density of each material, zero elsewhere"""
    t = c["traps"][c["density"]]
    for k, s in enumerate(steps):
        u = read(sim, "density.xdmf", "density", k)

        def rows(M):
            m = M.m
            R = Rows(m, "dg" if M.elt == "DG" else "cg")
            R.mass(m.q(u))
            for mi, _, _, _, _, nq in M.trap_terms(t, s, s["t"] if M.transient else 0.0):
                R.mass(-nq, m.mask(model.aslist(c["mats"][mi]["id"])))
            return R

        model.need(rows(M).ratio((), 1e-6, 1e-7, rows(M.coarse), 0.0), "exported trap density", s["t"])


def pickstep(c, want, j):
    k = int(c["restart"]["seed"][j] * len(want))
    return k, want[k], (-1 if c["restart"]["neg"] and k == len(want) - 1 else k)


def component(c, f):
    return 1 + [str(t.get("id") or i + 1) for i, t in enumerate(c["traps"])].index(f)


def restart(c, M, steps, stored):
    """a second model whose fields come from the files"""
    import festim as F

    conc = [f for f in stored if f not in ("T", "retention")]
    done = []
    if not conc and "T" not in stored:
        return done
    d = dict(c, ics=[], bcs=[b for b in c["bcs"] if b.get("field") != "T"], sources=[s for s in c["sources"] if s.get("field") != "T"])
    d["settings"] = dict(c["settings"], final=1.0)
    d["settings"].pop("transient", None)
    if not M.chem:
        d["settings"]["elt"] = c["restart"]["elt"]
    d["dt"] = 1.0
    d["T"] = {"kind": "val", "v": 500.0}
    if M.chem:
        T = c["T"]["v"] if c["T"]["kind"] == "val" else None
        # solubility at the temperature of the stored step is needed to recover theta
        j = c["xdmf"].index(next(e for e in c["xdmf"] if e["field"] == conc[0])) if conc else 0
        if conc and T is not None:
            n = pickstep(c, stored[conc[0]][2], j)[1]
            d["T"] = {"kind": "val", "v": float(ex.val(T, M.m.X[:1], steps[n]["t"] if M.transient else 0.0)[0])}
        elif conc:
            conc = []
    sim, rec = model.build(d)
    want = {}
    ics = []
    for f in conc:
        j = [e["field"] for e in c["xdmf"]].index(f)
        p, lab, w = stored[f]
        k, n, idx = pickstep(c, w, j)
        comp = 0 if f in ("solute", "0") else component(c, f)
        if comp in want:
            continue
        ics.append(F.InitialCondition(field=f, value=p, label=lab, time_step=idx))
        want[comp] = dq.cells(M, steps[n], f)
    sim.initial_conditions = ics
    T_want = None
    if "T" in stored:
        p, lab, w = stored["T"]
        if M.chem and want:
            pass
        elif c["restart"]["T"] == "read" or c["T"]["kind"] != "solve":
            sim.T = F.TemperatureFromXDMF(p, lab)
            T_want = steps[w[-1]]["T"]
            done.append("TemperatureFromXDMF")
        else:
            j = [e["field"] for e in c["xdmf"]].index("T")
            k, n, idx = pickstep(c, w, j)
            sim.T = F.HeatTransferProblem(
                transient=True, initial_condition=F.InitialCondition(field="T", value=p, label=lab, time_step=idx),
                absolute_tolerance=1e-9,
            )
            T_want = steps[n]["T"]
            done.append("HeatTransferProblem")
    if not want and T_want is None:
        return done
    sim.initialise()
    s0 = model.state(sim, prev=True)
    if T_want is not None:
        for what, got in (("initial", model.nodal(sim.T.T_n)), ("current", model.nodal(sim.T.T))):
            if not np.abs(got - T_want).max() <= 1e-9 * np.abs(T_want).max():
                raise Violation("%s temperature read from %s differs from the exported one" % (what, stored["T"][0]))
    M2 = model.Model(d, sim)
    for comp, F_ in want.items():
        done.append("mobile" if comp == 0 else "trap")
        if comp == 0 and M.chem:

            def rows(M):
                m = M.m
                R = Rows(m)
                Tq = m.q(m.cg(s0["T"]))
                for mat in d["mats"]:
                    z = m.mask(model.aslist(mat["id"]))
                    r = m.q(F_) / arr(mat["S0"], mat["ES"], Tq)
                    R.mass(m.q(m.cg(s0["u"])), z)
                    R.mass(-(r if mat.get("law", "sievert") == "sievert" else np.maximum(r, 0.0) ** 0.5), z)
                return R

            if np.abs(F_).max() < 1e-9:
                continue  # empty field: the unknown starts at rounding level
            if any(mat.get("law") == "henry" for mat in d["mats"]) and F_.min() < 1e-3 * F_.max():
                continue  # square root of interpolated values around zero
            model.need(rows(M2).ratio((), 1e-6, 1e-7, rows(M2.coarse), 0.0), "restarted mobile concentration", 0.0)
            continue
        got = M.m.cg(s0["u"]) if comp == 0 else s0["traps"][comp - 1]
        if comp and c["settings"].get("elt") == "DG" and d["settings"].get("elt") == "CG":
            # a discontinuous field has no exact continuous counterpart
            v = F_.reshape(-1)
            if got.min() < v.min() - 1e-9 * np.abs(v).max() or got.max() > v.max() + 1e-9 * np.abs(v).max():
                raise Violation("restarted trap out of the range of the stored one")
            continue
        if not np.abs(got - F_).max() <= 1e-8 * np.abs(F_).max():
            raise Violation("restart: component %d differs from the exported field by %.3e of %.3e" % (comp, np.abs(got - F_).max(), np.abs(F_).max()))
    for comp in range(len(c["traps"]) + 1):
        if comp not in want:
            got = s0["u"] if comp == 0 else s0["traps"][comp - 1]
            if np.abs(got).max() > 0:
                raise Violation("restart: component %d without initial condition is not zero" % comp)
    return done
