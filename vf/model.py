"""Generated case (JSON dict) -> FESTIM simulation, and -> reference residuals."""
import copy
import numpy as np
from . import ex
from .ref import RMesh, Rows, arr, KB
from .core import Violation, Inconclusive, near


def aslist(x):
    return x if isinstance(x, list) else [x]


# ---------------------------------------------------------------- functions
# user supplied callables, written so that they work on UFL objects and arrays
def tfun(spec):
    """property of T: number -> number; {"f": [a, b]} -> callable a*(1+b*(T-500))"""
    if isinstance(spec, dict):
        a, b = spec["f"]
        return lambda T: a * (1.0 + b * (T - 500.0))
    return spec


def tval(spec, T):
    return tfun(spec)(T) if isinstance(spec, dict) else spec + 0.0 * T


CUSTOM = {
    "affine": lambda T, c, a, b: a - b * c,
    "quad": lambda T, c, a, b: a * T / 500.0 - b * c * c,
    "tonly": lambda T, c, a, b: (a - b * T / 500.0),
}
CUSTOM_T = {
    "radiative": lambda T, c, a, b: a - b * (T / 500.0) * T / 500.0,
    "affineT": lambda T, c, a, b: a - b * (T - 500.0),
}
CUSTOM_D = {
    "dprod": lambda T, a, b: a * (1.0 + b * (T - 500.0) / 500.0),
    "dsum": lambda T, a, b: a + b * T / 500.0,
}


# ---------------------------------------------------------------- geometry
def mesh_arrays(case):
    """own construction of vertices/cells/tags of the case"""
    g = case["mesh"]
    if g["kind"] == "1d":
        X = np.array(sorted(set(g["verts"])), float)[:, None]
        cells = np.array([[i, i + 1] for i in range(len(X) - 1)])
        ft = [((0,), 1), ((len(X) - 1,), 2)]
    else:
        nx, ny = g["nx"], g["ny"]
        xs = g["x0"] + g["lx"] * np.arange(nx + 1) / nx
        ys = g["ly"] * np.arange(ny + 1) / ny
        # vertex numbering of dolfin.RectangleMesh is not assumed: mapping is
        # done from dolfin's own coordinates, see attach()
        X = np.array([[x, y] for y in ys for x in xs])
        cells = None
        ft = None
    return X, cells, ft


def cell_tags(case, mid):
    """own assignment of volume ids from cell midpoints"""
    out = []
    for p in mid:
        tag = None
        for m in case["mats"]:
            b = m.get("borders") or m.get("mk")
            ids = aslist(m["id"])
            if b is None:
                tag = ids[0]
                break
            bl = b if isinstance(b[0], list) else [b]
            if len(ids) == 1:
                ids = ids * len(bl)
            for (lo, hi), i in zip(bl, ids):
                if lo < p[0] < hi:
                    tag = i
        out.append(tag)
    return np.array(out)


def rmesh(case, X=None, cells=None, nq=4):
    g = case["mesh"]
    coords = g.get("coords", "cartesian")
    if g["kind"] == "1d":
        X, cells, ft = mesh_arrays(case)
    else:
        x0, x1, y1 = g["x0"], g["x0"] + g["lx"], g["ly"]
        ft = []
        h = 1e-9 * max(g["lx"], g["ly"])
        seen = {}
        for c in cells:
            for k in range(len(c)):
                key = tuple(sorted(int(v) for j, v in enumerate(c) if j != k))
                seen[key] = seen.get(key, 0) + 1
        for key, n in seen.items():
            if n != 1:
                continue
            m = X[list(key)].mean(0)
            tag = (
                1
                if abs(m[0] - x0) < h
                else 2
                if abs(m[0] - x1) < h
                else 3
                if abs(m[1]) < h
                else 4
                if abs(m[1] - y1) < h
                else 5
                if abs(m[2]) < h
                else 6
            )
            ft.append((key, tag))
    mid = X[cells].mean(1)
    return RMesh(X, cells, cell_tags(case, mid), ft, coords, nq=nq)


def festim_mesh(case):
    import festim as F
    import fenics as f

    g = case["mesh"]
    kw = {}
    if g.get("coords", "cartesian") != "cartesian":
        kw["type"] = g["coords"]
    if g["kind"] == "1d":
        if not g.get("mk"):
            return F.MeshFromVertices(g["verts"], **kw)
        X = np.array(sorted(set(g["verts"])), float)
        mesh = f.IntervalMesh(len(X) - 1, 0.0, 1.0)
        mesh.coordinates()[:, 0] = X
    elif g["kind"] == "3d":
        mesh = f.BoxMesh(
            f.Point(g["x0"], 0.0, 0.0),
            f.Point(g["x0"] + g["lx"], g["ly"], g["lz"]),
            g["nx"],
            g["ny"],
            g["nz"],
        )
    else:
        mesh = f.RectangleMesh(
            f.Point(g["x0"], 0.0), f.Point(g["x0"] + g["lx"], g["ly"]), g["nx"], g["ny"]
        )
    dim = mesh.topology().dim()
    vm = f.MeshFunction("size_t", mesh, dim, 0)
    sm = f.MeshFunction("size_t", mesh, dim - 1, 0)
    m = rmesh(case, mesh.coordinates(), mesh.cells())
    for i, tag in enumerate(m.vol):
        vm[int(i)] = int(tag)
    tags = {k: t for k, _, _, t in m.facets}
    if g.get("stag"):  # surface ids chosen by the user, in the order of 1, 2...
        tags = {k: g["stag"][t - 1] if t else 0 for k, t in tags.items()}
    mesh.init(dim - 1, 0)
    for fc in f.facets(mesh):
        key = tuple(sorted(int(v) for v in fc.entities(0))) if dim > 1 else (int(fc.index()),)
        sm[fc] = int(tags.get(key, 0))
    return F.Mesh(mesh, vm, sm, **kw)


# ---------------------------------------------------------------- FESTIM side
def make_material(F, m):
    kw = {}
    for a, b in (("S0", "S_0"), ("ES", "E_S"), ("law", "solubility_law"), ("name", "name")):
        if m.get(a) is not None:
            kw[b] = m[a]
    for a, b in (("lam", "thermal_cond"), ("cp", "heat_capacity"), ("rho", "rho"), ("Q", "Q")):
        if m.get(a) is not None:
            kw[b] = tfun(m[a])
    if m.get("borders") is not None:
        kw["borders"] = m["borders"]
    return F.Material(m["id"], m["D0"], m["ED"], **kw)


def make_trap(F, t, mats):
    ml = [mats[i] for i in t["mats"]]
    if t.get("byname"):
        ml = [m.name or m for m in ml]
    if len(ml) == 1 and t.get("scalar_mat"):
        ml = ml[0]
    e = t.get("ext")
    kw = {}
    if t.get("id") is not None:
        kw["id"] = t["id"]
    if e is None:
        d = t["n"]
        d = [ex.sym(v) for v in d] if isinstance(d, list) else ex.sym(d)
        return F.Trap(t["k0"], t["Ek"], t["p0"], t["Ep"], ml, d, **kw)
    tol = dict(absolute_tolerance=1e-12, relative_tolerance=1e-12)
    if e.get("maxit"):
        tol["maximum_iterations"] = e["maxit"]
    p = {k: ex.sym(v) for k, v in e["p"].items()}
    cls = F.ExtrinsicTrap if e["kind"] == "ext" else F.NeutronInducedTrap
    return cls(t["k0"], t["Ek"], t["p0"], t["Ep"], ml, **p, **kw, **tol)


def make_bc(F, b):
    ty, s = b["type"], b["surf"]
    y = ex.sym
    if ty == "dirichlet":
        return F.DirichletBC(s, y(b["v"]), b.get("field", 0))
    if ty == "sieverts":
        return F.SievertsBC(s, b["S0"], b["ES"], y(b["P"]))
    if ty == "henrys":
        return F.HenrysBC(s, b["H0"], b["EH"], y(b["P"]))
    if ty == "implant":
        kw = {}
        for k in ("Kr_0", "E_Kr", "Kd_0", "E_Kd"):
            if b.get(k) is not None:
                kw[k] = b[k]
        if b.get("P") is not None:
            kw["P"] = y(b["P"])
        return F.ImplantationDirichlet(s, y(b["phi"]), y(b["Rp"]), b["D0"], b["ED"], **kw)
    if ty == "customd":
        return F.CustomDirichlet(
            s, CUSTOM_D[b["fn"]], field=b.get("field", 0), a=y(b["a"]), b=y(b["b"])
        )
    if ty == "flux":
        return F.FluxBC(s, y(b["v"]), field=b.get("field", 0))
    if ty == "rec":
        return F.RecombinationFlux(y(b["Kr0"]), y(b["EKr"]), b["order"], s)
    if ty == "dis":
        return F.DissociationFlux(y(b["Kd0"]), y(b["EKd"]), y(b["P"]), s)
    if ty == "mass":
        return F.MassFlux(y(b["h"]), y(b["cext"]), s)
    if ty == "custom":
        fn = CUSTOM_T[b["fn"]] if b.get("field") == "T" else CUSTOM[b["fn"]]
        return F.CustomFlux(s, fn, b.get("field", 0), a=y(b["a"]), b=y(b["b"]))
    if ty == "conv":
        return F.ConvectiveFlux(y(b["h"]), y(b["Text"]), s)
    if ty == "sk":
        return F.SurfaceKinetics(
            k_sb=SKF(b["ksb"]),
            k_bs=SKF(b["kbs"]),
            lambda_IS=b["lam"],
            n_surf=b["nsurf"],
            n_IS=b["nis"],
            J_vs=SKF(b["jvs"]),
            surfaces=s,
            initial_condition=b["ic"],
            prm1=y(b["prm1"]),
            prm2=y(b["prm2"]),
        )
    raise KeyError(ty)


def SKF(spec):
    """number, or ["prm", a] -> a*prm1, ["prm2", a] -> a*prm2, ["both", a] ->
    a*prm1*prm2, ["T", a] -> a*T/500, ["cs", a, n] -> a*prm1*(1-cs/n),
    ["cm", a, n] -> a*(1+cm/n)"""
    if not isinstance(spec, list):
        return spec
    k, a = spec[0], spec[1]
    n = spec[2] if len(spec) > 2 else None
    return {
        "prm": lambda T, cs, cm, prm1, prm2: a * prm1,
        "prm2": lambda T, cs, cm, prm1, prm2: a * prm2,
        "both": lambda T, cs, cm, prm1, prm2: a * prm1 * prm2,
        "T": lambda T, cs, cm, prm1, prm2: a * T / 500.0,
        "cs": lambda T, cs, cm, prm1, prm2: a * prm1 * (1.0 - cs / n),
        "cm": lambda T, cs, cm, prm1, prm2: a * (1.0 + cm / n),
    }[k]


def make_source(F, s):
    ty = s.get("type", "src")
    if ty == "src":
        return F.Source(ex.sym(s["v"]), s["vol"], s["field"])
    if ty == "imp":
        return F.ImplantationFlux(ex.sym(s["v"]), ex.sym(s["depth"]), ex.sym(s["width"]), s["vol"])
    if ty == "decay":
        return F.RadioactiveDecay(s["lam"], s["vol"], s["field"])


class Recorder:
    """Snapshots through the public extension point: user-defined derived
    quantities whose compute() is called at each exported step."""

    def __init__(self, sim, nm_traps):
        import festim as F

        rec = self
        self.steps = []

        class Snap(F.DerivedQuantity):
            title = "snap"
            export_unit = ""

            def compute(self):
                rec.snap()
                return 0.0

        self.sim = sim
        self.dq = F.DerivedQuantities([Snap("solute")])
        self.nt = nm_traps

    def snap(self):
        self.steps.append(state(self.sim))
        self.steps[-1]["t"] = float(self.sim.t)


def cellvals(fun, nc):
    V = fun.function_space()
    dm = V.dofmap()
    v = fun.vector().get_local()
    return np.array([v[dm.cell_dofs(c)] for c in range(nc)])


def nodal(fun):
    mesh = fun.function_space().mesh()
    return np.array(fun.compute_vertex_values(mesh))


def state(sim, prev=False):
    """mobile unknown (c or theta), traps, adsorbed, T as arrays"""
    h = sim.h_transport_problem
    u = h.u_n if prev else h.u
    mesh = sim.mesh.mesh
    nc = mesh.num_cells()
    out = {}
    parts = [u] if u.function_space().num_sub_spaces() == 0 else list(u.split())
    out["u"] = nodal(parts[0])
    n = len(sim.traps)
    out["traps"] = [cellvals(p, nc) for p in parts[1 : 1 + n]]
    out["ads"] = [float(np.atleast_1d(nodal(p))[0]) for p in parts[1 + n :]]
    out["T"] = nodal(sim.T.T)
    if not prev:
        pp = sim.mobile.post_processing_solution
        if sim.settings.chemical_pot:
            out["c"] = cellvals(pp, nc)
        else:
            out["c"] = nodal(pp)[mesh.cells()]
    out["dens"] = [
        nodal(t.density[0]) if hasattr(t, "density_previous_solution") and t.density else None
        for t in sim.traps
    ]
    return out


def build(case, exports=(), record=True):
    import festim as F

    st = case["settings"]
    sim = F.Simulation(log_level=50)
    sim.mesh = festim_mesh(case)
    mats = [make_material(F, m) for m in case["mats"]]
    sim.materials = F.Materials(mats)
    sim.traps = F.Traps([make_trap(F, t, mats) for t in case.get("traps", [])])
    T = case["T"]
    if T["kind"] == "val":
        sim.T = F.Temperature(ex.sym(T["v"]))
    else:
        kw = dict(
            transient=T["transient"], absolute_tolerance=T.get("atol", 1e-9), relative_tolerance=T.get("rtol", 1e-14)
        )
        if T["transient"]:
            ic = ex.sym(T["ic"])
            kw["initial_condition"] = F.InitialCondition(field="T", value=ic) if T.get("icobj") else ic
        if T.get("maxit"):
            kw["maximum_iterations"] = T["maxit"]
        sim.T = F.HeatTransferProblem(**kw)
    sim.boundary_conditions = [make_bc(F, b) for b in case.get("bcs", [])]
    sim.sources = [make_source(F, s) for s in case.get("sources", [])]
    sim.initial_conditions = [
        F.InitialCondition(field=i["field"], value=i["file"], label=i["label"], time_step=i["step"])
        if i.get("file")
        else F.InitialCondition(field=i["field"], value=ex.sym(i["v"]))
        for i in case.get("ics", [])
    ]
    kw = {}
    if st.get("transient", True):
        kw["final_time"] = st["final"]
    else:
        kw["transient"] = False
    if st.get("chem"):
        kw["chemical_pot"] = True
    if st.get("soret"):
        kw["soret"] = True
    if st.get("elt"):
        kw["traps_element_type"] = st["elt"]
    if st.get("uj") is not None:
        kw["update_jacobian"] = st["uj"]
    sim.settings = F.Settings(st.get("atol", 1e-11), st.get("rtol", 1e-14), **kw)
    if st.get("maxit"):
        sim.settings.maximum_iterations = st["maxit"]
    if st.get("transient", True):
        d = case["dt"]
        if isinstance(d, dict):
            d = dict(d)
            ms = d.pop("max_stepsize", None)
            if isinstance(ms, list):  # [[t_from, cap], ...]
                tab = ms
                d["max_stepsize"] = lambda t: next((c for t0, c in reversed(tab) if t >= t0), None)
            elif ms is not None:
                d["max_stepsize"] = ms
            sim.dt = F.Stepsize(**d)
        else:
            sim.dt = F.Stepsize(d)
    ex_list = list(exports)
    rec = None
    if record:
        rec = Recorder(sim, len(sim.traps))
        ex_list.append(rec.dq)
    sim.exports = ex_list
    sim.vf_mats = mats
    if case.get("style") == "append":
        sim = appended(F, sim)
        if rec:
            rec.sim = sim
    return sim, rec


def appended(F, old):
    """the same model assembled with append() on the default collections"""
    sim = F.Simulation(log_level=50)
    sim.mesh, sim.T, sim.settings, sim.dt = old.mesh, old.T, old.settings, old.dt
    sim.materials = F.Materials()
    for name in ("materials", "traps", "boundary_conditions", "sources", "initial_conditions", "exports"):
        box = getattr(sim, name)
        if len(box):
            raise Violation("a new model starts with %s of another one" % name)
        for x in getattr(old, name):
            box.append(x)
    sim.vf_mats = old.vf_mats
    return sim


class Guard:
    """bounds the number of nonlinear solves (deterministic non-termination guard)"""

    def __init__(self, limit=400):
        self.limit, self.n = limit, 0

    def __enter__(self):
        import dolfin

        self.orig = dolfin.cpp.nls.NewtonSolver.solve
        g = self

        def solve(slf, *a):
            g.n += 1
            if g.n > g.limit:
                raise Violation("more than %d nonlinear solves: the run does not terminate" % g.limit)
            return g.orig(slf, *a)

        dolfin.cpp.nls.NewtonSolver.solve = solve
        return self

    def __exit__(self, *a):
        import dolfin

        dolfin.cpp.nls.NewtonSolver.solve = self.orig


def run(case, exports=(), limit=400, record=True, hook=None, again=False):
    """initialise + run; returns sim, list of states (index 0: initial)
    hook: called on the initialised model; again: a first complete run precedes"""
    sim, rec = build(case, exports, record)
    return sim, finish(sim, rec, limit, hook, again)


def finish(sim, rec=None, limit=400, hook=None, again=False):
    try:
        return _finish(sim, rec, limit, hook, again)
    except (ValueError, RuntimeError) as e:
        # Newton's method is not guaranteed to converge: the run stopped
        # with FESTIM's error, there is no solution to judge
        if "diverged" in str(e) or "did not converge" in str(e) or "stepsize reached" in str(e):
            raise Inconclusive("no convergence: %s" % str(e)[-200:])
        raise


def _finish(sim, rec, limit, hook, again):
    if again:
        with Guard(limit):
            sim.initialise()
            sim.run()
        if rec:
            rec.steps.clear()
    with Guard(limit):
        sim.initialise()
        if hook:
            hook(sim)
        s0 = state(sim, prev=True)
        s0["t"] = 0.0
        if hasattr(sim.T, "F") and sim.T.transient:
            s0["T"] = nodal(sim.T.T_n)
        sim.run()
    return [s0] + (rec.steps if rec else [])


# ---------------------------------------------------------------- reference
class Model:
    def __init__(self, case, sim=None):
        self.case = case
        self.coarse = None
        if case["mesh"]["kind"] == "1d":
            self.m, lo = rmesh(case), rmesh(case, nq=2)
        else:
            mm = sim.mesh.mesh
            X, cells = np.array(mm.coordinates()), np.array(mm.cells())
            self.m, lo = rmesh(case, X, cells), rmesh(case, X, cells, nq=2)
        st = case["settings"]
        self.chem = bool(st.get("chem"))
        self.soret = bool(st.get("soret"))
        self.elt = st.get("elt") or "CG"
        self.transient = st.get("transient", True)
        self.bcs = case.get("bcs", [])
        self.coarse = copy.copy(self)
        self.coarse.m, self.coarse.coarse = lo, None

    def ratio(self, fun, skip, rel, glob, atol=None):
        """normalised residual of the rows fun(model)"""
        if atol is None:
            atol = self.case["settings"]["atol"]
        return fun(self).ratio(skip, rel, glob, fun(self.coarse), 2 * atol)

    # --- concentration from the unknown
    def conc(self, mat, uq, gu, Tq, gT):
        """c and grad c at quadrature points; uq (nc,nq), gu (nc,d)"""
        if not self.chem:
            return uq, np.repeat(gu[:, None, :], uq.shape[1], 1)
        S = arr(mat["S0"], mat["ES"], Tq)
        dS = S * mat["ES"] / KB / Tq**2
        if mat.get("law", "sievert") == "sievert":
            return uq * S, S[..., None] * gu[:, None, :] + (uq * dS)[..., None] * gT[:, None, :]
        return uq**2 * S, (2 * uq * S)[..., None] * gu[:, None, :] + (uq**2 * dS)[
            ..., None
        ] * gT[:, None, :]

    def facet_c(self, u, T, Nf, key, ci):
        uq = Nf @ u[list(key)]
        if not self.chem:
            return uq
        Tq = Nf @ T[list(key)]
        mat = self.mat_of(self.m.vol[ci])
        S = arr(mat["S0"], mat["ES"], Tq)
        if self.coarse is None:
            # a solubility interpolated in the cell is within the tolerance
            cell = self.m.cells[ci].tolist()
            p = self.cell_S(mat, T)[ci]
            S = Nf @ np.array([p[cell.index(v)] for v in key])
        return uq * S if mat.get("law", "sievert") == "sievert" else uq**2 * S

    def cell_S(self, mat, T):
        """cell-wise linear L2 projection of the solubility, (nc, d+1)"""
        m = self.m
        A = np.einsum("q,qa,qb->ab", m.w, m.N, m.N)
        S = arr(mat["S0"], mat["ES"], m.q(m.cg(T)))
        return np.linalg.solve(A, np.einsum("cq,q,qa->ca", S, m.w, m.N).T).T

    def mat_of(self, vid):
        for m in self.case["mats"]:
            if vid in aslist(m["id"]):
                return m
        raise KeyError(vid)

    def mobile_rows(self, prev, cur, dt, t):
        m, case = self.m, self.case
        R = Rows(m)
        T, u = cur["T"], cur["u"]
        Tc = m.cg(T)
        Tq, gT = m.q(Tc), m.grad(Tc)
        uq, gu = m.q(m.cg(u)), m.grad(m.cg(u))
        if prev is not None:
            Tnq, gTn = m.q(m.cg(prev["T"])), m.grad(m.cg(prev["T"]))
            upq, gup = m.q(m.cg(prev["u"])), m.grad(m.cg(prev["u"]))
        cq_all = np.zeros_like(uq)
        for mat in case["mats"]:
            k = m.mask(aslist(mat["id"]))
            c, gc = self.conc(mat, uq, gu, Tq, gT)
            cq_all[k] = c[k]
            if self.chem and self.coarse is None:
                # decay uses the interpolated solubility
                cq_all[k] = (c / arr(mat["S0"], mat["ES"], Tq) * m.q(self.cell_S(mat, T)))[k]
            if prev is not None:
                cn, _ = self.conc(mat, upq, gup, Tnq, gTn)
                R.mass(c / dt, k)
                R.mass(-cn / dt, k)
            D = arr(mat["D0"], mat["ED"], Tq)
            R.diff(D[..., None] * gc, k)
            R.magnitude(D * np.abs(self.conc(mat, m.gradmag(m.cg(u))[:, None] + 0 * Tq, gu, Tq, gT)[0]) if not self.chem else D * np.abs(c) * m.gradmag(np.ones_like(Tc))[:, None], k)
            if self.soret:
                Q = tval(mat["Q"], Tq)
                R.diff((D * Q * c / KB / Tq**2)[..., None] * gT[:, None, :], k)
        for tr, ct in zip(case.get("traps", []), cur["traps"]):
            ctq = m.q(ct)
            for mi, k0, Ek, p0, Ep, nq in self.trap_terms(tr, cur, t):
                k = m.mask(aslist(case["mats"][mi]["id"]))
                R.mass(arr(k0, Ek, Tq) * cq_all * (nq - ctq), k)
                R.mass(-arr(p0, Ep, Tq) * ctq, k)
        self.source_rows(R, "mobile", cq_all, t)
        for b in self.bcs:
            if b.get("field", 0) not in (0, "0", "solute"):
                continue
            self.flux_rows(R, b, u, T, t, prev, dt, cur)
        return R

    def trap_terms(self, tr, cur, t):
        m = self.m
        idx = self.case["traps"].index(tr)
        for j, mi in enumerate(tr["mats"]):
            g = lambda a: a[j] if isinstance(a, list) else a
            if tr.get("ext"):
                nq = m.q(m.cg(cur["dens_used"][idx]))
            else:
                n = tr["n"]
                if isinstance(n, list):
                    n = n[j] if isinstance(tr["k0"], list) else n[0]
                nq = ex.val(n, m.Xq, t)
            yield mi, g(tr["k0"]), g(tr["Ek"]), g(tr["p0"]), g(tr["Ep"]), nq

    def source_rows(self, R, which, conc_q, t):
        m = self.m
        for s in self.case.get("sources", []):
            ty = s.get("type", "src")
            f = s.get("field", "0") if ty != "imp" else "0"
            tgt = "mobile" if f in (0, "0", "solute", "mobile") else f if f in ("T", "all") else int(f)
            if ty == "decay" and tgt == "all" and which != "T":
                pass
            elif tgt != which:
                continue
            k = m.mask(aslist(s["vol"]))
            if ty == "decay":
                R.mass(s["lam"] * conc_q, k)
            elif ty == "imp":
                prof = lambda x: implanted(s, x, t)
                R.mass(-(prof(m.Xq) if self.coarse is None else m.p2(prof)), k)
            else:
                R.mass(-ex.val(s["v"], m.Xq, t), k)

    def flux_value(self, b, Xf, c, Tf, t):
        """documented law: hydrogen (heat) entering per area and time"""
        ty = b["type"]
        v = lambda key: ex.val(b[key], Xf, t)
        if ty == "flux":
            return v("v")
        if ty == "rec":
            return -v("Kr0") * np.exp(-v("EKr") / KB / Tf) * c ** b["order"]
        if ty == "dis":
            return v("Kd0") * np.exp(-v("EKd") / KB / Tf) * v("P")
        if ty == "mass":
            return -v("h") * (c - v("cext"))
        if ty == "custom":
            fn = CUSTOM_T[b["fn"]] if b.get("field") == "T" else CUSTOM[b["fn"]]
            return fn(Tf, c, a=v("a"), b=v("b")) + 0 * Tf
        if ty == "conv":
            return -v("h") * (Tf - v("Text"))
        return None

    def sk_index(self, b):
        """offset of the adsorbed unknowns of this BC"""
        i = 0
        for o in self.bcs:
            if o is b:
                return i
            if o["type"] == "sk":
                i += len(aslist(o["surf"]))

    def sk_fluxes(self, b, j, surf, u, T, cs, t):
        m = self.m
        for key, ci, k, tag in m.facets:
            if tag == surf:
                v = key[0]
                cm = float(self.facet_c(u, T, np.ones((1, 1)), key, ci)[0])
                Tf = float(T[v])
                prm = {k: float(ex.val(b[k], m.X[v][None], t)[0]) for k in ("prm1", "prm2")}
                g = lambda s: float(SKF(s)(Tf, cs, cm, **prm)) if isinstance(s, list) else float(s)
                jsb = g(b["ksb"]) * cs * (1 - cm / b["nis"])
                jbs = g(b["kbs"]) * cm * (1 - cs / b["nsurf"])
                return v, cm, g(b["jvs"]), jbs, jsb
        raise KeyError(surf)

    def flux_rows(self, R, b, u, T, t, prev, dt, cur):
        if b["type"] in ("dirichlet", "sieverts", "henrys", "implant", "customd"):
            return
        if b["type"] == "sk":
            off = self.sk_index(b)
            for j, s in enumerate(aslist(b["surf"])):
                v, cm, jvs, jbs, jsb = self.sk_fluxes(b, j, s, u, T, cur["ads"][off + j], t)
                terms = [jbs, -jsb]
                if prev is not None:
                    _, cmn, _, _, _ = self.sk_fluxes(
                        b, j, s, prev["u"], prev["T"], prev["ads"][off + j], t
                    )
                    terms += [b["lam"] * cm / dt, -b["lam"] * cmn / dt]
                for x in terms:
                    R.R[v] += x
                    R.S[v] += abs(x)
            return

        def g(Xf, key, Nf, ci):
            return -self.flux_value(b, Xf, self.facet_c(u, T, Nf, key, ci), Nf @ T[list(key)], t)

        R.surf(g, aslist(b["surf"]))

    def trap_rows(self, i, prev, cur, dt, t):
        m, case = self.m, self.case
        tr = case["traps"][i]
        R = Rows(m, "dg" if self.elt == "DG" else "cg")
        Tc = m.cg(cur["T"])
        Tq, gT = m.q(Tc), m.grad(Tc)
        uq, gu = m.q(m.cg(cur["u"])), m.grad(m.cg(cur["u"]))
        ctq = m.q(cur["traps"][i])
        if prev is not None:
            R.mass(ctq / dt)
            R.mass(-m.q(prev["traps"][i]) / dt)
        else:
            mine = set(tr["mats"])
            for j, mat in enumerate(case["mats"]):
                if j not in mine:
                    R.mass(ctq, m.mask(aslist(mat["id"])))
        for mi, k0, Ek, p0, Ep, nq in self.trap_terms(tr, cur, t):
            mat = case["mats"][mi]
            k = m.mask(aslist(mat["id"]))
            c, _ = self.conc(mat, uq, gu, Tq, gT)
            R.mass(-arr(k0, Ek, Tq) * c * (nq - ctq), k)
            R.mass(arr(p0, Ep, Tq) * ctq, k)
        self.source_rows(R, i + 1, ctq, t)
        return R

    def heat_rows(self, prev, cur, dt, t):
        m, case = self.m, self.case
        R = Rows(m)
        Tc = m.cg(cur["T"])
        Tq, gT = m.q(Tc), m.grad(Tc)
        for mat in case["mats"]:
            k = m.mask(aslist(mat["id"]))
            if prev is not None:
                rc = tval(mat["rho"], Tq) * tval(mat["cp"], Tq)
                R.mass(rc * Tq / dt, k)
                R.mass(-rc * m.q(m.cg(prev["T"])) / dt, k)
            lam = tval(mat["lam"], Tq)
            R.diff(lam[..., None] * gT[:, None, :], k)
            R.magnitude(lam * m.gradmag(Tc)[:, None], k)
        self.source_rows(R, "T", None, t)
        for b in self.bcs:
            if b.get("field") != "T" or b["type"] in ("dirichlet", "customd"):
                continue

            def g(Xf, key, Nf, ci, b=b):
                return -self.flux_value(b, Xf, None, Nf @ cur["T"][list(key)], t)

            R.surf(g, aslist(b["surf"]))
        return R

    def density_rows(self, i, prev, cur, dt, t):
        """extrinsic trap density over (prev -> cur) with step dt at time t"""
        m = self.m
        e = self.case["traps"][i]["ext"]
        R = Rows(m)
        n = m.q(m.cg(cur["dens"][i]))
        nn = m.q(m.cg(prev["dens"][i]))
        v = {k: ex.val(s, m.Xq, t) for k, s in e["p"].items()}
        R.mass(n / dt)
        R.mass(-nn / dt)
        if e["kind"] == "ext":
            R.mass(-v["phi_0"] * (1 - n / v["n_amax"]) * v["eta_a"] * v["f_a"])
            R.mass(-v["phi_0"] * (1 - n / v["n_bmax"]) * v["eta_b"] * v["f_b"])
        else:
            Tq = m.q(m.cg(cur["T"]))
            R.mass(-v["phi"] * v["K"] * (1 - n / v["n_max"]))
            R.mass(v["A_0"] * np.exp(-v["E_A"] / KB / Tq) * n)
        return R

    # --- Dirichlet
    def dirichlet(self, field):
        """list of (bc, surface) applied to `field`"""
        out = []
        for b in self.bcs:
            if b["type"] in ("dirichlet", "sieverts", "henrys", "implant", "customd"):
                f = b.get("field", 0)
                f = 0 if f in (0, "0", "solute") else f if f == "T" else int(f)
                if f == field:
                    for s in aslist(b["surf"]):
                        out.append((b, s))
        return out

    def surf_vertices(self, s):
        return sorted({v for key, _, _, tag in self.m.facets if tag == s for v in key})

    def dirichlet_value(self, b, v, T, t):
        X = self.m.X[v][None]
        Tv = float(T[v])
        y = lambda k: float(ex.val(b[k], X, t)[0])
        ty = b["type"]
        if ty == "dirichlet":
            return y("v")
        if ty == "sieverts":
            return b["S0"] * np.exp(-b["ES"] / KB / Tv) * y("P") ** 0.5
        if ty == "henrys":
            return b["H0"] * np.exp(-b["EH"] / KB / Tv) * y("P")
        if ty == "implant":
            D = b["D0"] * np.exp(-b["ED"] / KB / Tv)
            c = y("phi") * y("Rp") / D
            if b.get("Kr_0") is not None:
                Kr = b["Kr_0"] * np.exp(-b["E_Kr"] / KB / Tv)
                num = y("phi")
                if b.get("Kd_0") is not None:
                    num += b["Kd_0"] * np.exp(-b["E_Kd"] / KB / Tv) * y("P")
                c += (num / Kr) ** 0.5
            return c
        if ty == "customd":
            return float(CUSTOM_D[b["fn"]](Tv, a=y("a"), b=y("b")))
        raise KeyError(ty)

    def skip(self, field):
        return {v for b, s in self.dirichlet(field) for v in self.surf_vertices(s)}


# ---------------------------------------------------------------- verdicts
def implanted(s, X, t):
    """documented implantation profile at the positions X"""
    v, d, w = (ex.val(s[k], X, t) for k in ("v", "depth", "width"))
    return v * np.exp(-0.5 * ((X[..., 0] - d) / w) ** 2) / (w * np.sqrt(2 * np.pi))


def need(z, what, t=None, where=None):
    ratio, row = z
    near(ratio, what)
    if not np.isfinite(ratio) or ratio > 1.0:
        raise Violation(
            "%s: normalised residual %.3e of the tolerance at row %s, t=%s" % (what, ratio, row, t)
        )


def check_mobile(M, states, rel=1e-6, glob=1e-7, what="hydrogen transport equation"):
    if M.transient:
        for a, b in zip(states[:-1], states[1:]):
            f = lambda m: m.mobile_rows(a, b, b["t"] - a["t"], b["t"])
            need(M.ratio(f, M.skip(0), rel, glob), what, b["t"])
    else:
        f = lambda m: m.mobile_rows(None, states[-1], None, 0.0)
        need(M.ratio(f, M.skip(0), rel, glob), what, "steady")


def check_traps(M, states, rel=1e-6, glob=1e-7, what="trapping equation"):
    for i in range(len(M.case.get("traps", []))):
        skip = M.skip(i + 1)
        if M.transient:
            for a, b in zip(states[:-1], states[1:]):
                f = lambda m: m.trap_rows(i, a, b, b["t"] - a["t"], b["t"])
                need(M.ratio(f, skip, rel, glob), what + " of trap %d" % (i + 1), b["t"])
        else:
            f = lambda m: m.trap_rows(i, None, states[-1], None, 0.0)
            need(M.ratio(f, skip, rel, glob), what + " of trap %d" % (i + 1), "steady")


def check_heat(M, states, rel=1e-6, glob=1e-7):
    atol = M.case["T"].get("atol", 1e-9)
    if M.case["T"]["transient"]:
        for a, b in zip(states[:-1], states[1:]):
            f = lambda m: m.heat_rows(a, b, b["t"] - a["t"], b["t"])
            need(M.ratio(f, M.skip("T"), rel, glob, atol), "heat equation", b["t"])
    else:
        for b in states[1:]:
            f = lambda m: m.heat_rows(None, b, None, 0.0)
            need(M.ratio(f, M.skip("T"), rel, glob, atol), "steady heat equation", b["t"])


def check_dirichlet(M, states, rel=1e-9, abs_=0.0):
    """fixed values; where surfaces with different conditions meet (corners)
    any of the stated values is accepted"""
    fields = [0, "T"] + [i + 1 for i in range(len(M.case.get("traps", [])))]
    for b in states[1:]:
        t = b["t"] if M.transient else 0.0
        for f in fields:
            wants = {}
            for bc, s in M.dirichlet(f):
                for v in M.surf_vertices(s):
                    tt = t if f != "T" or M.case["T"].get("transient") else 0.0
                    wants.setdefault(v, []).append((M.dirichlet_value(bc, v, b["T"], tt), bc, s))
            for v, lst in wants.items():
                if f == "T":
                    gots = [b["T"][v]]
                elif f == 0:
                    gots = [x for _, _, s in lst for x in vertex_c(M, b, v, s)]
                else:
                    k, a = np.argwhere(M.m.cells == v)[0]
                    gots = [b["traps"][f - 1][k, a]]
                if not any(abs(got - w) <= rel * abs(w) + abs_ for w, _, _ in lst for got in gots):
                    w, bc, s = lst[0]
                    got = gots[0]
                    raise Violation(
                        "Dirichlet %s on surface %s field %s: %.12g instead of %.12g at t=%s"
                        % (bc["type"], s, f, got, w, b["t"])
                    )


def vertex_c(M, st, v, s):
    """mobile concentrations at vertex v seen from the cells carrying surface s"""
    if not M.chem:
        return [st["u"][v]]
    out = []
    for key, ci, k, tag in M.m.facets:
        if tag == s and v in key:
            mat = M.mat_of(M.m.vol[ci])
            S = arr(mat["S0"], mat["ES"], st["T"][v])
            th = st["u"][v]
            out.append(th * S if mat.get("law", "sievert") == "sievert" else th**2 * S)
    return out


def dg_conc(M, b):
    """cell-wise L2 projection of c(theta, T)"""
    m = M.m
    uq, gu = m.q(m.cg(b["u"])), m.grad(m.cg(b["u"]))
    Tq, gT = m.q(m.cg(b["T"])), m.grad(m.cg(b["T"]))
    want = np.zeros(m.cells.shape)
    A = np.einsum("q,qa,qb->ab", m.w, m.N, m.N)
    for mat in M.case["mats"]:
        k = m.mask(aslist(mat["id"]))
        c, _ = M.conc(mat, uq, gu, Tq, gT)
        if M.coarse is None:
            c = c / arr(mat["S0"], mat["ES"], Tq) * m.q(M.cell_S(mat, b["T"]))
        rhs = np.einsum("cq,q,qa->ca", c, m.w, m.N)
        want[k] = np.linalg.solve(A, rhs.T).T[k]
    return want


def check_reported(M, sim, states, rel=1e-6):
    """the reported mobile concentration is the documented function of the unknown"""
    for b in states[1:]:
        if not M.chem:
            want = b["u"][M.m.cells]
            tol = rel * np.abs(want).max()
        else:
            want = dg_conc(M, b)
            tol = rel * np.abs(want).max() + 5 * np.abs(want - dg_conc(M.coarse, b)).max()
        d = np.abs(b["c"] - want).max()
        near(d / max(tol, 1e-300), "reported concentration")
        if not d <= tol:
            raise Violation(
                "reported mobile concentration differs from c(theta, T) by %.3e (scale %.3e) at t=%s"
                % (d, np.abs(want).max(), b["t"])
            )


def varied(states):
    u = states[-1]["u"]
    return bool(np.ptp(u) > 1e-3 * np.abs(u).max() > 0)


def count(M, states):
    return int((len(states) - 1) * len(M.m.X) * (1 + len(M.case.get("traps", []))))


def labels(c):
    s = c["settings"]
    out = [c["mesh"]["kind"] + "-" + c["mesh"].get("coords", "cartesian"), "mats%d" % len(c["mats"])]
    out.append("transient" if s.get("transient", True) else "steady")
    out.append("T:" + (c["T"]["v"]["k"] if isinstance(c["T"].get("v"), dict) else c["T"]["kind"]))
    if isinstance(c.get("dt"), dict):
        out.append("adaptive")
    if any(isinstance(m["id"], list) for m in c["mats"]):
        out.append("multi-layer")
    for k in ("chem", "soret", "elt", "uj"):
        if s.get(k) is not None:
            out.append(k + ("=" + str(s[k]) if k in ("elt", "uj") else ""))
    for m in c["mats"]:
        if m.get("law") == "henry":
            out.append("henry")
    for t in c.get("traps", []):
        out.append("trap")
        if isinstance(t["k0"], list):
            out.append("trap-list")
        if t.get("ext"):
            out.append("trap-" + t["ext"]["kind"])
        elif isinstance(t["n"], dict):
            out.append("dens:" + t["n"]["k"])
    for b in c.get("bcs", []):
        out.append("bc:" + b["type"] + (":T" if b.get("field") == "T" else ":trap" if b.get("field", 0) not in (0, "0", "solute") else ""))
    for q in c.get("sources", []):
        out.append("src:" + q.get("type", "src") + ":" + str(q.get("field", "0")))
    return sorted(set(out))


def spread(a):
    a = np.asarray(a, float)
    return float(np.ptp(a) / max(np.abs(a).max(), 1e-300))


def trapped(c, states):
    return any(np.abs(ct).max() > 1e-6 * np.abs(states[-1]["u"]).max() > 0 for ct in states[-1]["traps"])


def check_outside(M, states):
    """cells not touching a trap's materials keep their initial content minus
    nothing; in steady state they are empty"""
    for i, tr in enumerate(M.case.get("traps", [])):
        ids = [v for mi in tr["mats"] for v in aslist(M.case["mats"][mi]["id"])]
        inside = M.m.mask(ids)
        touched = set(M.m.cells[inside].ravel().tolist())
        # sources and conditions on the trap may add hydrogen there
        if any(s.get("type", "src") != "imp" and str(s.get("field")) in (str(i + 1), "all") for s in M.case.get("sources", [])):
            continue
        if M.skip(i + 1) or M.elt != "DG":
            continue
        far = np.array([not inside[k] and not (touched & set(c.tolist())) for k, c in enumerate(M.m.cells)])
        if not far.any():
            continue
        scale = max(np.abs(s["traps"][i]).max() for s in states)
        for s in states[1:]:
            want = states[0]["traps"][i] if M.transient else 0.0 * states[0]["traps"][i]
            d = np.abs(s["traps"][i] - want)[far].max()
            if d > 1e-6 * scale:
                raise Violation("trap %d changed by %.3e outside its materials at t=%s" % (i + 1, d, s["t"]))


def same(A, B, rel, what):
    if len(A) != len(B):
        raise Violation("%s: %d solutions instead of %d" % (what, len(A), len(B)))
    for a, b in zip(A, B):
        for k in ("u", "T", "c"):
            if k in a and k in b:
                s = np.abs(b[k]).max()
                if not np.abs(a[k] - b[k]).max() <= rel * s:
                    raise Violation("%s: %s differs at t=%s" % (what, k, b["t"]))
        for x, y in zip(a["traps"], b["traps"]):
            if not np.abs(x - y).max() <= rel * max(np.abs(y).max(), 1e-300):
                raise Violation("%s: trap differs at t=%s" % (what, b["t"]))
        if abs(a["t"] - b["t"]) > 1e-9 * abs(b["t"]):
            raise Violation("%s: times %r and %r differ" % (what, a["t"], b["t"]))


def check_T0(M, states):
    T = M.case["T"]
    if T["kind"] == "solve" and T["transient"]:
        want = ex.val(T["ic"], M.m.X, 0.0)
        if not np.allclose(states[0]["T"], want, rtol=1e-9):
            raise Violation("initial temperature differs from the given one")


def check_T(M, states, rel=1e-9):
    """a prescribed temperature has its stated value at every solution time"""
    for s in states[1:]:
        want = ex.val(M.case["T"]["v"], M.m.X, s["t"] if M.transient else 0.0)
        if not np.allclose(s["T"], want, rtol=rel):
            raise Violation("temperature differs from the given one at t=%s" % s["t"])


def ads_exports(c):
    import festim as F

    surfs = [s for b in c["bcs"] if b["type"] == "sk" for s in aslist(b["surf"])]
    qs = [F.AdsorbedHydrogen(s) for s in reversed(surfs)]
    return dict(zip(reversed(surfs), qs)), F.DerivedQuantities(qs)


def check_adsorbed(M, sim, states, vals, rel=1e-6):
    for b in M.bcs:
        if b["type"] != "sk":
            continue
        off = M.sk_index(b)
        for j, s in enumerate(aslist(b["surf"])):
            k = off + j
            if M.transient and not abs(states[0]["ads"][k] - b["ic"]) <= 1e-12 * abs(b["ic"]):
                raise Violation("initial adsorbed concentration of surface %s" % s)
            for n, cur in enumerate(states[1:], 1):
                t = cur["t"] if M.transient else 0.0
                v, cm, jvs, jbs, jsb = M.sk_fluxes(b, j, s, cur["u"], cur["T"], cur["ads"][k], t)
                terms = [jvs, jbs, -jsb]
                if M.transient:
                    dt = cur["t"] - states[n - 1]["t"]
                    terms += [-cur["ads"][k] / dt, states[n - 1]["ads"][k] / dt]
                r = sum(terms)
                near(abs(r) / max(rel * sum(map(abs, terms)), 1e-300), "adsorbed balance")
                if not abs(r) <= rel * sum(map(abs, terms)):
                    raise Violation("adsorbed balance on surface %s: %.3e of %.3e at t=%s" % (s, r, sum(map(abs, terms)), cur["t"]))
                got = vals[s].data[n - 1]
                if not abs(got - cur["ads"][k]) <= 1e-9 * abs(cur["ads"][k]):
                    raise Violation("AdsorbedHydrogen(%s) reports %r instead of %r" % (s, got, cur["ads"][k]))


def adsorbed(c, states):
    ns = [b["nsurf"] for b in c["bcs"] if b["type"] == "sk"]
    return max(abs(a - b) for a, b in zip(states[-1]["ads"], states[0]["ads"])) > 1e-6 * min(ns)


def lag_density(c, states):
    """the occupancy of a step uses the density reached at its beginning"""
    for a, b in zip(states[:-1], states[1:]):
        b["dens_used"] = a["dens"]


def check_density(M, states, rel=1e-6, glob=1e-7):
    for i, t in enumerate(M.case["traps"]):
        if not t.get("ext"):
            continue
        if np.abs(states[0]["dens"][i]).max() > 0:
            raise Violation("the density of trap %d does not start at zero" % (i + 1))
        for a, b in zip(states[:-1], states[1:]):
            f = lambda m: m.density_rows(i, a, b, b["t"] - a["t"], b["t"])
            need(M.ratio(f, (), rel, glob), "density of trap %d" % (i + 1), b["t"])


def check_initial(M, states, rel=1e-9):
    m, s0 = M.m, states[0]
    given = {i["k"]: i["v"] for i in M.case["ics"]}
    for f in range(len(M.case["traps"]) + 1):
        v = given.get(f, 0.0)
        at = ex.val(v, m.X, 0.0)
        if f == 0:
            if not M.chem:
                ok = np.abs(s0["u"] - at).max() <= rel * np.abs(at).max()
                if not ok:
                    raise Violation("initial mobile concentration differs from the given one")
            else:
                # theta is the projection of c/S (sqrt(c/S)) of each material
                def rows(M):
                    m = M.m
                    R = Rows(m)
                    Tq = m.q(m.cg(s0["T"]))
                    cq = ex.val(v, m.Xq, 0.0)
                    for mat in M.case["mats"]:
                        k = m.mask(aslist(mat["id"]))
                        r = cq / arr(mat["S0"], mat["ES"], Tq)
                        R.mass(m.q(m.cg(s0["u"])), k)
                        R.mass(-(r if mat.get("law", "sievert") == "sievert" else r**0.5), k)
                    return R

                z = rows(M).ratio((), 1e-6, 1e-7, rows(M.coarse), 0.0)
                need(z, "initial theta is not the projection of the given concentration", 0.0)
        else:
            d = np.abs(s0["traps"][f - 1] - at[m.cells]).max()
            if not d <= rel * np.abs(at).max():
                raise Violation("initial content of trap %d (id %s) differs from the given one" % (f, M.case["traps"][f - 1].get("id")))
