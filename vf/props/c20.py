"""Histories of initialise / run / modify over two models."""
import copy
import os
import numpy as np
from hypothesis import strategies as st
from .. import dq, files, gen, model
from ..core import Inconclusive, Violation, near

RULE = (
    "a case counts when a model was run at least twice, or after a modification, or interleaved with another one, and its solution varies in space or time; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 240, "seconds": 200}, "thorough": {"cases": 4000, "seconds": 3000}}


def config(g, small=False):
    """one complete model with exports"""
    kind = g.pick("plain", "plain", "traps", "traps", "chem", "ext", "sk", "soret", "steady") if not small else g.pick("plain", "traps", "chem")
    tr = kind != "steady"
    c = gen.problem(
        g, transient=tr, nmat=(1, 2), traps=(1, 2) if kind in ("traps", "sk") else (0, 1), chem=kind == "chem", soret=kind == "soret", henry=False,
        geo=("1d", "1d", "1d", "2d", "cyl1", "sph") if kind != "sk" else ("1d",), bc_mix=("none",) if kind == "sk" else ("d", "d", "f", "none"),
        bc_kinds=("dirichlet", "dirichlet", "sieverts", "customd", "implant"), flux_kinds=("flux", "rec", "mass"),
        T="solve" if g.chance(1, 3) and kind != "sk" else "val", uniformT=kind == "sk", sources=1, dt_n=(2, 4),
    )
    tf = c["settings"].get("final", 1.0)
    if kind == "sk":
        c["bcs"].append(gen.sk(g, g.pick(1, 2, [1, 2]), tf, True))
    if kind == "ext":
        c["traps"].insert(0, gen.ext_trap(g, [g.int(0, len(c["mats"]) - 1)], tf))
        c["ics"] = [i for i in c["ics"] if i["field"] in (0, "0", "solute")]
    if g.chance(1, 3):
        c["style"] = "append"
    c["out"] = []
    for _ in range(g.int(1, 3)):
        k = g.pick("dq", "dq", "txt", "xdmf")
        if k == "dq":
            c["out"].append({"k": k, "qs": [dq.gen(g, c) for _ in range(g.int(1, 3))], "nbc": g.pick(1, 1, 2), "nbe": g.pick(None, None, 1, 2), "csv": g.chance()})
        elif k == "txt" and c["mesh"]["kind"] == "1d" and not c["mesh"].get("mk"):
            o = {"k": k, "field": g.pick(*dq.fields(c)), "times": None}
            if tr and isinstance(c["dt"], dict) and g.chance(2, 3):
                c["dt"]["stepsize_change_ratio"] = max(1.3, c["dt"]["stepsize_change_ratio"])
                o["times"] = [tf * g.num(0.1, 0.9) for _ in range(g.int(1, 2))]
                if g.chance(1, 3):
                    o["times"].append(tf)
            c["out"].append(o)
        elif k == "xdmf":
            c["out"].append({"k": k, "field": g.pick(*[str(f) for f in dq.fields(c) if str(f) not in ("0",)]), "mode": g.pick(1, 1, 2, "last")})
    if tr and isinstance(c["dt"], dict) and g.chance(1, 3):
        c["dt"]["stepsize_change_ratio"] = max(1.3, c["dt"]["stepsize_change_ratio"])
        c["dt"]["milestones"] = [tf * g.num(0.1, 0.95) for _ in range(g.int(1, 2))]
    return c


# attributes of the conditions, materials and traps that a user changes in place
BC = {
    "dirichlet": {"v": "value"},
    "flux": {"v": "value"},
    "sieverts": {"S0": "S_0", "ES": "E_S", "P": "pressure"},
    "henrys": {"H0": "H_0", "EH": "E_H", "P": "pressure"},
    "implant": {"phi": "phi", "Rp": "R_p", "D0": "D_0", "ED": "E_D", "Kr_0": "Kr_0", "E_Kr": "E_Kr", "Kd_0": "Kd_0", "E_Kd": "E_Kd", "P": "P"},
    "rec": {"Kr0": "Kr_0", "EKr": "E_Kr"},
    "dis": {"Kd0": "Kd_0", "EKd": "E_Kd", "P": "P"},
    "mass": {"h": "h_coeff", "cext": "c_ext"},
    "conv": {"h": "h_coeff", "Text": "T_ext"},
    "sk": {"ksb": "k_sb", "kbs": "k_bs", "jvs": "J_vs", "lam": "lambda_IS", "nsurf": "n_surf", "nis": "n_IS", "ic": "initial_condition"},
}
MAT = {"D0": "D_0", "ED": "E_D", "S0": "S_0", "ES": "E_S", "lam": "thermal_cond", "cp": "heat_capacity", "rho": "rho", "Q": "Q"}
TRAP = {"k0": "k_0", "Ek": "E_k", "p0": "p_0", "Ep": "E_p"}


def attrs(b):
    return [a for a in BC.get(b["type"], ()) if b.get(a) is not None]


def times(s, a):
    """a times the specification"""
    if isinstance(s, list):  # ["T", a], ["prm", a], ...
        return [s[0], s[1] * a] + s[2:]
    if not isinstance(s, dict):
        return s * a
    s = copy.deepcopy(s)
    if "f" in s:
        s["f"][0] *= a
        return s
    s["p"][0] *= a
    if s["k"] in ("step", "xstep"):
        s["p"][1] *= a
    return s


def modification(g, c):
    """(description, modified configuration)"""
    tr = c["settings"].get("transient", True)
    d = copy.deepcopy(c)
    tf = c["settings"].get("final", 1.0)
    kinds = ["D0", "T", "bcs", "sources", "uj"]
    if tr:
        kinds += ["final", "final", "dt", "ics"]
    if c["traps"]:
        kinds += ["k0"] if not isinstance(c["traps"][0]["k0"], list) else []
        if not c["settings"].get("chem"):
            kinds.append("elt")
    kinds.append("mesh")
    kinds += ["bc", "bc", "mat", "settings"]
    if any(attrs(b) for b in c["bcs"]):
        kinds += ["bc", "bc"]
    if any(not t.get("ext") for t in c["traps"]):
        kinds += ["trap", "trap"]
    if c["T"]["kind"] == "val":
        kinds.append("Tval")
    if tr and isinstance(c["dt"], dict):
        kinds.append("milestones")
    sk = any(b["type"] == "sk" for b in c["bcs"])
    if sk:
        kinds.remove("bcs")
    k = g.pick(*kinds)
    if k == "final":
        d["settings"]["final"] = tf * g.num(0.4, 1.6)
    elif k == "dt":
        v = g.num(0.5, 2.0)
        if isinstance(d["dt"], dict):
            d["dt"]["initial_value"] *= v
        else:
            d["dt"] *= v
    elif k == "D0":
        i = g.int(0, len(c["mats"]) - 1)
        d["mats"][i]["D0"] *= g.num(0.2, 0.9)
    elif k == "T":
        if c["T"]["kind"] == "solve" and not g.chance(1, 3):
            for b in d["bcs"]:
                if b.get("field") == "T" and b["type"] == "dirichlet" and not isinstance(b["v"], dict):
                    b["v"] += 20.0
        else:
            d["T"] = {"kind": "val", "v": g.num(400.0, 700.0)}
            d["bcs"] = [b for b in d["bcs"] if b.get("field") != "T"]
            d["sources"] = [s for s in d["sources"] if s.get("field") != "T"]
    elif k == "bcs":
        i = g.int(0, 3)
        d["bcs"] = [b for j, b in enumerate(d["bcs"]) if b.get("field") == "T" or j != i or not tr]
        for b in d["bcs"]:
            if b.get("field", 0) in (0, "0", "solute") and b["type"] == "dirichlet" and not isinstance(b["v"], dict):
                b["v"] *= 1.7
    elif k == "sources":
        d["sources"] = [s for s in d["sources"] if s.get("field") == "T"]
        if g.chance():
            d["sources"].append(gen.source(g, d, tf, tr, ("src",)))
    elif k == "bc":
        pool = [(b, a) for b in d["bcs"] for a in attrs(b)]
        for _ in range(g.int(1, 3)):
            if pool:
                b, a = g.pick(*pool)
                b[a] = times(b[a], g.num(0.3, 0.95))
        for b in d["bcs"]:
            if b["type"] == "rec" and g.chance(1, 3):
                b["order"] = {1: 2, 2: 1, 3: 2}[b["order"]] if g.cs == 1 else b["order"]
    elif k == "mat":
        m = d["mats"][g.int(0, len(c["mats"]) - 1)]
        for _ in range(g.int(1, 2)):
            a = g.pick(*[a for a in MAT if m.get(a) is not None])
            m[a] = times(m[a], g.num(0.3, 0.95))
    elif k == "trap":
        t = g.pick(*[t for t in d["traps"] if not t.get("ext")])
        for _ in range(g.int(1, 2)):
            a = g.pick(*TRAP)
            t[a] = [times(v, g.num(0.3, 0.95)) for v in t[a]] if isinstance(t[a], list) else times(t[a], g.num(0.3, 0.95))
    elif k == "Tval":
        d["T"]["v"] = times(c["T"]["v"], g.num(0.8, 1.1))
    elif k == "milestones":
        d["dt"]["stepsize_change_ratio"] = max(1.3, d["dt"]["stepsize_change_ratio"])
        d["dt"]["milestones"] = [tf * g.num(0.1, 0.95) for _ in range(g.int(0, 2))] or None
    elif k == "settings":
        d["settings"]["maxit"] = g.int(20, 40)
        d["settings"]["rtol"] = g.pick(1e-13, 1e-12)
    elif k == "ics":
        d["ics"] = [{"field": "solute", "v": g.num(0.2, 1.5) * g.cs}]
    elif k == "k0":
        d["traps"][0]["k0"] *= g.num(0.2, 0.8)
    elif k == "elt":
        d["settings"]["elt"] = "DG" if c["settings"].get("elt") != "DG" else "CG"
    elif k == "uj":
        d["settings"]["uj"] = not (c["settings"].get("uj", True) in (True, None))
    elif k == "mesh" and c["mesh"]["kind"] == "2d":
        d["mesh"]["ny"] += 1
    elif k == "mesh":
        v = d["mesh"]["verts"]
        j = g.int(0, len(v) - 2)
        d["mesh"]["verts"] = v[: j + 1] + [0.5 * (v[j] + v[j + 1])] + v[j + 1 :]
    return k, d


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    A = config(g)
    c = {"A": A, "B": None, "mods": [], "ops": []}
    for _ in range(g.int(0, 3)):
        k, d = modification(g, A if not c["mods"] or g.chance() else c["mods"][-1][1])
        c["mods"].append([k, d])
    if g.chance(2, 3):
        g2 = gen.G(draw, g.cs, g.ls)
        c["B"] = config(g2, small=True)
    pool = ["iA", "iA", "rA", "rA"] + (["mA", "mA", "mA"] if c["mods"] else []) + (["iB", "rB", "nest"] if c["B"] else [])
    c["ops"] = [g.pick(*pool) for _ in range(g.int(2, 7))] + ["iA", "rA"]
    return c


def strategy(tier):
    return case(tier)


def exports(F, c, role):
    out = []
    for i, o in enumerate(c["out"]):
        p = "%s/f%d" % (role, i)
        if o["k"] == "dq":
            kw = {"filename": p + ".csv"} if o["csv"] else {}
            if o["nbe"] is not None:
                kw["nb_iterations_between_exports"] = o["nbe"]
            out.append(F.DerivedQuantities([dq.make(q, c) for q in o["qs"]], nb_iterations_between_compute=o["nbc"], **kw))
        elif o["k"] == "txt":
            kw = {"times": list(o["times"])} if o["times"] else {}
            out.append(F.TXTExport(o["field"], filename=p + ".txt", **kw))
        else:
            out.append(F.XDMFExport(o["field"], label="lab", filename=p + ".xdmf", mode=o["mode"]))
    return out


class Live:
    def __init__(self, c, role):
        import festim as F

        self.c, self.role = c, role
        self.exp = exports(F, c, role)
        self.sim, self.rec = model.build(c, self.exp)
        self.ready = False
        self.runs = 0

    def init(self):
        self.rec.steps.clear()
        self.sim.initialise()
        self.ready = True

    def run(self, nest=None):
        """-> observations of the run"""
        self.rec.steps.clear()
        s0 = model.state(self.sim, prev=True)
        if nest:
            snap = self.rec.snap
            fired = []

            def both():
                snap()
                if not fired:
                    fired.append(1)
                    nest()

            self.rec.snap = both
        try:
            with model.Guard(600):
                self.sim.run()
        except (ValueError, RuntimeError) as e:
            if "diverged" in str(e) or "did not converge" in str(e) or "stepsize reached" in str(e):
                raise Inconclusive("no convergence: %s" % str(e)[-200:])
            raise
        finally:
            if nest:
                self.rec.snap = snap
        self.ready = False
        self.runs += 1
        return self.observe(s0)

    def observe(self, s0):
        o = {"initial": s0, "steps": list(self.rec.steps), "tables": [], "files": []}
        for i, (x, e) in enumerate(zip(self.c["out"], self.exp)):
            p = "%s/f%d" % (self.role, i)
            if x["k"] == "dq":
                o["tables"].append(([float(t) for t in e.t], [[float(v) for v in q.data] for q in e], [[float(t) for t in q.t] for q in e]))
                o["files"].append(table(p + ".csv") if x["csv"] else None)
            elif x["k"] == "txt":
                o["files"].append(table(p + ".txt"))
            else:
                o["files"].append(self.xdmf(p + ".xdmf"))
        return o

    def xdmf(self, p):
        import fenics as f
        import festim as F
        import re

        if not os.path.exists(p):
            return None
        times = [float(t) for t in F.extract_xdmf_times(p)]
        fam = re.search(r'ElementFamily="(\w+)"', open(p).read()).group(1)
        u = f.Function(f.FunctionSpace(self.sim.mesh.mesh, fam, 1))
        v = []
        for k in range(len(times)):
            with f.XDMFFile(p) as fh:
                fh.read_checkpoint(u, "lab", k)
            v.append(model.cellvals(u, self.sim.mesh.mesh.num_cells()).ravel())
        return [fam], np.array([times]), np.array(v)

    def modify(self, k, d):
        """applies a modification the way a user does, on the live objects"""
        new, _ = model.build(d, record=False)
        s = self.sim
        if k == "final":
            s.settings.final_time = d["settings"]["final"]
        elif k == "dt":
            s.dt.initial_value = d["dt"]["initial_value"] if isinstance(d["dt"], dict) else d["dt"]
        elif k == "uj":
            s.settings.update_jacobian = d["settings"]["uj"]
        elif k == "elt":
            s.settings.traps_element_type = d["settings"]["elt"]
        elif k == "bc":
            for b, old, x in zip(s.boundary_conditions, new.boundary_conditions, d["bcs"]):
                for a in attrs(x):
                    setattr(b, BC[x["type"]][a], getattr(old, BC[x["type"]][a]))
                if x["type"] == "rec":
                    b.order = x["order"]
        elif k == "mat":
            for m, y, x in zip(s.vf_mats, new.vf_mats, d["mats"]):
                for a, b in MAT.items():
                    if x.get(a) is not None:
                        setattr(m, b, getattr(y, b))
        elif k == "trap":
            for t, y, x in zip(s.traps, new.traps, d["traps"]):
                if not x.get("ext"):
                    for b in TRAP.values():
                        setattr(t, b, getattr(y, b))
        elif k == "Tval":
            s.T.value = new.T.value
        elif k == "milestones":
            s.dt.adaptive_stepsize["stepsize_change_ratio"] = d["dt"]["stepsize_change_ratio"]
            s.dt.milestones = d["dt"]["milestones"]
        elif k == "settings":
            s.settings.maximum_iterations = d["settings"]["maxit"]
            s.settings.relative_tolerance = d["settings"]["rtol"]
        elif k == "D0":
            for m, x in zip(s.vf_mats, d["mats"]):
                m.D_0 = x["D0"]
        elif k == "k0":
            s.traps[0].k_0 = d["traps"][0]["k0"]
        elif k == "ics":
            s.initial_conditions = new.initial_conditions
        elif k == "mesh":
            s.mesh = new.mesh
        elif k == "sources":
            s.sources = new.sources
        elif k == "bcs":
            s.boundary_conditions = new.boundary_conditions
        elif k == "T":
            s.T = new.T
            s.boundary_conditions = new.boundary_conditions
            s.sources = new.sources
        self.c = d


def table(p):
    if not os.path.exists(p):
        return None
    rows = files.read_csv(p)
    return rows[0], np.array([[float(x) for x in r if x != ""] for r in rows[1:]]), np.zeros((0, 0))


def close(what, a, b, rtol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation("%s: %s values instead of the %s of a fresh model" % (what, a.shape, b.shape))
    if a.size == 0:
        return 0
    near(np.nan_to_num(np.abs(a - b).max()) / (rtol * np.abs(b).max() + 1e-280), what)
    bad = ~(np.abs(a - b) <= rtol * np.abs(b).max() + 1e-280)
    if bad.any():
        i = np.unravel_index(int(np.argmax(bad)), a.shape)
        raise Violation("%s: %r instead of the %r of a fresh model" % (what, float(a[i]), float(b[i])))
    return a.size


RTOL = 1e-6


def compare(got, ref, what):
    n = 0
    n += close(what + ": times", [s["t"] for s in got["steps"]], [s["t"] for s in ref["steps"]], 1e-9)
    for k, (a, b) in enumerate(zip([got["initial"]] + got["steps"], [ref["initial"]] + ref["steps"])):
        w = "%s: step %d, " % (what, k)
        n += close(w + "mobile", a["u"], b["u"], RTOL)
        n += close(w + "temperature", a["T"], b["T"], RTOL)
        for i, (x, y) in enumerate(zip(a["traps"], b["traps"])):
            n += close(w + "trap %d" % (i + 1), x, y, RTOL)
        n += close(w + "adsorbed", a["ads"], b["ads"], RTOL)
        for i, (x, y) in enumerate(zip(a["dens"], b["dens"])):
            if y is not None:
                n += close(w + "density %d" % (i + 1), x, y, RTOL)
    for i, ((t, d, tt), (t2, d2, tt2)) in enumerate(zip(got["tables"], ref["tables"])):
        n += close(what + ": times of table %d" % i, t, t2, 1e-9)
        for j, (x, y) in enumerate(zip(d, d2)):
            scale(what + ": quantity %d of table %d" % (j, i), x, y, ref)
        for x, y in zip(tt, tt2):
            n += close(what + ": times of a quantity of table %d" % i, x, y, 1e-9)
    for i, (x, y) in enumerate(zip(got["files"], ref["files"])):
        if (x is None) != (y is None):
            raise Violation("%s: file %d %s" % (what, i, "is missing" if x is None else "should not exist"))
        if x is not None:
            if x[0] != y[0]:
                raise Violation("%s: file %d starts with %r instead of %r" % (what, i, x[0], y[0]))
            for a, b in zip(x[1:], y[1:]):
                if a.shape != b.shape:
                    raise Violation("%s: file %d holds %s values instead of %s" % (what, i, a.shape, b.shape))
                for j in range(a.shape[1] if a.ndim == 2 else 0):
                    scale("%s: column %d of file %d" % (what, j, i), a[:, j], b[:, j], ref)
    return n


def scale(what, x, y, ref):
    """same values; quantities obtained by differences (fluxes) are compared to
    the rounding of the solver: values below 1e-5 of the largest are not"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    if x.shape != y.shape:
        raise Violation("%s: %s values instead of the %s of a fresh model" % (what, x.shape, y.shape))
    if x.size:
        near(np.nan_to_num(np.abs(x - y).max()) / (1e-5 * np.abs(y).max() + floor(ref) + 1e-300), what)
    if x.size and not (np.abs(x - y) <= 1e-5 * np.abs(y).max() + floor(ref)).all():
        raise Violation("%s: %r instead of the %r of a fresh model" % (what, x.tolist()[:8], y.tolist()[:8]))


def floor(ref):
    return 1e-7 * max([np.abs(s["u"]).max() for s in ref["steps"]] + [0.0]) * ref["unit"]


def fresh(c, role):
    r = Live(c, role)
    r.init()
    o = r.run()
    o["unit"] = 1.0
    return o


def check(c):
    with files.scratch():
        return inner(c)


def inner(c):
    ref = {"A": fresh(c["A"], "refA")}
    n, hist, runs = 0, [], {"A": 0, "B": 0}
    if c["B"]:
        ref["B"] = fresh(c["B"], "refB")
    live = {"A": Live(c["A"], "A")}
    if c["B"]:
        live["B"] = Live(c["B"], "B")
    cur = "A"  # key of the reference of model A
    k = 0
    used = set()

    def go(x, nest=None):
        obs = live[x].run(nest)
        runs[x] += 1
        r = ref[cur] if x == "A" else ref["B"]
        return compare(obs, r, "after %s: run %d of model %s" % (" ".join(hist), runs[x], x))

    def runB():
        live["B"].init()
        hist.append("(iB rB)")
        go("B")

    for op in c["ops"]:
        if op[0] == "i":
            hist.append(op)
            live[op[1]].init()
        elif op in ("rA", "rB"):
            if not live[op[1]].ready:
                hist.append("i" + op[1])
                live[op[1]].init()
            hist.append(op)
            n += go(op[1])
            used.add(op)
        elif op == "nest":
            hist.append("iA")
            live["A"].init()
            live["B"].ready = False
            hist.append("rA[iB rB]")
            n += go("A", runB)
            used.add(op)
        elif op == "mA" and k < len(c["mods"]):
            kind, d = c["mods"][k]
            k += 1
            name = "A%d" % k
            # the modifications are cumulative only if generated so
            base = live["A"].c
            try:
                ref[name] = fresh(d, "ref" + name)
            except Inconclusive:
                continue
            if not applicable(kind, base, d):
                continue
            live["A"].modify(kind, d)
            cur = name
            hist.append("modify:" + kind)
            used.add("modify:" + kind)
            live["A"].init()
            hist.append("iA")
    return {
        "nontrivial": n > 0 and (runs["A"] > 1 or len(used) > 1) and any(np.abs(s["u"]).max() > 0 for s in ref["A"]["steps"]),
        "labels": sorted(used) + sorted({"out:" + o["k"] for o in c["A"]["out"]}) + model.labels(c["A"]),
        "sub": n,
    }


def applicable(kind, base, d):
    """the modification must lead from the live configuration to d"""
    keys = {
        "final": {"settings"}, "dt": {"dt"}, "uj": {"settings"}, "elt": {"settings"}, "D0": {"mats"}, "k0": {"traps"},
        "ics": {"ics"}, "mesh": {"mesh"}, "sources": {"sources"}, "bcs": {"bcs"}, "T": {"T", "bcs", "sources"},
        "bc": {"bcs"}, "mat": {"mats"}, "trap": {"traps"}, "Tval": {"T"}, "milestones": {"dt"}, "settings": {"settings"},
    }[kind]
    if kind == "milestones" and {k: v for k, v in base["dt"].items() if k not in ("milestones", "stepsize_change_ratio")} != {
        k: v for k, v in d["dt"].items() if k not in ("milestones", "stepsize_change_ratio")
    }:
        return False
    if kind in ("bc", "mat", "trap") and not same_shape(base, d, kind):
        return False
    a, b = base["settings"], d["settings"]
    if any(a.get(k) != b.get(k) for k in set(a) | set(b) if k != kind and not (kind == "settings" and k in ("maxit", "rtol"))):
        return False
    return all(base.get(k) == d.get(k) for k in set(base) | set(d) if k not in keys)


def same_shape(base, d, kind):
    """only attributes changed in place differ"""
    key = {"bc": "bcs", "mat": "mats", "trap": "traps"}[kind]
    free = {"mat": MAT, "trap": TRAP}.get(kind)

    def rest(x):
        f = free if free is not None else dict(BC.get(x["type"], {}), order=0)
        return {k: v if k not in f else v is None for k, v in x.items()}

    return [rest(x) for x in base[key]] == [rest(x) for x in d[key]]
