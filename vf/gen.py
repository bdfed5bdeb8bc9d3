"""Hypothesis building blocks for generated FESTIM problems (sound by
construction: only documented, physically meaningful inputs)."""
import math
from hypothesis import strategies as st
from .ref import KB

TREF = 500.0


class G:
    """draw helper with units: concentrations ~cs, lengths ~ls"""

    def __init__(self, draw, cs=1.0, ls=1.0):
        self.draw, self.cs, self.ls = draw, cs, ls

    def num(self, lo, hi):
        k = self.draw(st.integers(0, 499))
        v = lo + (hi - lo) * (k + 0.37) / 500.0
        return float("%.6g" % v)

    def log(self, lo, hi):
        k = self.draw(st.integers(0, 499))
        v = math.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * (k + 0.37) / 500.0)
        return float("%.6g" % v)

    def pick(self, *xs):
        return self.draw(st.sampled_from(list(xs)))

    def chance(self, num=1, den=2):
        return self.draw(st.integers(0, den - 1)) >= den - num

    def int(self, a, b):
        return self.draw(st.integers(a, b))

    # --- Arrhenius pair with a given magnitude at 500 K
    def arrh(self, lo, hi, scale=1.0, E=(0.05, 0.4)):
        e = self.num(*E)
        a = self.log(lo, hi) * math.exp(e / KB / TREF) * scale
        return float("%.8g" % a), e

    # --- scalar specs; `a` is the magnitude already in units
    def spec(self, a, kinds, tf=1.0):
        v = self._spec(a, kinds, tf)
        if not isinstance(v, dict) and 0.6 < abs(v) < 50 and self.chance(1, 8):
            return int(round(v))  # users write 1 as well as 1.0
        return v

    def wrap(self, v):
        """hand the value over as a fenics object instead of a sympy one"""
        if isinstance(v, dict) and "as" not in v and self.chance(1, 6):
            return dict(v, **{"as": self.pick("expr", "user")})
        return v

    def _spec(self, a, kinds, tf=1.0):
        k = self.pick(*kinds)
        s = self.ls
        if k == "const":
            return a
        sl = self.num(-0.3, 0.45) / s
        if k == "xlin":
            return {"k": k, "p": [a, sl]}
        if k == "xylin":
            return {"k": k, "p": [a, sl, self.num(-0.3, 0.45) / s]}
        if k == "tlin":
            return {"k": k, "p": [a, self.num(0.1, 0.9) / tf]}
        if k == "xt":
            return {"k": k, "p": [a, sl, self.num(0.1, 0.9) / tf]}
        if k == "xpt":
            return {"k": k, "p": [a, sl, self.num(0.1, 0.9) / tf]}
        if k == "step":
            return {"k": k, "p": [a, a * self.num(1.5, 3.0), tf * self.num(0.2, 0.8)]}
        if k == "sin":
            return {"k": k, "p": [a, self.num(0.1, 0.6), self.num(1.0, 6.0) / tf]}
        if k == "texp":
            return {"k": k, "p": [a, self.num(0.1, 0.9), self.num(0.5, 3.0) / tf]}
        if k == "tquad":
            return {"k": k, "p": [a, self.num(0.1, 0.9) / tf**2]}
        if k == "xquad":
            return {"k": k, "p": [a, sl, self.num(0.0, 0.4) / s**2]}
        if k == "bool":
            return {"k": k, "p": [a, tf * self.num(0.2, 0.8)]}
        if k == "xstep":
            return {"k": k, "p": [a, a * self.num(1.5, 3.0), tf * self.num(0.2, 0.8), sl]}
        raise KeyError(k)

    # --- meshes
    def borders(self, n, L):
        w = [self.num(0.5, 1.5) for _ in range(n)]
        tot = sum(w)
        b = [0.0]
        for i in range(n - 1):
            b.append(float("%.6g" % (b[-1] + L * w[i] / tot)))
        b.append(L)
        return b

    def mesh1d(self, nmat, x0=0.0, cells=(4, 9), grade=True):
        """returns (mesh dict, list of interval borders)"""
        L = float("%.6g" % (self.num(0.6, 1.8) * self.ls))
        b = self.borders(nmat, L)
        verts = []
        for i in range(nmat):
            n = self.int(*cells)
            g = self.pick(1.0, 1.0, 1.6) if grade else 1.0
            for j in range(n):
                verts.append(b[i] + (b[i + 1] - b[i]) * (j / n) ** g)
        verts.append(L)
        return {"kind": "1d", "verts": [x0 + v for v in verts]}, b

    def mesh1d_r(self, coords, cells=(10, 18)):
        """single block away from the axis"""
        r0 = self.num(1.0, 2.0) * self.ls
        L = self.num(0.3, 0.8) * self.ls
        n = self.int(*cells)
        v = [float("%.9g" % (r0 + L * j / n)) for j in range(n + 1)]
        return {"kind": "1d", "verts": v, "coords": coords}

    def mesh2d(self, nmat, coords="cartesian"):
        nx, ny = self.int(4, 7), self.int(3, 5)
        lx, ly = self.num(0.6, 1.5) * self.ls, self.num(0.6, 1.5) * self.ls
        x0 = 0.0
        if coords == "cylindrical":
            x0 = self.num(1.0, 2.0) * self.ls
            nx = self.int(8, 12)
            lx = self.num(0.3, 0.6) * self.ls
        cols = sorted(self.draw(st.lists(st.integers(1, nx - 1), min_size=nmat - 1, max_size=nmat - 1, unique=True)))
        b = [x0] + [x0 + lx * c / nx for c in cols] + [x0 + lx]
        return {"kind": "2d", "nx": nx, "ny": ny, "x0": x0, "lx": lx, "ly": ly, "coords": coords}, b

    def mesh3d(self, nmat):
        nx = self.int(max(2, nmat), 4)
        m, b = {"kind": "3d", "nx": nx, "ny": self.int(1, 2), "nz": self.int(1, 2), "x0": 0.0}, [0.0]
        for k in ("lx", "ly", "lz"):
            m[k] = self.num(0.6, 1.5) * self.ls
        cols = sorted(self.draw(st.lists(st.integers(1, nx - 1), min_size=nmat - 1, max_size=nmat - 1, unique=True)))
        return m, [0.0] + [m["lx"] * c / nx for c in cols] + [m["lx"]]

    # --- materials (ids are arbitrary distinct ints)
    def mats(self, n, b, chem=False, soret=False, heat=False, henry=True, listid=True):
        # mostly small ids: compiled forms are shared by more cases
        top = 9 if self.chance(1, 5) else n + 1
        ids = self.draw(st.lists(st.integers(1, top), min_size=n, max_size=n, unique=True))
        out = []
        # optionally give two non adjacent intervals to the same material
        group = None
        if listid and n >= 3 and self.chance(1, 3):
            group = (0, 2)
        for i in range(n):
            if group and i == 2:
                continue
            m = {"id": ids[i]}
            if b is not None:
                m["borders"] = [b[i], b[i + 1]]
                if group and i == 0:
                    m["borders"] = [[b[0], b[1]], [b[2], b[3]]]
                    if self.chance(2, 3):
                        m["id"] = [ids[0], ids[2]]
                    if self.chance(1, 3):
                        m["borders"].reverse()
                        if isinstance(m["id"], list):
                            m["id"].reverse()
            m["D0"], m["ED"] = self.arrh(0.03, 3.0, self.ls**2)
            if chem:
                m["S0"], m["ES"] = self.arrh(0.3, 3.0, self.cs, E=(0.03, 0.15))
                if henry and self.chance(1, 3):
                    m["law"] = "henry"
            if soret:
                m["Q"] = self.num(-0.3, 0.3) if self.chance() else {"f": [self.num(-0.3, 0.3), self.num(0.0005, 0.002)]}
            if heat:
                for q, lo, hi in (("lam", 0.3, 3.0), ("cp", 0.5, 2.0), ("rho", 0.5, 2.0)):
                    v = self.log(lo, hi) * (self.ls**2 if q == "lam" else 1.0)
                    m[q] = v if self.chance(2, 3) else {"f": [v, self.num(0.0002, 0.0008)]}
            m["name"] = "mat%d" % i
            out.append(m)
        named = self.pick("all", "all", "none", "some")
        for m in out:
            if named == "none" or named == "some" and self.chance():
                m["name"] = None
        return self.shuffle(out)

    def shuffle(self, xs):
        xs = list(xs)
        return self.draw(st.permutations(xs)) if len(xs) > 1 else xs

    def temperature(self, tf=1.0, uniform=False, timedep=True):
        v = self.num(380.0, 750.0)
        if self.chance(1, 8):
            v = int(v)
        kinds = ["const"] if uniform else ["const", "xlin", "xlin", "xquad"]
        if timedep:
            kinds += ["tlin", "tlin", "step", "sin"] + ([] if uniform else ["xt", "xt", "xpt", "xstep"])
        k = self.pick(*kinds)
        sl = self.num(-0.06, 0.08) / self.ls
        ts = self.num(0.02, 0.2) / tf
        if k == "const":
            return {"kind": "val", "v": v}
        p = {
            "xlin": [v, sl],
            "xquad": [v, sl, self.num(0.0, 0.04) / self.ls**2] if k == "xquad" else None,
            "tlin": [v, ts],
            "xt": [v, sl, ts / 2],
            "xpt": [v, sl, ts / 2],
            "sin": [v, ts * tf / 2, self.num(1.0, 6.0) / tf] if k == "sin" else None,
        }.get(k)
        if k in ("step", "xstep"):
            p = [v, v * self.num(0.85, 1.2), tf * self.num(0.2, 0.8)] + ([sl] if k == "xstep" else [])
        return {"kind": "val", "v": {"k": k, "p": p}}

    def trap(self, mats_idx, tf=1.0, dens=("const", "xlin", "tlin", "xt", "step", "xquad"), listy=None):
        conglom = len(mats_idx) > 1 and (self.chance() if listy is None else listy)
        t = {"mats": mats_idx}

        def one():
            k0, Ek = self.arrh(0.2, 4.0, 1.0 / self.cs)
            p0, Ep = self.arrh(0.1, 4.0, E=(0.2, 0.8))
            return k0, Ek, p0, Ep, self.wrap(self.spec(self.log(0.3, 3.0) * self.cs, dens, tf))

        if conglom:
            v = [one() for _ in mats_idx]
            t["k0"], t["Ek"], t["p0"], t["Ep"], t["n"] = [list(z) for z in zip(*v)]
        else:
            t["k0"], t["Ek"], t["p0"], t["Ep"], t["n"] = one()
        if self.chance(1, 3):
            t["byname"] = True
        if self.chance(1, 4):
            t["scalar_mat"] = True
        return t

    def some(self, n):
        """some of 0..n-1, in any order"""
        k = self.int(1, n)
        return self.draw(st.lists(st.integers(0, n - 1), min_size=k, max_size=k, unique=True))

    def dt(self, tf, n=(3, 5)):
        """fixed or adaptive step size"""
        h = tf / (self.int(*n) + self.num(0.0, 0.4))
        if self.chance(1, 6):
            h = tf / self.int(*n)  # the last step ends at the final time up to rounding
            if self.chance():
                return h
        if self.chance():
            return float("%.6g" % h)
        d = {
            "initial_value": float("%.6g" % h),
            "stepsize_change_ratio": self.num(1.05, 1.4),
            "dt_min": 1e-3 * tf,
        }
        if self.chance(1, 5):
            d["milestones"] = [float("%.6g" % (tf * self.num(0.1, 0.9)))]
        if self.chance(1, 6):
            d["max_stepsize"] = h * self.num(0.9, 1.3)
        return d


def settings(g, tf=None, dim=1, **kw):
    s = {"atol": max(1e-12 * g.cs * g.ls**dim, 1e-14 * g.cs), "rtol": 1e-14}
    if tf is None:
        s["transient"] = False
    else:
        s["final"] = tf
    s.update(kw)
    return s


# ---------------------------------------------------------------- whole problems
GEO_12 = ("1d", "1d", "1d", "2d", "cyl1", "cyl2", "sph")
GEO_ALL = GEO_12 + GEO_12 + ("3d",)
T_KINDS = ("const", "tlin", "step", "xlin", "xt")


def geometry(g, kinds, nmat=(1, 3)):
    """-> mesh, list of interval borders along x, dimension"""
    k = g.pick(*kinds)
    if k == "1d":
        n = g.int(*nmat)
        mesh, b = g.mesh1d(n)
        if g.chance(1, 6):
            mesh["mk"] = True
        return mesh, b, 1
    if k == "3d":
        n = max(1, min(2, g.int(*nmat)))
        g.ls = 1.0  # residuals scale with the volume, solver tolerances do not
        mesh, b = g.mesh3d(n)
        return mesh, b, 3
    if k in ("2d", "cyl2"):
        n = max(1, min(2, g.int(*nmat)))
        n = max(n, min(nmat[0], 2))
        mesh, b = g.mesh2d(n, "cartesian" if k == "2d" else "cylindrical")
        return mesh, b, 2
    coords = "cylindrical" if k == "cyl1" else "spherical"
    n = g.int(*nmat)
    mesh = g.mesh1d_r(coords, cells=(12, 18))
    v = mesh["verts"]
    if n == 1:
        return mesh, None, 1
    # several materials: markers are given by the user (borders start at 0)
    mesh["mk"] = True
    cut = sorted(
        g.draw(st.lists(st.integers(2, len(v) - 3), min_size=n - 1, max_size=n - 1, unique=True))
    )
    return mesh, [v[0]] + [v[i] for i in cut] + [v[-1]], 1


def surfaces(mesh):
    return list(range(1, 2 * int(mesh["kind"][0]) + 1))


def volumes(mats):
    out = []
    for m in mats:
        out += m["id"] if isinstance(m["id"], list) else [m["id"]]
    return out


def dirichlet(g, surf, tf, kinds, field=0, transient=True):
    cs = g.cs
    k = g.pick(*kinds)
    tk = ("const", "tlin", "step", "xt", "sin") if transient else ("const", "xlin")
    b = {"type": k, "surf": surf}
    if k == "dirichlet":
        b["v"] = g.spec(g.log(0.3, 3.0) * cs, tk, tf)
        b["field"] = field
    elif k == "sieverts":
        b["S0"], b["ES"] = g.arrh(0.3, 3.0, cs, E=(0.03, 0.3))
        b["P"] = g.spec(g.log(0.3, 3.0), tk, tf)
    elif k == "henrys":
        b["H0"], b["EH"] = g.arrh(0.3, 3.0, cs, E=(0.03, 0.3))
        b["P"] = g.spec(g.log(0.3, 3.0), tk, tf)
    elif k == "implant":
        b["D0"], b["ED"] = g.arrh(0.1, 2.0, g.ls**2)
        b["phi"] = g.spec(g.log(0.3, 3.0) * cs * g.ls, tk, tf)
        b["Rp"] = g.spec(g.num(0.05, 0.6) * g.ls, ("const", "const", "tlin") if transient else ("const",), tf)
        n = g.int(0, 2)
        if n >= 1:
            b["Kr_0"], b["E_Kr"] = g.arrh(0.3, 3.0, g.ls / cs)
        if n >= 2:
            b["Kd_0"], b["E_Kd"] = g.arrh(0.3, 3.0, cs * g.ls)
            b["P"] = g.spec(g.log(0.3, 3.0), tk, tf)
    elif k == "customd":
        b["fn"] = g.pick("dprod", "dsum")
        b["a"] = g.spec(g.log(0.3, 3.0) * cs, tk, tf)
        bb = g.num(0.1, 0.6)
        b["b"] = g.spec(bb if b["fn"] == "dprod" else bb * cs, tk, tf)
        b["field"] = field
    return b


def flux(g, surf, tf, kinds, transient=True):
    """hydrogen flux condition"""
    cs, ls = g.cs, g.ls
    k = g.pick(*kinds)
    tk = ("const", "tlin", "step", "xlin", "xt") if transient else ("const", "xlin")
    b = {"type": k, "surf": surf}
    if k == "flux":
        b["v"] = g.spec(g.log(0.1, 1.0) * cs * ls * g.pick(1.0, 1.0, -0.3), tk, tf)
        b["field"] = g.pick(0, "0", "solute")
    elif k == "rec":
        b["order"] = g.pick(1, 2, 2, 2, 3)
        b["Kr0"], b["EKr"] = g.arrh(0.1, 1.5, ls / cs ** (b["order"] - 1))
        if g.chance(1, 3):
            b["Kr0"] = g.spec(b["Kr0"], tk, tf)
        if g.chance(1, 4):
            b["EKr"] = g.spec(b["EKr"] * 0.7, ("tlin",) if transient else ("xlin",), tf)
    elif k == "dis":
        b["Kd0"], b["EKd"] = g.arrh(0.1, 1.5, cs * ls)
        b["P"] = g.spec(g.log(0.1, 1.0), tk, tf)
        if g.chance(1, 3):
            b["Kd0"] = g.spec(b["Kd0"], tk, tf)
        if g.chance(1, 4):
            b["EKd"] = g.spec(b["EKd"] * 0.7, ("tlin",) if transient else ("xlin",), tf)
    elif k == "mass":
        b["h"] = g.spec(g.log(0.1, 2.0) * ls, tk, tf)
        b["cext"] = g.spec(g.log(0.1, 2.0) * cs, tk, tf)
    elif k == "custom":
        b["fn"] = g.pick("affine", "quad", "tonly")
        b["a"] = g.spec(g.log(0.2, 1.5) * cs * ls, tk, tf)
        b["b"] = g.spec(
            g.log(0.1, 1.0) * ls * {"affine": 1.0, "quad": 1.0 / cs, "tonly": 0.2 * cs}[b["fn"]], tk, tf
        )
        b["field"] = g.pick(0, "0", "solute")
    return b


def heat_bcs(g, surfs, tf, transient):
    """conditions on T for each surface; at least one fixes the level"""
    tk = ("const", "tlin", "step", "xlin") if transient else ("const", "xlin")
    out, anchored = [], False
    for s in surfs:
        k = g.pick("dirichlet", "flux", "conv", "customT", "none", "two")
        if not anchored and s == surfs[-1] and k not in ("dirichlet", "conv"):
            k = g.pick("dirichlet", "conv")
        if k == "dirichlet":
            out.append({"type": "dirichlet", "surf": s, "field": "T", "v": mild(g, g.num(400, 650), tf, transient)})
            anchored = True
        if k in ("flux", "two"):
            out.append({"type": "flux", "surf": s, "field": "T", "v": g.spec(g.num(-25, 40) * g.ls, tk, tf)})
        if k in ("conv", "two"):
            out.append({"type": "conv", "surf": s, "field": "T", "h": g.spec(g.log(0.3, 3.0) * g.ls, tk, tf), "Text": mild(g, g.num(400, 650), tf, transient)})
            anchored = True
        if k == "customT":
            fn = g.pick("radiative", "affineT")
            out.append({"type": "custom", "surf": s, "field": "T", "fn": fn, "a": g.spec(g.num(10, 60) * g.ls, tk, tf), "b": g.spec((g.num(5, 30) if fn == "radiative" else g.num(0.1, 0.5)) * g.ls, tk, tf)})
    return out


def mild(g, v, tf, transient, x=True):
    kinds = ["const"]
    if x:
        kinds.append("xlin")
    if transient:
        kinds += ["tlin", "xt"] if x else ["tlin"]
    k = g.pick(*kinds)
    sl = g.num(-0.06, 0.08) / g.ls
    ts = g.num(0.02, 0.2) / tf
    return {
        "const": v,
        "xlin": {"k": "xlin", "p": [v, sl]},
        "tlin": {"k": "tlin", "p": [v, ts]},
        "xt": {"k": "xt", "p": [v, sl, ts]},
    }[k]


def heat(g, c, tf, transient_h, transient_T=None):
    """turns the temperature of the case into a heat transfer problem"""
    tr = transient_h and g.chance(2, 3) if transient_T is None else transient_T
    T = {"kind": "solve", "transient": tr, "atol": max(1e-9 * g.ls ** int(c["mesh"]["kind"][0]), 1e-11)}
    if tr:
        T["ic"] = mild(g, g.num(400, 650), tf, False)
        T["icobj"] = g.chance(1, 3)
    c["T"] = T
    c["bcs"] = heat_bcs(g, surfaces(c["mesh"]), tf, tr) + c.get("bcs", [])
    tk = ("const", "tlin", "step", "xlin", "xt") if tr else ("const", "xlin")
    for v in volumes(c["mats"]):
        if g.chance(1, 3):
            c.setdefault("sources", []).append(
                {"v": g.spec(g.num(-40, 80), tk, tf), "vol": some_volumes(g, c, v), "field": "T"}
            )
    return c


def some_volumes(g, c, v):
    """v, or a list of volumes with v in it"""
    vols = volumes(c["mats"])
    if g.chance(2, 3):
        return v
    more = [w for w in vols if w != v and g.chance()]
    return g.shuffle([v] + more)


def problem(
    g,
    geo=GEO_ALL,
    nmat=(1, 3),
    transient=None,
    chem=False,
    soret=False,
    traps=(0, 0),
    trap_dens=("const", "xlin", "tlin", "xt", "step", "xquad"),
    T="val",
    uniformT=False,
    bc_kinds=("dirichlet",),
    flux_kinds=("flux",),
    bc_mix=("d", "d", "f", "none"),
    sources=0,
    source_kinds=("src",),
    ics=True,
    listid=True,
    henry=True,
    trap_bcs=False,
    dt_n=(3, 5),
):
    if chem:
        # theta is of order one: the residual tolerance has to resolve it
        g.cs = 1.0
    tr = g.chance(2, 3) if transient is None else transient
    tf = g.num(0.4, 2.0)
    mesh, b, dim = geometry(g, geo, nmat)
    n = 1 if b is None else len(b) - 1
    nt = g.int(*traps)
    c = {"mesh": mesh}
    hasheat = T == "solve"
    c["mats"] = g.mats(n, b, chem, soret, hasheat, henry and nt == 0, listid)
    mats = c["mats"]
    if mesh.get("mk") or mesh["kind"] != "1d":
        for m in mats:  # markers come from the user's mesh
            m["mk"] = m.pop("borders", None)
    if not hasheat:
        c["T"] = g.temperature(tf, uniform=uniformT, timedep=tr)
    c["bcs"] = []
    surfs = surfaces(mesh)
    anchored = False
    for s in surfs:
        k = g.pick(*bc_mix)
        if not tr and not anchored and s == surfs[-1] and k != "d":
            k = "d"
        if k == "d":
            c["bcs"].append(dirichlet(g, s, tf, bc_kinds, g.pick(0, "0", "solute"), tr))
            anchored = True
        elif k in ("f", "ff"):
            for _ in range(2 if k == "ff" else 1):
                c["bcs"].append(flux(g, s, tf, flux_kinds, tr))
    c["traps"] = []
    for i in range(nt):
        idx = g.some(len(mats))
        c["traps"].append(g.trap(idx, tf, trap_dens if tr else ("const", "xlin", "xquad")))
    if trap_bcs and nt and g.chance(1, 3):
        i = g.int(1, nt)
        c["bcs"].append(dirichlet(g, g.pick(*surfs), tf, ("dirichlet", "customd"), g.pick(i, str(i)), tr))
    c["sources"] = []
    if sources:
        for _ in range(g.int(0, sources)):
            c["sources"].append(source(g, c, tf, tr, source_kinds))
    c["ics"] = []
    if ics and tr:
        fields = [0] + list(range(1, nt + 1))
        for f in fields:
            if g.chance(2, 3):
                c["ics"].append(
                    {
                        "field": g.pick("solute", "0", 0) if f == 0 else g.pick(f, str(f)),
                        "v": g.spec(g.log(0.2, 1.5) * g.cs, ("const", "xlin")),
                    }
                )
    if tr:
        c["dt"] = g.dt(tf, dt_n)
    c["settings"] = settings(g, tf if tr else None, dim)
    if chem:
        c["settings"]["chem"] = True
        if any(m.get("law") == "henry" for m in mats):
            # theta**2: Newton starts near theta = 0 and needs more iterations
            c["settings"]["maxit"] = 150
    if soret:
        c["settings"]["soret"] = True
    if nt and not trap_bcs:
        e = g.pick(None, None, "CG", "DG")
        if e:
            c["settings"]["elt"] = e
    if g.chance(1, 5):
        c["settings"]["uj"] = g.chance()
    if hasheat:
        heat(g, c, tf, tr)
    for k in ("bcs", "sources", "ics"):
        c[k] = g.shuffle(c[k])
    if dim > 1 and g.chance(2, 3):
        directions(g, c, dim)
    return c


def directions(g, c, dim):
    """fields of two- and three-dimensional models vary in every direction"""

    def turn(v, w):
        if isinstance(v, list):
            return [turn(x, w) for x in v]
        if not isinstance(v, dict) or v.get("k") not in ("xlin", "xt") or g.chance(1, 3):
            return v
        p = v["p"]
        d = [g.num(-0.04, 0.3) * w / g.ls for _ in range(2)]
        if dim < 3:
            d[1] = 0.0
        q = [p[0], p[1] * g.pick(1.0, 1.0, 0.0)] + d
        return dict(v, k="xyz" if v["k"] == "xlin" else "xyzt", p=q if v["k"] == "xlin" else q + [p[2]])

    for x in c["bcs"] + c["sources"] + c["ics"] + c["traps"] + [c["T"]]:
        hot = x is c["T"] or x.get("field") == "T"
        for k in sorted(x):
            if k not in ("surf", "vol", "field", "mats", "EKr", "EKd"):
                x[k] = turn(x[k], 0.2 if hot else 1.0)


def source(g, c, tf, tr, kinds):
    vols = volumes(c["mats"])
    k = g.pick(*kinds)
    tk = ("const", "tlin", "step", "xlin", "xt", "xquad") if tr else ("const", "xlin", "xquad")
    v = g.pick(*vols)
    nt = len(c.get("traps", []))
    if k == "src":
        f = g.int(0, nt)
        f = g.pick("0", "solute") if f == 0 else str(f)
        return {"v": g.wrap(g.spec(g.log(0.1, 1.5) * g.cs, tk, tf)), "vol": some_volumes(g, c, v), "field": f}
    if k == "imp":
        return {
            "type": "imp",
            "v": g.spec(g.log(0.1, 1.5) * g.cs * g.ls, ("const", "tlin", "step", "bool", "xt") if tr else ("const", "xlin"), tf),
            "depth": g.spec(g.num(0.1, 0.6) * g.ls, ("const", "const", "tlin", "step") if tr else ("const",), tf),
            "width": g.spec(g.num(0.5, 1.2) * g.ls, ("const", "const", "tlin", "step") if tr else ("const",), tf),
            "vol": some_volumes(g, c, v),
        }
    f = g.int(-1, nt)
    f = "all" if f < 0 else g.pick("0", "solute") if f == 0 else str(f)
    return {"type": "decay", "lam": g.log(0.05, 1.5), "vol": some_volumes(g, c, v), "field": f}


def name_traps(g, c):
    """ids chosen by the user, in any order, not only 1..n"""
    nt = len(c["traps"])
    if not nt or not g.chance(1, 3):
        return c
    ids = g.draw(st.lists(st.integers(1, 14), min_size=nt, max_size=nt, unique=True))
    for t, i in zip(c["traps"], ids):
        t["id"] = i
    for i in c["ics"]:
        if i["field"] not in (0, "0", "solute"):
            i["field"] = type(i["field"])(ids[int(i["field"]) - 1])
    return c


def merge_surfaces(g, c):
    """name several surfaces in one condition where that is allowed: a
    condition may be extended to a surface without condition of its field"""
    fld = lambda b: b.get("field", "T" if b["type"] == "conv" else 0)
    norm = lambda f: 0 if f in (0, "0", "solute") else str(f)
    surfs = surfaces(c["mesh"])
    for b in c["bcs"]:
        f = norm(fld(b))
        free = [
            s
            for s in surfs
            if not any(norm(fld(o)) == f and s in (o["surf"] if isinstance(o["surf"], list) else [o["surf"]]) for o in c["bcs"])
        ]
        if free and g.chance(1, 2):
            extra = g.pick(*free)
            b["surf"] = g.pick([b["surf"], extra], [extra, b["surf"]]) if not isinstance(b["surf"], list) else b["surf"] + [extra]
        elif not isinstance(b["surf"], list) and g.chance(1, 5):
            b["surf"] = [b["surf"]]
    return c


def ext_trap(g, idx, tf):
    """extrinsic or neutron-induced trap of materials idx; every parameter may
    depend on time and on the position"""
    t = g.trap(idx, tf, ("const",), listy=False)
    t.pop("n")
    cs = g.cs
    tk = ("const", "const", "tlin", "step", "xlin", "sin", "xt")
    ext = g.chance()
    if ext:
        v = {
            "phi_0": g.log(0.2, 2.0) * cs / tf,
            "n_amax": g.log(0.5, 3.0) * cs,
            "n_bmax": g.log(0.5, 3.0) * cs,
            "eta_a": g.num(0.2, 1.5),
            "eta_b": g.num(0.2, 1.5),
            "f_a": g.num(0.2, 1.0),
            "f_b": g.num(0.2, 1.0),
        }
    else:
        A, E = g.arrh(0.1, 2.0)
        v = {
            "phi": g.log(0.3, 3.0),
            "K": g.log(0.3, 3.0) * cs / tf,
            "n_max": g.log(0.5, 3.0) * cs,
            "A_0": A / tf,
            "E_A": E,
        }
    # seldom everything at once: each combination is a form to compile
    dep = g.draw(st.sets(st.sampled_from(sorted(v)), max_size=3))
    p = {}
    for k, a in v.items():
        if k not in dep:
            p[k] = g.spec(a, ("const",), tf)
        else:
            p[k] = g.wrap(g.spec(a, ("tlin", "xlin") if k == "E_A" else tk[2:], tf))
    t["ext"] = {"kind": "ext" if ext else "neutron", "p": p}
    return t


def sk(g, surf, tf, transient=True):
    """surface kinetics condition"""
    cs, ls = g.cs, g.ls
    ns, ni = g.log(0.5, 3.0) * cs * ls, g.log(5.0, 30.0) * cs

    def rate(a, kinds):
        k = g.pick(*kinds)
        if k == "num":
            return a
        if k == "cs":
            return [k, a, ns * 2]
        if k == "cm":
            return [k, a, ni]
        return [k, a]

    tk = ("const", "tlin", "step", "sin") if transient else ("const",)
    return {
        "type": "sk",
        "surf": surf,
        "ksb": rate(g.log(0.1, 2.0), ("num", "T", "prm", "prm2", "cm")),
        "kbs": rate(g.log(0.1, 2.0) * ls, ("num", "T", "prm", "prm2", "both", "cs")),
        "jvs": rate(g.log(0.1, 1.5) * cs * ls, ("num", "T", "prm", "prm2", "both", "cs")),
        "lam": g.log(0.01, 0.3) * ls,
        "nsurf": ns,
        "nis": ni,
        "ic": g.pick(0, 0.0, g.num(0.05, 0.8) * ns),
        "prm1": g.spec(g.num(0.5, 1.5), tk, tf),
        "prm2": g.spec(g.num(0.5, 1.5), tk, tf),
    }
