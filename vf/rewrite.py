"""Rewritings of a generated case that describe the same physical problem.

A rewriting takes (case, integers) and returns a new case and the way the
observables of the new one map onto those of the old one (class Map)."""
import copy
import math

SOLUTE = (0, "0", "solute")


class Map:
    def __init__(self, c):
        self.mx = (1.0, 0.0)  # x2 = mx[0]*x + mx[1]
        self.ly = 1.0
        self.a = self.tau = 1.0
        self.traps = [[i] for i in range(len(c.get("traps", [])))]
        self.vol = {}
        self.surf = {}

    def then(self, m):
        """self followed by m"""
        o = copy.deepcopy(self)
        o.mx = (self.mx[0] * m.mx[0], m.mx[0] * self.mx[1] + m.mx[1])
        o.ly *= m.ly
        o.a *= m.a
        o.tau *= m.tau
        o.traps = [sum((m.traps[i] for i in t), []) for t in self.traps]
        vol, surf = {}, {}
        for k in set(self.vol) | set(m.vol):
            vol[k] = sum((m.vol.get(v, [v]) for v in self.vol.get(k, [k])), [])
        for k in set(self.surf) | set(m.surf):
            s = self.surf.get(k, k)
            surf[k] = m.surf.get(s, s)
        o.vol, o.surf = vol, surf
        return o


def aslist(x):
    return x if isinstance(x, list) else [x]


def unlist(x):
    return x[0] if len(x) == 1 else x


def geokey(c):
    return "mk" if c["mesh"].get("mk") or c["mesh"]["kind"] == "2d" else "borders"


def layers(m, key):
    """[(lo, hi, id)] of a material"""
    b = m.get(key)
    bl = b if isinstance(b[0], list) else [b]
    ids = aslist(m["id"])
    return [[lo, hi, i] for (lo, hi), i in zip(bl, ids * len(bl) if len(ids) == 1 else ids)]


def ids(c):
    return [i for m in c["mats"] for i in aslist(m["id"])]


def fresh(c, k=0):
    used = set(ids(c))
    return [i for i in range(1, 60) if i not in used][k % 20]


# ---------------------------------------------------------------- rewritings
def split(c, r):
    """a material becomes two identical layers: another material, another id
    of the same material, or another layer of the same id"""
    c = copy.deepcopy(c)
    M = Map(c)
    g = c["mesh"]
    if g["kind"] == "1d" and c["mats"][0].get("borders") is None and c["mats"][0].get("mk") is None:
        g["mk"] = True
        c["mats"][0]["mk"] = [min(g["verts"]), max(g["verts"])]
    key = geokey(c)
    i = r[0] % len(c["mats"])
    m = c["mats"][i]
    if m.get(key) is None:
        if g["kind"] != "2d":
            return None
        m[key] = [g["x0"], g["x0"] + g["lx"]]
    ls = layers(m, key)
    j = r[1] % len(ls)
    lo, hi, vid = ls[j]
    xs = sorted(set(g["verts"])) if g["kind"] == "1d" else [g["x0"] + g["lx"] * k / g["nx"] for k in range(g["nx"] + 1)]
    e = 1e-9 * (hi - lo)
    cuts = [x for x in xs if lo + e < x < hi - e]
    if not cuts:
        return None
    x = cuts[r[2] % len(cuts)]
    mode = r[3] % 3
    new = fresh(c, r[4])
    if mode == 0:  # another material
        ls[j][1] = x
        n = dict(copy.deepcopy(m), id=new, name=m["name"] + "bis" if m.get("name") else None)
        n[key] = [x, hi]
        c["mats"].append(n)
        k = len(c["mats"]) - 1
        for t in c.get("traps", []):
            if i in t["mats"]:
                p = t["mats"].index(i)
                t["mats"] = t["mats"] + [k]
                for q in ("k0", "Ek", "p0", "Ep", "n"):
                    if isinstance(t.get(q), list):
                        t[q] = t[q] + [copy.deepcopy(t[q][p])]
    elif mode == 1:  # another id of the same material
        ls[j][1] = x
        ls.insert(j + 1, [x, hi, new])
    else:
        new = vid
        ls[j][1] = x
        ls.insert(j + 1, [x, hi, vid])
        if len(set(l[2] for l in ls)) > 1:
            return None  # ids are listed one by one
    m[key] = [[a, b] for a, b, _ in ls] if len(ls) > 1 else ls[0][:2]
    seen = []
    for l in ls:
        if l[2] not in seen:
            seen.append(l[2])
    if 1 < len(seen) < len(ls):
        return None  # ids are listed one by one
    m["id"] = unlist(seen)
    if new != vid:
        M.vol[vid] = [vid, new]
        for s in c.get("sources", []):
            if vid in aslist(s["vol"]):
                s["vol"] = aslist(s["vol"]) + [new] if s.get("type", "src") == "src" else aslist(s["vol"]) + [new]
    return c, M


def order_mats(c, r):
    c = copy.deepcopy(c)
    n = len(c["mats"])
    p = perm(n, r)
    if p is None:
        return None
    c["mats"] = [c["mats"][i] for i in p]
    for t in c.get("traps", []):
        t["mats"] = [p.index(i) for i in t["mats"]]
    return c, Map(c)


def order_in_traps(c, r):
    """materials of a trap listed in another order"""
    c = copy.deepcopy(c)
    M = Map(c)
    hit = False
    for t in c.get("traps", []):
        p = perm(len(t["mats"]), r)
        if p is None:
            continue
        hit = True
        t["mats"] = [t["mats"][i] for i in p]
        for q in ("k0", "Ek", "p0", "Ep", "n"):
            if isinstance(t.get(q), list):
                t[q] = [t[q][i] for i in p]
    return (c, M) if hit else None


def perm(n, r):
    if n < 2:
        return None
    k = r[0] % (math.factorial(n) - 1) + 1
    p, rest = [], list(range(n))
    for i in range(n, 0, -1):
        f = math.factorial(i - 1)
        p.append(rest.pop(k // f))
        k %= f
    return p


def trapnum(f, nt):
    """1.. for a trap field, else None"""
    if f in SOLUTE or not str(f).isdigit():
        return None
    return int(f)


def refield(f, fn):
    k = trapnum(f, 0)
    if k is None:
        return f
    return type(f)(fn(k))


def order_traps(c, r):
    c = copy.deepcopy(c)
    n = len(c.get("traps", []))
    p = perm(n, r)
    if p is None:
        return None
    M = Map(c)
    c["traps"] = [c["traps"][i] for i in p]
    M.traps = [[p.index(i)] for i in range(n)]
    for x in c.get("bcs", []) + c.get("sources", []) + c.get("ics", []):
        if "field" in x:
            x["field"] = refield(x["field"], lambda k: p.index(k - 1) + 1)
    return c, M


def corners(c):
    """in 2D the last of two values imposed on a corner counts"""
    D = ("dirichlet", "sieverts", "henrys", "implant", "customd")
    return c["mesh"]["kind"] == "2d" and sum(len(aslist(b["surf"])) for b in c.get("bcs", []) if b["type"] in D) > 1


def order_lists(c, r):
    c = copy.deepcopy(c)
    hit = False
    for j, k in enumerate(("bcs", "sources", "ics")):
        if k == "bcs" and corners(c):
            continue
        p = perm(len(c.get(k, [])), r[j:])
        if p is not None:
            c[k] = [c[k][i] for i in p]
            hit = True
    return (c, Map(c)) if hit else None


def renumber(c, r):
    """other ids of volumes and, where the user marks the mesh, of surfaces"""
    c = copy.deepcopy(c)
    M = Map(c)
    old = ids(c)
    start = r[0] % 40 + 1
    step = (1, 3, 7, -1)[r[1] % 4]
    new = {}
    for k, i in enumerate(old):
        new.setdefault(i, start + (step * len(new) if step > 0 else len(old) - len(new)))
    for m in c["mats"]:
        m["id"] = [new[i] for i in m["id"]] if isinstance(m["id"], list) else new[m["id"]]
    for s in c.get("sources", []):
        s["vol"] = [new[i] for i in s["vol"]] if isinstance(s["vol"], list) else new[s["vol"]]
    M.vol = {i: [new[i]] for i in old}
    if geokey(c) == "mk":
        old = c["mesh"].get("stag") or ([1, 2] if c["mesh"]["kind"] == "1d" else [1, 2, 3, 4])
        ns = [r[2] % 30 + 5 + k * (1 + r[3] % 3) for k in range(len(old))]
        if r[4] % 2:
            ns = ns[::-1]
        sm = dict(zip(old, ns))
        c["mesh"]["stag"] = ns
        for b in c.get("bcs", []):
            b["surf"] = [sm[i] for i in b["surf"]] if isinstance(b["surf"], list) else sm[b["surf"]]
        M.surf = sm
    return c, M


def alias(c, r):
    c = copy.deepcopy(c)
    hit = False
    for j, x in enumerate(c.get("bcs", []) + c.get("ics", [])):
        f = x.get("field")
        k = r[j % len(r)]
        if f in SOLUTE and f is not None:
            x["field"] = SOLUTE[(SOLUTE.index(f) + 1 + k % 2) % 3] if not isinstance(f, str) or True else f
            hit = True
        elif f is not None and str(f).isdigit():
            x["field"] = str(f) if isinstance(f, int) else int(f)
            hit = True
    for j, x in enumerate(c.get("sources", [])):
        if x.get("field") in ("0", "solute"):
            x["field"] = "0" if x["field"] == "solute" else "solute"
            hit = True
    return (c, Map(c)) if hit else None


def surfaces(c, r):
    """one condition on several surfaces <-> several conditions"""
    if corners(c):
        return None
    c = copy.deepcopy(c)
    out, hit = [], False
    for b in c.get("bcs", []):
        if isinstance(b["surf"], list) and len(b["surf"]) > 1:
            out += [dict(copy.deepcopy(b), surf=s if r[0] % 2 else [s]) for s in b["surf"]]
            hit = True
            continue
        for o in out:
            x, y = {k: v for k, v in o.items() if k != "surf"}, {k: v for k, v in b.items() if k != "surf"}
            if x == y:
                o["surf"] = aslist(o["surf"]) + aslist(b["surf"])
                hit = True
                break
        else:
            out.append(b)
    if not hit:
        return None
    c["bcs"] = out
    return c, Map(c)


def volumes(c, r):
    c = copy.deepcopy(c)
    out, hit = [], False
    for s in c.get("sources", []):
        if isinstance(s["vol"], list) and len(s["vol"]) > 1:
            out += [dict(copy.deepcopy(s), vol=v) for v in s["vol"]]
            hit = True
        else:
            out.append(s)
    if not hit:
        return None
    c["sources"] = out
    return c, Map(c)


def scaled(s, a, l=1.0, tau=1.0):
    """the spec in other units: value*a, x*l, t*tau"""
    if not isinstance(s, dict):
        return s * a
    k, p = s["k"], list(s["p"])
    p[0] *= a
    if k in ("step", "xstep"):
        p[1] *= a
        p[2] *= tau
        if k == "xstep":
            p[3] /= l
    elif k == "bool":
        p[1] *= tau
    elif k == "xlin":
        p[1] /= l
    elif k == "xylin":
        p[1] /= l
        p[2] /= l
    elif k in ("xyz", "xyzt"):
        p[1:4] = [q / l for q in p[1:4]]
        if k == "xyzt":
            p[4] /= tau
    elif k == "tlin":
        p[1] /= tau
    elif k in ("xt", "xpt"):
        p[1] /= l
        p[2] /= tau
    elif k in ("sin", "texp"):
        p[2] /= tau
    elif k == "tquad":
        p[1] /= tau**2
    elif k == "xquad":
        p[1] /= l
        p[2] /= l**2
    else:
        raise KeyError(k)
    return dict(s, p=p)


def share(c, r):
    """sources, fluxes and traps split into parts that add up"""
    c = copy.deepcopy(c)
    M = Map(c)
    w = (0.5, 0.25, 0.3)[r[0] % 3]
    hit = False
    kind = r[1] % 3
    if kind == 0:
        out = []
        for s in c.get("sources", []):
            if s.get("type", "src") in ("src", "imp"):
                out += [dict(s, v=scaled(s["v"], w)), dict(s, v=scaled(s["v"], 1 - w))]
                hit = True
            else:
                out += [dict(s, lam=s["lam"] * w), dict(s, lam=s["lam"] * (1 - w))]
                hit = True
        c["sources"] = out
    elif kind == 1:
        out = []
        for b in c.get("bcs", []):
            if b["type"] in ("flux", "mass", "conv", "dis", "rec"):
                k = {"flux": "v", "mass": "h", "conv": "h", "dis": "Kd0", "rec": "Kr0"}[b["type"]]
                out += [dict(b, **{k: scaled(b[k], w)}), dict(b, **{k: scaled(b[k], 1 - w)})]
                hit = True
            elif b["type"] == "custom":
                out += [dict(b, a=scaled(b["a"], v), b=scaled(b["b"], v)) for v in (w, 1 - w)]
                hit = True
            else:
                out.append(b)
        c["bcs"] = out
    else:
        ts = c.get("traps", [])
        if not ts:
            return None
        i = r[2] % len(ts)
        t = ts[i]
        if t.get("ext"):
            return None
        n = len(ts)
        f = str(i + 1)
        part = lambda v: [scaled(x, v) for x in t["n"]] if isinstance(t["n"], list) else scaled(t["n"], v)
        c["traps"] = [dict(x) for x in ts] + [dict(t, n=part(1 - w))]
        c["traps"][i]["n"] = part(w)
        M.traps[i] = [i, n]
        hit = True
        for k in ("ics", "sources", "bcs"):
            out = []
            for x in c.get(k, []):
                if str(x.get("field", 0)) != f:
                    out.append(x)
                    continue
                y = dict(x, field=type(x["field"])(n + 1))
                x = dict(x)
                if "v" in x:
                    x["v"], y["v"] = scaled(x["v"], w), scaled(y["v"], 1 - w)
                elif x["type"] == "customd":
                    for z, v in ((x, w), (y, 1 - w)):
                        z["a"] = scaled(z["a"], v)
                        if x["fn"] == "dsum":
                            z["b"] = scaled(z["b"], v)
                out += [x, y]
            c[k] = out
    return (c, M) if hit else None


def trap_lists(c, r):
    """a trap of several materials described once or per material"""
    c = copy.deepcopy(c)
    M = Map(c)
    hit = False
    Q = ("k0", "Ek", "p0", "Ep", "n")
    for t in c.get("traps", []):
        if t.get("ext"):
            continue
        k = len(t["mats"])
        if not isinstance(t["n"], list) and (k > 1 or r[0] % 2):
            for q in Q:
                t[q] = [copy.deepcopy(t[q]) for _ in range(k)]
            t.pop("byname", None)
            hit = True
        elif isinstance(t["n"], list) and all(len({repr(v) for v in t[q]}) == 1 for q in Q):
            for q in Q:
                t[q] = t[q][0]
            hit = True
        elif not isinstance(t["n"], list):
            t["byname"] = not t.get("byname")
            hit = True
    return (c, M) if hit else None


def trap_parts(c, r):
    """discontinuous traps: one trap of several materials, or one in each"""
    if c["settings"].get("elt") != "DG":
        return None
    c = copy.deepcopy(c)
    M = Map(c)
    cand = [i for i, t in enumerate(c.get("traps", [])) if len(t["mats"]) > 1 and not t.get("ext")]
    if not cand:
        return None
    i = cand[r[0] % len(cand)]
    t = c["traps"][i]
    if any(str(x.get("field", 0)) == str(i + 1) for k in ("bcs", "ics") for x in c.get(k, [])):
        return None
    n = len(c["traps"])
    k = 1 + r[1] % (len(t["mats"]) - 1)
    new = dict(t, mats=t["mats"][k:])
    t["mats"] = t["mats"][:k]
    for q in ("k0", "Ek", "p0", "Ep", "n"):
        if isinstance(t[q], list):
            t[q], new[q] = t[q][:k], t[q][k:]
    c["traps"].append(new)
    M.traps[i] = [i, n]
    inside = [v for j in new["mats"] for v in aslist(c["mats"][j]["id"])]
    for s in c.get("sources", []):
        if str(s.get("field")) == str(i + 1):
            if s.get("type") == "decay":
                return None
            vs = aslist(s["vol"])
            if any(v in inside for v in vs):
                if not all(v in inside for v in vs):
                    return None
                s["field"] = str(n + 1)
            else:
                own = [v for j in t["mats"] for v in aslist(c["mats"][j]["id"])]
                if not all(v in own for v in vs):
                    return None
        elif s.get("type") == "decay" and s.get("field") == "all":
            return None
    return c, M


def affine(c, r):
    """1D cartesian domain mirrored, or moved where the user marks the mesh"""
    g = c["mesh"]
    if g["kind"] != "1d" or g.get("coords", "cartesian") != "cartesian":
        return None
    if any(s.get("type") == "imp" and isinstance(s["depth"], dict) for s in c.get("sources", [])):
        return None
    c = copy.deepcopy(c)
    M = Map(c)
    g = c["mesh"]
    v = g["verts"]
    key = geokey(c)
    L = max(v) - min(v)
    if key == "mk" and r[0] % 2:
        a, b = 1.0, L * (r[1] % 7 - 3) / 4.0 + 0.1 * L
    else:
        a, b = -1.0, max(v) + min(v)
    m = lambda x: a * x + b
    if a < 0 and key == "borders":
        lo, hi = min(v), max(v)
        m = lambda x: hi if x == lo else lo if x == hi else b - x
    g["verts"] = sorted(m(x) for x in v)
    for mat in c["mats"]:
        if mat.get(key) is not None:
            bl = mat[key] if isinstance(mat[key][0], list) else [mat[key]]
            bl = [sorted([m(x), m(y)]) for x, y in bl]
            mat[key] = bl if isinstance(mat[key][0], list) else bl[0]

    def sp(s):
        # s2(x) = s(a*(x-b))  as a*a = 1
        if not isinstance(s, dict):
            return s
        k, p = s["k"], list(s["p"])
        if k in ("xlin", "xt"):
            q = 1.0 - p[1] * a * b
            p[0] *= q
            p[1] = p[1] * a / q
        elif k == "xpt":
            q = 1.0 - p[1] * a * b
            p = [p[0] * q, p[1] * a / q, p[2] / q]
        elif k == "xquad":
            # 1 + p1*a(x-b) + p2*(x-b)^2
            q = 1.0 - p[1] * a * b + p[2] * b * b
            p = [p[0] * q, (p[1] * a - 2 * p[2] * b) / q, p[2] / q]
        elif k == "xstep":
            q = 1.0 - p[3] * a * b
            p[0] *= q
            p[3] = p[3] * a / q
        return dict(s, p=p)

    walk(c, sp)
    for s in c.get("sources", []):
        if s.get("type") == "imp":
            s["depth"] = a * s["depth"] + b
    if a < 0:
        # surface 1 is always the lowest end
        stag = g.get("stag") or [1, 2]
        sm = {stag[0]: stag[1], stag[1]: stag[0]}
        for x in c.get("bcs", []):
            x["surf"] = [sm[i] for i in x["surf"]] if isinstance(x["surf"], list) else sm[x["surf"]]
        M.surf = sm
    M.mx = (a, b)
    return c, M


def walk(c, sp):
    """applies sp to all specs that depend on space or time"""

    def dic(x):
        for k, v in list(x.items()):
            if isinstance(v, dict) and "k" in v and "p" in v:
                x[k] = sp(v)
            elif isinstance(v, list) and any(isinstance(i, dict) and "k" in i for i in v):
                x[k] = [sp(i) if isinstance(i, dict) else i for i in v]

    for k in ("bcs", "sources", "ics", "traps"):
        for x in c.get(k, []):
            dic(x)
            if x.get("ext"):
                dic(x["ext"]["p"])
    dic(c["T"])


def units(c, r):
    """other units of amount, length and time"""
    chem = c["settings"].get("chem")
    a = ((1.0, 0.1, 30.0, 7.0) if chem else (1.0, 1e-3, 1e3, 1e15, 7.0, 1e-10))[r[0] % (4 if chem else 6)]
    if a == 1e-10 and any(t.get("ext") for t in c.get("traps", [])):
        a = 1e-3  # the absolute tolerance of the density is not rescaled
    l = (1.0, 0.3, 50.0, 7.0)[r[1] % 4]
    tau = (1.0, 1e-3, 20.0, 1e-6)[r[2] % 4]
    st = c["settings"]
    if not st.get("transient", True) and st.get("elt") != "DG" and any(len(t["mats"]) < len(c["mats"]) for t in c.get("traps", [])):
        # steady continuous traps vanish outside their materials only weakly,
        # with a weight that is not a rate
        tau = 1.0
    if a == l == tau == 1.0:
        a = 7.0
    return units_by(c, a, l, tau)


def retime(g, c):
    """sometimes very short or very long times (the numbers of the model follow)"""
    if not c["settings"].get("transient", True) or g.chance(2, 3):
        return c
    return units_by(c, 1.0, 1.0, g.pick(1e-10, 1e-6, 1e4, 1e8))[0]


def units_by(c, a, l, tau):
    c = copy.deepcopy(c)
    M = Map(c)
    S = lambda s, k=1.0: scaled(s, k, l, tau)
    g = c["mesh"]
    dim = int(g["kind"][0])
    if dim == 1:
        g["verts"] = [x * l for x in g["verts"]]
    else:
        for k in ("x0", "lx", "ly", "lz"):
            if k in g:
                g[k] *= l
    for m in c["mats"]:
        for k in ("borders", "mk"):
            if m.get(k) is not None:
                m[k] = [[x * l for x in b] for b in m[k]] if isinstance(m[k][0], list) else [x * l for x in m[k]]
        m["D0"] *= l**2 / tau
        if m.get("S0") is not None:
            m["S0"] *= a
        if m.get("lam") is not None:
            f = l**2 / tau
            m["lam"] = {"f": [m["lam"]["f"][0] * f, m["lam"]["f"][1]]} if isinstance(m["lam"], dict) else m["lam"] * f
    each = lambda v, f: [f(x) for x in v] if isinstance(v, list) else f(v)
    for t in c.get("traps", []):
        t["k0"] = each(t["k0"], lambda v: v / a / tau)
        t["p0"] = each(t["p0"], lambda v: v / tau)
        if "n" in t:
            t["n"] = each(t["n"], lambda v: S(v, a))
        if t.get("ext"):
            sc = {"phi_0": a / tau, "n_amax": a, "n_bmax": a, "K": a / tau, "n_max": a, "A_0": 1 / tau}
            p = t["ext"]["p"]
            for k in p:
                p[k] = S(p[k], sc.get(k, 1.0))
    J = a * l / tau
    for b in c.get("bcs", []):
        T = b.get("field") == "T" or b["type"] == "conv"
        ty = b["type"]
        sc = {
            "dirichlet": {"v": 1.0 if T else a},
            "sieverts": {"S0": a, "P": 1.0},
            "henrys": {"H0": a, "P": 1.0},
            "implant": {"D0": l**2 / tau, "phi": J, "Rp": l, "Kr_0": J / a**2, "Kd_0": J, "P": 1.0},
            "customd": {"a": a, "b": 1.0 if b.get("fn") == "dprod" else a},
            "flux": {"v": l / tau if T else J},
            "rec": {"Kr0": J / a ** b.get("order", 1), "EKr": 1.0},
            "dis": {"Kd0": J, "EKd": 1.0, "P": 1.0},
            "mass": {"h": l / tau, "cext": a},
            "conv": {"h": l / tau, "Text": 1.0},
            "custom": {"a": l / tau, "b": l / tau} if T else {"a": J, "b": {"affine": l / tau, "quad": J / a**2, "tonly": J}.get(b.get("fn"))},
            "sk": {"lam": l, "nsurf": a * l, "nis": a, "ic": a * l, "prm1": 1.0, "prm2": 1.0},
        }[ty]
        for k, f in sc.items():
            if b.get(k) is not None:
                b[k] = S(b[k], f)
        if ty == "sk":
            for k, f in (("ksb", 1 / tau), ("kbs", l / tau), ("jvs", J)):
                v = b[k]
                if isinstance(v, list):
                    v = list(v)
                    v[1] *= f
                    if len(v) > 2:
                        v[2] *= a * l if v[0] == "cs" else a
                    b[k] = v
                else:
                    b[k] = v * f
    for s in c.get("sources", []):
        ty = s.get("type", "src")
        if ty == "src":
            s["v"] = S(s["v"], (1.0 if s["field"] == "T" else a) / tau)
        elif ty == "imp":
            s["v"] = S(s["v"], J)
            s["depth"] = S(s["depth"], l)
            s["width"] = S(s["width"], l)
        else:
            s["lam"] /= tau
    for i in c.get("ics", []):
        i["v"] = S(i["v"], a)
    T = c["T"]
    for k in ("v", "ic"):
        if k in T:
            T[k] = S(T[k])
    if "atol" in T:
        T["atol"] = max(T["atol"] * l**dim / tau, 1e-11)
    st = c["settings"]
    st["atol"] *= a * l**dim / tau
    if "final" in st:
        st["final"] *= tau
        d = c["dt"]
        if isinstance(d, dict):
            for k in ("initial_value", "dt_min", "max_stepsize"):
                if d.get(k) is not None:
                    d[k] *= tau
            if d.get("milestones"):
                d["milestones"] = [m * tau for m in d["milestones"]]
        else:
            c["dt"] = d * tau
    M.mx = (l, 0.0)
    M.ly = l
    M.a, M.tau = a, tau
    return c, M


def marked(c, r):
    """mesh from vertices <-> mesh marked by the user"""
    g = c["mesh"]
    if g["kind"] != "1d" or g.get("mk"):
        return None
    c = copy.deepcopy(c)
    c["mesh"]["mk"] = True
    for m in c["mats"]:
        b = m.pop("borders", None)
        if b is not None:
            m["mk"] = b
    return c, Map(c)


def shuffled(c, r):
    """vertices given in another order, some of them twice"""
    g = c["mesh"]
    if g["kind"] != "1d" or g.get("mk"):
        return None
    c = copy.deepcopy(c)
    v = sorted(set(g["verts"]))
    k = r[0] % len(v)
    w = v[k:] + v[:k]
    if r[1] % 2:
        w = w[::-1]
    c["mesh"]["verts"] = w + [w[r[2] % len(w)]]
    return c, Map(c)


def constants(c, r):
    """constants written as expressions of time or space that are constant"""
    c = copy.deepcopy(c)
    tf = c["settings"].get("final", 1.0)
    hit = False
    j = 0
    for k in ("bcs", "sources", "ics", "traps"):
        for x in c.get(k, []):
            for q in ("v", "n", "P", "h", "cext", "Text", "phi"):
                if isinstance(x.get(q), (int, float)) and not isinstance(x.get(q), bool):
                    j += 1
                    if r[j % len(r)] % 2:
                        continue
                    if k == "ics" or not c["settings"].get("transient", True):
                        x[q] = {"k": "xlin", "p": [x[q], 0.0]}
                    else:
                        x[q] = {"k": "step", "p": [x[q], x[q] * 2, tf * 2]}
                    hit = True
    return (c, Map(c)) if hit else None


def style(c, r):
    c = copy.deepcopy(c)
    if c.get("style"):
        c.pop("style")
    else:
        c["style"] = "append"
    return c, Map(c)


OPS = {
    "split": split,
    "order_mats": order_mats,
    "order_in_traps": order_in_traps,
    "order_traps": order_traps,
    "order_lists": order_lists,
    "renumber": renumber,
    "alias": alias,
    "surfaces": surfaces,
    "volumes": volumes,
    "share": share,
    "trap_lists": trap_lists,
    "trap_parts": trap_parts,
    "affine": affine,
    "units": units,
    "marked": marked,
    "shuffled": shuffled,
    "constants": constants,
    "style": style,
}


def apply(c, ops):
    """-> rewritten case, map, names of the rewritings that applied"""
    M = Map(c)
    done = []
    for op in ops:
        o = OPS[op["op"]](c, op["r"])
        if o is None:
            continue
        c, m = o
        M = M.then(m)
        done.append(op["op"])
    return c, M, done
