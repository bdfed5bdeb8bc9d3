"""1D meshes from vertices and borders; meshes read from XDMF files."""
import numpy as np
from hypothesis import strategies as st
from .. import files, gen
from ..core import Violation

RULE = (
    "a case counts when the vertices are unsorted, duplicated or far from unit scale, or the domain has several materials or layers, or the layout is an invalid one, or the markers come from files; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 800, "seconds": 100}, "thorough": {"cases": 40000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, 1.0, 1.0)
    if g.chance(1, 6):
        return xdmf(g)
    sc = g.pick(1.0, 1e-3, 1e-6, 1e-9, 1e-12, 100.0)
    n = g.int(1, 4)
    w = [g.num(0.2, 2.0) for _ in range(n)]
    b = [0.0]
    for x in w:
        b.append(float("%.6g" % (b[-1] + x * sc)))
    start = 0.0
    kind = g.pick("zero", "zero", "zero", "pos", "neg1") if n == 1 else g.pick("zero", "zero", "pos")
    if kind == "pos":
        start = float("%.6g" % (b[1] * g.num(0.1, 0.9)))
    if kind == "neg1":
        start = -b[1]
    aligned = g.chance(4, 5)
    v = [start, b[-1]]
    for i in range(n):
        lo, hi = max(b[i], start), b[i + 1]
        k = g.int(2, 9)
        v += [lo + (hi - lo) * j / k for j in range(0 if aligned else 1, k)]
    for _ in range(g.int(0, 3)):
        v.append(v[g.int(0, len(v) - 1)])
    if g.chance():
        v = g.draw(st.permutations(v))
    if sc == 100.0 and g.chance() and n == 1 and kind == "zero":
        v = [int(x) for x in v]
        b = [0, max(v)]
        if max(v) == 0 or len(set(v)) < 2:
            v = [0, 3, 7, 3]
            b = [0, 7]
    # layers of the materials
    ids = g.draw(st.lists(st.integers(1, 12), min_size=n, max_size=n, unique=True))
    owner = list(range(n))
    if n >= 3 and g.chance():
        owner[g.int(1, n - 1)] = 0
    mats = []
    for o in sorted(set(owner)):
        lay = [i for i in range(n) if owner[i] == o]
        m = {"borders": [[b[i], b[i + 1]] for i in lay], "ids": [ids[i] for i in lay]}
        if len(lay) == 1:
            m["borders"] = g.pick(m["borders"], m["borders"][0])
            m["id"] = ids[lay[0]]
        elif g.chance():
            m["id"] = ids[lay[0]]
            m["ids"] = [ids[lay[0]]] * len(lay)
        else:
            m["id"] = m["ids"]
        mats.append(m)
    if n == 1 and (kind == "neg1" or g.chance()):
        mats[0]["borders"] = None
    mats = g.draw(st.permutations(mats))
    c = {"verts": v, "form": g.pick("list", "array", "tuple"), "mats": mats, "coords": "cartesian"}
    if start > 0:
        c["coords"] = g.pick("cartesian", "cylindrical", "spherical")
    if g.chance(1, 3):
        d = defect(g, c, b)
        if d:
            c["defect"] = d
    return c


def defect(g, c, b):
    """one inconsistency of the borders; None if not applicable"""
    mats = c["mats"]
    if any(m["borders"] is None for m in mats):
        return None
    flat = []
    for m in mats:
        for x in m["borders"] if isinstance(m["borders"][0], list) else [m["borders"]]:
            flat.append(x)
    k = g.pick("gap", "overlap", "start", "end", "none", "before")
    L = b[-1]
    h = min(y - x for x, y in zip(b, b[1:])) * g.num(0.05, 0.9)
    if k in ("gap", "overlap"):
        if len(b) < 3:
            return None
        x = next(x for x in flat if x[1] == b[1]) if g.chance() else next(x for x in flat if x[0] == b[1])
        i = 0 if x[0] == b[1] else 1
        x[i] += h * (1 if (k == "gap") == (i == 0) else -1)
    elif k == "start":
        x = next(x for x in flat if x[0] == 0)
        x[0] = g.pick(1, -1) * h
    elif k == "end":
        x = next(x for x in flat if x[1] == L)
        x[1] += g.pick(1, -1) * h
    elif k == "none":
        if len(mats) < 2:
            return None
        mats[g.int(0, len(mats) - 1)]["borders"] = None
    else:
        c["verts"] = list(c["verts"]) + [-h]
        c["coords"] = "cartesian"
    return k


def xdmf(g):
    dim = g.int(2, 3)  # dolfin reads a 1D mesh back as a line in the plane
    n = [g.int(2, 5) for _ in range(dim)]
    c = {"xdmf": n, "cuts": [g.num(0.2, 0.8)], "axis": g.int(0, dim - 1), "tags": g.draw(st.lists(st.integers(1, 20), min_size=2, max_size=2, unique=True))}
    c["surf"] = g.draw(st.lists(st.integers(1, 30), min_size=2 * dim, max_size=2 * dim, unique=True))
    c["coords"] = {1: g.pick("cartesian", "spherical"), 2: g.pick("cartesian", "cylindrical"), 3: "cartesian"}[dim]
    return c


def strategy(tier):
    return case(tier)


def check(c):
    if "xdmf" in c:
        with files.scratch():
            return from_files(c)
    import festim as F

    v = c["verts"]
    if c["form"] == "array":
        v = np.array(v)
    elif c["form"] == "tuple":
        v = tuple(v)
    kw = {} if c["coords"] == "cartesian" else {"type": c["coords"]}
    sim = F.Simulation(log_level=50)
    sim.mesh = F.MeshFromVertices(v, **kw)
    sim.materials = [F.Material(m["id"], 1.0, 0.1, borders=m["borders"]) for m in c["mats"]]
    sim.T = 500
    sim.settings = F.Settings(1e-10, 1e-10, transient=False)
    want = sorted(set(float(x) for x in c["verts"]))
    if c.get("defect"):
        try:
            sim.initialise()
        except (ValueError, TypeError, AttributeError):
            return {"nontrivial": True, "labels": ["defect:" + c["defect"]], "sub": 1}
        raise Violation("borders %r accepted on the mesh %r (%s)" % ([m["borders"] for m in c["mats"]], want, c["defect"]))
    sim.initialise()
    judge(c, sim.mesh, want)
    if sim.mesh.type != c["coords"]:
        raise Violation("mesh type %r" % sim.mesh.type)
    sv = list(c["verts"])
    return {
        "nontrivial": len(want) < len(sv) or sv != sorted(sv) or len(c["mats"]) > 1 or max(want) < 0.1,
        "labels": ["mats:%d" % len(c["mats"]), "coords:" + c["coords"]] + ["layers"] * any(isinstance(m["id"], list) for m in c["mats"]),
        "sub": len(want),
    }


def judge(c, mesh, want):
    import fenics as f

    dm = mesh.mesh
    X = dm.coordinates()[:, 0]
    if sorted(X.tolist()) != want:
        raise Violation("vertices %r instead of %r" % (sorted(X.tolist()), want))
    if X.tolist() != want:
        raise Violation("vertices are not in increasing order: %r" % X.tolist())
    pairs = sorted((min(X[a], X[b]), max(X[a], X[b])) for a, b in dm.cells())
    if pairs != list(zip(want, want[1:])):
        raise Violation("cells %r instead of the intervals between the vertices" % pairs)
    length = {}
    for cell in f.cells(dm):
        x = X[cell.entities(0)]
        mid, tag = 0.5 * (x[0] + x[1]), int(mesh.volume_markers[cell])
        ok = owners(c, mid)
        if tag not in ok:
            raise Violation("cell %r belongs to volume %d instead of %r" % (sorted(x.tolist()), tag, sorted(ok)))
        length[tag] = length.get(tag, 0.0) + abs(x[1] - x[0])
    for fc in f.facets(dm):
        x = X[fc.index()]
        exp = 1 if x == want[0] else 2 if x == want[-1] else 0
        if int(mesh.surface_markers[fc]) != exp:
            raise Violation("point %r of %r is marked %d as a surface instead of %d" % (x, want, int(mesh.surface_markers[fc]), exp))
    one = f.Constant(1.0)
    ident = f.Expression("x[0]", degree=1, domain=dm)
    tol = 1e-9 * (want[-1] - want[0])
    for m in c["mats"]:
        for i in set(m["ids"]):
            got = f.assemble(one * mesh.dx(i))
            if abs(got - length.get(i, 0.0)) > tol:
                raise Violation("measure of volume %d is %r instead of %r" % (i, got, length.get(i, 0.0)))
    for i, x in ((1, want[0]), (2, want[-1])):
        got = f.assemble(one * mesh.ds(i)), f.assemble(ident * mesh.ds(i))
        if abs(got[0] - 1.0) > 1e-9 or abs(got[1] - x) > 1e-9 * max(abs(x), tol):
            raise Violation("surface %d: measure %r, position %r instead of %r" % (i, got[0], got[1], x))


def owners(c, x):
    out = set()
    for m in c["mats"]:
        if m["borders"] is None:
            return {m["id"]}
        bl = m["borders"] if isinstance(m["borders"][0], list) else [m["borders"]]
        for (lo, hi), i in zip(bl, m["ids"]):
            e = 1e-12 * max(abs(lo), abs(hi))
            if lo - e <= x <= hi + e:
                out.add(i)
    return out


def from_files(c):
    import fenics as f
    import festim as F

    n = c["xdmf"]
    dim = len(n)
    mesh = {
        1: lambda: f.UnitIntervalMesh(*n), 2: lambda: f.UnitSquareMesh(*n), 3: lambda: f.UnitCubeMesh(*n),
    }[dim]()
    if c["coords"] != "cartesian":
        mesh.coordinates()[:, 0] += 1.0
    lo, hi = mesh.coordinates().min(0), mesh.coordinates().max(0)
    vm = f.MeshFunction("size_t", mesh, dim, 0)
    sm = f.MeshFunction("size_t", mesh, dim - 1, 0)
    ax, cut = c["axis"], lo[c["axis"]] + c["cuts"][0]

    def vol(p):
        return c["tags"][0] if p[ax] < cut else c["tags"][1]

    def sur(p):
        for a in range(dim):
            for s, e in enumerate((lo, hi)):
                if abs(p[a] - e[a]) < 1e-9:
                    return c["surf"][2 * a + s]
        return 0

    pt = lambda e: [e.midpoint().x(), e.midpoint().y(), e.midpoint().z()]
    for x in f.cells(mesh):
        vm[x] = vol(pt(x))
    mesh.init(dim - 1)
    for x in f.facets(mesh):
        sm[x] = sur(pt(x))
    vm.rename("f", "f")
    sm.rename("f", "f")
    f.XDMFFile("vol.xdmf").write(vm)
    f.XDMFFile("surf.xdmf").write(sm)
    kw = {} if c["coords"] == "cartesian" else {"type": c["coords"]}
    got = F.MeshFromXDMF("vol.xdmf", "surf.xdmf", **kw)
    if got.type != c["coords"]:
        raise Violation("type %r of a mesh read from files" % got.type)
    if got.mesh.num_cells() != mesh.num_cells() or not np.allclose(
        sorted(map(tuple, got.mesh.coordinates().tolist())), sorted(map(tuple, mesh.coordinates().tolist())), rtol=0, atol=1e-12
    ):
        raise Violation("mesh read from files differs")
    for x in f.cells(got.mesh):
        if int(got.volume_markers[x]) != vol(pt(x)):
            raise Violation("cell at %r read as volume %d instead of %d" % (pt(x)[:dim], int(got.volume_markers[x]), vol(pt(x))))
    got.mesh.init(dim - 1)
    for x in f.facets(got.mesh):
        if int(got.surface_markers[x]) != sur(pt(x)):
            raise Violation("facet at %r read as surface %d instead of %d" % (pt(x)[:dim], int(got.surface_markers[x]), sur(pt(x))))
    got.define_measures()
    one = f.Constant(1.0)
    for i in c["tags"]:
        w = sum(x.volume() for x in f.cells(mesh) if vol(pt(x)) == i)
        if abs(f.assemble(one * got.dx(i)) - w) > 1e-9:
            raise Violation("measure of volume %d" % i)
    for i in c["surf"]:
        if abs(f.assemble(one * got.ds(i)) - 1.0) > 1e-9:
            raise Violation("measure of surface %d" % i)
    return {"nontrivial": True, "labels": ["xdmf:%dd" % dim], "sub": mesh.num_cells()}
