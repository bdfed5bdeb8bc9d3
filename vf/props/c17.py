"""Tables of derived quantities: rows, cadence, alignment, files."""
import numpy as np
from hypothesis import strategies as st
from .. import dq, files, gen, model, rewrite
from ..core import Violation

RULE = (
    "a case counts when some table has a cadence different from 1, a file, several quantities or is filled again by a second run, and at least one row; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 240, "seconds": 120}, "thorough": {"cases": 6000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3])))
    tr = g.chance(4, 5)
    c = gen.problem(
        g, transient=tr, nmat=(1, 2), traps=(0, 1), chem=g.chance(1, 6), bc_mix=("d", "none"), dt_n=(1, 9),
        geo=("1d", "1d", "1d", "2d", "cyl1", "cyl2", "sph", "3d"), T="solve" if g.chance(1, 5) else "val",
    )
    c = gen.name_traps(g, rewrite.retime(g, c))
    if tr and g.chance(1, 3):
        c["dt"] = {"initial_value": c["dt"] if not isinstance(c["dt"], dict) else c["dt"]["initial_value"]}
        c["dt"]["stepsize_change_ratio"] = g.num(1.3, 2.0)
        c["dt"]["dt_min"] = 1e-3 * c["settings"]["final"]
        c["dt"]["milestones"] = [c["settings"]["final"] * g.num(0.05, 0.95) for _ in range(g.int(1, 2))]
    c["tables"] = []
    names = ["q.csv", "out/r.csv", "a/b/c.csv"]
    for i in range(g.int(1, 3)):
        c["tables"].append(
            {
                "qs": [dq.gen(g, c) for _ in range(g.int(1, 4))],
                "nbc": g.pick(1, 1, 2, 3, 5),
                "nbe": g.pick(None, None, 1, 2, 3, 4),
                "file": g.pick(None, "f", "f") and names[i],
                "units": g.chance(2, 3),
            }
        )
    c["again"] = g.chance(1, 4)
    return c


def strategy(tier):
    return case(tier)


def title(q, c):
    """documented column title"""
    dim = int(c["mesh"]["kind"][0])
    co = c["mesh"].get("coords", "cartesian")
    k, f = q["q"], q.get("field")
    T = f == "T"
    m = lambda n: "" if n == 0 else " m" if n == 1 else " m%d" % n
    # extra length dimensions brought by the revolution
    ex = {"cartesian": 0, "cylindrical": 1, "spherical": 3 - dim}[co]
    if k in ("SurfaceFlux", "HydrogenFlux", "ThermalFlux"):
        T = T or k == "ThermalFlux"
        if k == "HydrogenFlux":
            f = "solute"
        name = "Heat flux surface %s" % q["id"] if T else "%s flux surface %s" % (f, q["id"])
        if co == "spherical":
            unit = "W" if T else "H s-1"
        else:
            n = dim - 3 + ex
            unit = "W" + ("" if n == 0 else " m%d" % n) if T else "H" + ("" if n == 0 else " m%d" % n) + " s-1"
        return name, unit
    if k == "PointValue":
        x = q["x"]
        return "%s value at %s" % (f, x if isinstance(x, list) else [x]), "K" if T else "H m-3"
    word, place = k[:7], k[7:].lower()
    for w in ("Total", "Average", "Maximum", "Minimum"):
        if k.startswith(w):
            word, place = w, k[len(w):].lower()
    name = "%s %s %s %s" % (word, f, place, q["id"])
    if word != "Total":
        return name, "K" if T else "H m-3"
    n = (dim if place == "volume" else dim - 1) + ex
    if T:
        return name, "K" + m(n)
    n = (dim - 3 if place == "volume" else dim - 3) + ex
    if co == "spherical":
        return name, "H"
    return name, "H" + ("" if n == 0 else " m%d" % n)


def check(c):
    import festim as F

    with files.scratch():
        tables, seen = [], []
        for t in c["tables"]:
            kw = {}
            if t["nbc"] != 1:
                kw["nb_iterations_between_compute"] = t["nbc"]
            if t["nbe"] is not None:
                kw["nb_iterations_between_exports"] = t["nbe"]
            tables.append(
                F.DerivedQuantities([dq.make(q, c) for q in t["qs"]], filename=t["file"], show_units=t["units"], **kw)
            )

        def look():
            seen.append([files.read_csv(t["file"]) if t["file"] else None for t in c["tables"]])

        def clear(sim):
            del seen[:]
            if c["again"]:
                import os

                for t in c["tables"]:
                    if t["file"]:
                        os.remove(t["file"]) if os.path.exists(t["file"]) else None

        sim, states = model.run(c, exports=tables + [files.watcher(look)], hook=clear, again=c["again"])
        M = model.Model(c, sim)
        sub = 0
        for i, (t, tab) in enumerate(zip(c["tables"], tables)):
            sub += judge(c, M, t, tab, states[1:], [s[i] for s in seen])
        nt = c["again"] or any(t["nbc"] != 1 or t["file"] or len(t["qs"]) > 1 for t in c["tables"])
    return {"nontrivial": nt and sub > 0, "labels": model.labels(c) + ["again"] * c["again"] + ["every%s/%s" % (t["nbc"], t["nbe"]) for t in c["tables"]], "sub": sub}


def judge(c, M, t, tab, steps, seen):
    transient = M.transient
    want = [n for n in range(len(steps)) if n % t["nbc"] == 0]
    if len(seen) != len(steps):
        raise Violation("%d solutions, %d written" % (len(steps), len(seen)))
    data = tab.data
    if len(data) != len(want) + 1:
        raise Violation("table of %d rows for %d computed steps of %d" % (len(data) - 1, len(want), len(steps)))
    head = []
    for q in t["qs"]:
        name, unit = title(q, c)
        head.append(name + " (%s)" % unit if t["units"] else name)
    if list(data[0]) != ["t(s)"] + head:
        raise Violation("header %r instead of %r" % (data[0], ["t(s)"] + head))
    if list(tab.t) != [steps[n]["t"] for n in want]:
        raise Violation("times %r instead of %r" % (tab.t, [steps[n]["t"] for n in want]))
    for j, (q, spec) in enumerate(zip(tab, t["qs"])):
        if list(q.t) != list(tab.t) or list(q.data) != [r[1 + j] for r in data[1:]]:
            raise Violation("data of %s differ from the column of the table" % q.title)
    for n, row in zip(want, data[1:]):
        if row[0] != steps[n]["t"] or len(row) != 1 + len(t["qs"]):
            raise Violation("row %r of step %d at t=%r" % (row, n, steps[n]["t"]))
        for spec, got in zip(t["qs"], row[1:]):
            dq.judge(M, steps[n], spec, got, "table: ")
    # files
    last = None
    for n in range(len(steps)):
        if t["file"]:
            if not transient:
                export = True
            elif t["nbe"] is None:
                export = n == len(steps) - 1
            else:
                export = n % t["nbe"] == 0
            if export:
                last = n
            if last is None:
                if seen[n] is not None:
                    raise Violation("file written before its first export (step %d)" % n)
                continue
            rows = [r for m, r in zip(want, data[1:]) if m <= last]
            if seen[n] is None:
                raise Violation("no file after step %d" % n)
            if seen[n][0] != [str(x) for x in data[0]]:
                raise Violation("header of the file %r" % (seen[n][0],))
            got = [[float(x) for x in r] for r in seen[n][1:]]
            if len(got) != len(rows) or any(len(a) != len(b) or not np.allclose(a, b, rtol=1e-12, atol=0) for a, b in zip(got, rows)):
                raise Violation("file after step %d has %d rows %r, %d expected %r" % (n, len(got), got[-1:], len(rows), rows[-1:]))
    return len(want) * len(t["qs"])
