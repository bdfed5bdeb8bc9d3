"""TXT profiles."""
import os
import numpy as np
from hypothesis import strategies as st
from .. import dq, files, gen, model, rewrite, timectl
from ..core import Violation

RULE = (
    "a case counts when at least one profile with a field that varies in space was written at a requested subset of times, with duplicates kept at interfaces, or by a second run; distinct by the whole case"
)
BUDGET = {"quick": {"cases": 320, "seconds": 120}, "thorough": {"cases": 6000, "seconds": 3000}}


@st.composite
def case(draw, tier):
    g = gen.G(draw, draw(st.sampled_from([1.0, 1e20])), draw(st.sampled_from([1.0, 1e-3, 1e-9])))
    tr = g.chance(5, 6)
    c = gen.problem(
        g, transient=tr, nmat=(1, 3), traps=(0, 2), chem=g.chance(1, 3), bc_mix=("d", "d", "none"), dt_n=(1, 6),
        geo=("1d",), T="solve" if g.chance(1, 5) else "val", sources=1,
    )
    c = gen.name_traps(g, rewrite.retime(g, c))
    c["mesh"].pop("mk", None)
    for m in c["mats"]:
        if m.get("mk") is not None:
            m["borders"] = m.pop("mk")
    if not c["traps"] and g.chance(1, 4):
        c["settings"]["elt"] = "DG"
    if tr:
        tf = c["settings"]["final"]
        h = c["dt"]["initial_value"] if isinstance(c["dt"], dict) else c["dt"]
        c["dt"] = {"initial_value": h, "stepsize_change_ratio": g.num(1.3, 2.0), "dt_min": 1e-3 * tf}
        if g.chance(1, 4):
            c["dt"]["milestones"] = [float("%.6g" % (tf * g.num(0.05, 0.95)))]
        regular = g.chance(1, 3)
        if regular:
            # equal steps: the requested times are reached up to rounding
            n = g.int(3, 12)
            h = float("%.3g" % h)
            tf = c["settings"]["final"] = n * h
            c["dt"] = h
        elif g.chance(1, 4):
            c["dt"]["max_stepsize"] = tf * g.num(0.1, 0.5)
    c["txt"] = []
    names = ["p.txt", "out/r.txt", "a/b/c.txt"]
    for i in range(g.int(1, 3)):
        t = {"field": g.pick(*dq.fields(c)), "file": names[i], "filter": g.chance(2, 3), "last": g.chance(1, 3)}
        if tr and g.chance(2, 3):
            ts = [float("%.6g" % (tf * g.num(0.02, 0.98))) for _ in range(g.int(1, 3))]
            if regular:
                ts = [min(tf, float("%.10g" % (h * g.int(1, n)))) for _ in range(g.int(1, 4))]
            if g.chance(1, 3):
                ts.append(tf)
            if g.chance(1, 4) and not regular:
                ts.append(h * g.int(1, 2) if h * 2 < tf else 0.5 * tf)
            if g.chance(1, 4) and not t["last"] and not regular:
                ts.append(tf * g.num(1.2, 2.0))
            t["times"] = g.draw(st.permutations(ts))
        if g.chance(1, 3):
            t["fmt"] = g.pick(".4e", ".6f", ".3g")
        c["txt"].append(t)
    # times closer than the precision of the comparisons are one time for FESTIM
    keep = timectl.separate([m for m in ((c["dt"].get("milestones") if isinstance(c.get("dt"), dict) else None) or [])] + [x for t in c["txt"] for x in t.get("times", [])] + ([tf] if tr else []))
    for t in c["txt"]:
        if "times" in t:
            t["times"] = sorted({x for x in t["times"] if x in keep}) or [tf]
            if g.chance():
                t["times"] = t["times"][::-1]
    c["again"] = g.chance(1, 4)
    return c


def strategy(tier):
    return case(tier)


def read(path):
    if not os.path.exists(path):
        return None
    with open(path) as fh:
        head = fh.readline().rstrip("\n")
        rows = [[float(x) for x in line.split(",")] for line in fh if line.strip()]
    return head.split(","), np.array(rows)


def check(c):
    import festim as F

    with files.scratch():
        exports, seen = [], []
        for t in c["txt"]:
            kw = {k: v for k, v in (("times", t.get("times") and list(t["times"])), ("header_format", t.get("fmt"))) if v is not None}
            exports.append(F.TXTExport(t["field"], t["file"], filter=t["filter"], write_at_last=t["last"], **kw))

        def look():
            seen.append([read(t["file"]) for t in c["txt"]])

        def clear(sim):
            del seen[:]
            for t in c["txt"]:
                if os.path.exists(t["file"]):
                    os.remove(t["file"])

        sim, states = model.run(c, exports=exports + [files.watcher(look)], hook=clear, again=c["again"], limit=1500)
        M = model.Model(c, sim)
        sub = 0
        for i, t in enumerate(c["txt"]):
            sub += judge(c, M, t, states[1:], [s[i] for s in seen])
    nt = model.varied(states) and (c["again"] or any(t.get("times") for t in c["txt"]) or c["settings"].get("chem") or c["settings"].get("elt") == "DG")
    lab = ["again"] * c["again"] + sorted({"txt:" + ("times" if t.get("times") else "all") + (":last" if t["last"] else "") + (":nofilter" if not t["filter"] else "") for t in c["txt"]})
    return {"nontrivial": bool(nt), "labels": model.labels(c) + lab, "sub": sub}


def judge(c, M, t, steps, seen):
    m = M.m
    dg = M.chem or c["settings"].get("elt") == "DG"
    fmt = t.get("fmt", ".2e")
    if not M.transient:
        cols, heads = [0], ["t=steady"]
        last = 0
    else:
        final = c["settings"]["final"]
        if t.get("times"):
            wanted = sorted(x for x in set(t["times"]) if x <= final)
            cols = []
            for x in wanted:
                hit = [n for n, s in enumerate(steps) if abs(s["t"] - x) <= 1e-5 * x]
                if not hit:
                    raise Violation("no solution at the requested time %r (times %r)" % (x, [s["t"] for s in steps]))
                cols.append(hit[0])
        else:
            cols = list(range(len(steps)))
        heads = ["t=%ss" % format(steps[n]["t"], fmt) for n in cols]
        last = cols[-1] if cols else None
    # positions
    X = np.sort(m.X[:, 0])
    if dg:
        borders = set()
        for mat in c["mats"]:
            b = mat.get("borders")
            if b:
                borders |= set(np.ravel(b).tolist())
        xs = []
        for i, x in enumerate(X):
            inner = 0 < i < len(X) - 1
            two = inner and (not t["filter"] or any(abs(x - b) <= 1e-9 * X[-1] for b in borders))
            xs += [x, x] if two else [x]
    else:
        xs = list(X)
    sub = 0
    for n in range(len(steps)):
        done = [k for k in cols if k <= n]
        if t["last"]:
            done = done if last is not None and n >= last else []
        got = seen[n]
        if not done:
            if got is not None:
                raise Violation("file %s written before its time, at step %d" % (t["file"], n))
            continue
        if got is None:
            raise Violation("file %s missing after step %d" % (t["file"], n))
        head, data = got
        if head != ["x"] + heads[: len(done)]:
            raise Violation("columns %r instead of %r" % (head, ["x"] + heads[: len(done)]))
        if data.shape != (len(xs), 1 + len(done)):
            raise Violation("%s: %r values for %d positions, %d columns" % (t["file"], data.shape, len(xs), len(done)))
        if not np.allclose(data[:, 0], xs, rtol=1e-12, atol=1e-15 * X[-1]):
            raise Violation("positions of %s differ from the vertices" % t["file"])
        if n != len(steps) - 1:
            continue
        for j, k in enumerate(done):
            F = dq.cells(M, steps[k], t["field"])
            tol = 1e-7 * np.abs(F).max()
            i = 0
            while i < len(xs):
                v = int(np.argmin(np.abs(m.X[:, 0] - xs[i])))
                sides = [F[a, b] for a, b in np.argwhere(m.cells == v)]
                w = 2 if i + 1 < len(xs) and xs[i + 1] == xs[i] else 1
                vals = data[i : i + w, 1 + j]
                if w == 2:
                    ok = np.allclose(np.sort(vals), np.sort(sides), rtol=0, atol=tol)
                else:
                    ok = any(abs(vals[0] - s) <= tol for s in sides)
                if not ok:
                    raise Violation("%s at x=%r, t=%r: %r, field %r" % (t["file"], xs[i], steps[k]["t"], vals.tolist(), sides))
                i += w
                sub += 1
    return sub
