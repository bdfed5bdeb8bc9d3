#!/usr/bin/env python3
"""Mechanical mutants of festim that its own tests do not notice.

usage: mutate.py filter N SEED OUT.jsonl   draw N mutants, keep those the tests pass
Each kept mutant is one line {id, file, line, kind, old, new, start, end}.
mutate.py run IN.jsonl OUT.log [IDX...]    run every check against each kept mutant"""
import ast, json, os, random, shutil, subprocess, sys, glob, time
from concurrent.futures import ThreadPoolExecutor

SW = "/tmp/mw"
PY = "/opt/venv/bin/python"


def sites(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda s, e: b[s:e].decode()
    out = []

    def add(node, kind, s, e, new):
        out.append(dict(file=path, line=node.lineno, kind=kind, start=s, end=e, old=seg(s, e), new=new))

    def walk(n, skip=False):
        if isinstance(n, (ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("print",):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = pos(n.left)[1], pos(n.comparators[0])[0]
            alt = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"],
                   ast.In: [" not in "], ast.NotIn: [" in "], ast.Is: [" is not "], ast.IsNot: [" is "]}.get(type(n.ops[0]), [])
            for a in alt:
                add(n, "cmp", l, r, " " + a.strip() + " ")
        if isinstance(n, ast.BoolOp):
            l, r = pos(n.values[0])[1], pos(n.values[1])[0]
            add(n, "bool", l, r, " or " if isinstance(n.op, ast.And) else " and ")
            add(n, "boolfirst", *pos(n), "(" + seg(*pos(n.values[0])) + ")")
            add(n, "boolsecond", *pos(n), "(" + seg(*pos(n.values[1])) + ")")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, "unary", *pos(n), "(" + seg(*pos(n.operand)) + ")")
        if isinstance(n, ast.BinOp):
            l, r = pos(n.left)[1], pos(n.right)[0]
            mid = seg(l, r)
            alt = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.Pow: ("**", "*"), ast.Mod: ("%", "//")}.get(type(n.op))
            if alt and mid.count(alt[0]) == 1 and not isinstance(n.left, ast.Constant) or alt and mid.count(alt[0]) == 1 and not isinstance(n.left.value if isinstance(n.left, ast.Constant) else 0, str):
                add(n, "bin", l, r, mid.replace(alt[0], alt[1]))
                add(n, "dropright", *pos(n), "(" + seg(*pos(n.left)) + ")")
        if isinstance(n, ast.Constant) and not skip:
            if isinstance(n.value, bool):
                add(n, "const", *pos(n), str(not n.value))
            elif isinstance(n.value, int):
                add(n, "const", *pos(n), str(n.value + 1))
                if n.value > 0:
                    add(n, "const", *pos(n), str(n.value - 1))
        if isinstance(n, (ast.If, ast.IfExp)):
            add(n, "iftrue", *pos(n.test), "True")
            add(n, "iffalse", *pos(n.test), "False")
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            add(n, "delete", *pos(n), "pass")
        if isinstance(n, ast.AugAssign):
            add(n, "aug", *pos(n), seg(*pos(n.target)) + " = " + seg(*pos(n.value)))
        if isinstance(n, (ast.Break, ast.Continue)):
            add(n, "flow", *pos(n), "pass" if isinstance(n, ast.Continue) else "continue")
        if isinstance(n, ast.For):
            add(n, "forfirst", *pos(n.iter), "list(" + seg(*pos(n.iter)) + ")[:1]")
            add(n, "forbutfirst", *pos(n.iter), "list(" + seg(*pos(n.iter)) + ")[1:]")
            add(n, "forrev", *pos(n.iter), "list(" + seg(*pos(n.iter)) + ")[::-1]")
        if isinstance(n, ast.Attribute):
            alt = {"T": "T_n", "T_n": "T", "solution": "previous_solution", "previous_solution": "solution", "u": "u_n", "u_n": "u",
                   "mobile_concentration": "previous_solution", "dx": "ds", "post_processing_solution": "solution"}.get(n.attr)
            if alt:
                s, e = pos(n)
                add(n, "attr", e - len(n.attr), e, alt)
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.Expr) and isinstance(c, ast.Constant):
                continue
            walk(c, skip)

    walk(tree)
    return out


def apply(m, dst):
    p = m["file"].replace("/repo", dst)
    b = open(m["file"], "rb").read()
    assert b[m["start"]:m["end"]].decode() == m["old"]
    b = b[: m["start"]] + m["new"].encode() + b[m["end"]:]
    open(p, "wb").write(b)
    try:
        compile(b, p, "exec")
        return True
    except SyntaxError:
        return False


def mk(tag):
    dst = f"{SW}/{tag}"
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(SW, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", dst], check=True)
    return dst


def restore(m, dst):
    shutil.copy2(m["file"], m["file"].replace("/repo", dst))


def tests(dst, tag):
    env = dict(os.environ, DIJITSO_CACHE_DIR="/opt/vp-cache/dijitso", PYTHONPATH=dst, OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    xml = f"{SW}/{tag}.xml"
    try:
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=120", f"--junitxml={xml}", "-n", "2", "--dist", "loadfile", "test"],
                       cwd=dst, env=env, capture_output=True, timeout=400, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return False
    if r.returncode != 0:
        return False
    return True


def main():
    if sys.argv[1] == "filter":
        n, seed, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
        allm = []
        for f in sorted(glob.glob("/repo/festim/**/*.py", recursive=True)):
            if "__init__" in f:
                continue
            s = sites(f)
            allm += s
        print(len(allm), "sites")
        rng = random.Random(seed)
        pick = rng.sample(allm, min(n, len(allm)))
        dsts = [mk(f"f{i}") for i in range(4)]
        import queue, threading
        q = queue.Queue()
        for d in dsts:
            q.put(d)
        lock = threading.Lock()
        cnt = [0, 0]

        def one(m):
            d = q.get()
            try:
                ok = apply(m, d) and tests(d, os.path.basename(d))
                restore(m, d)
            finally:
                q.put(d)
            with lock:
                cnt[0] += 1
                if ok:
                    cnt[1] += 1
                    m["id"] = "s%d-%d" % (seed, cnt[1])
                    open(out, "a").write(json.dumps(m) + "\n")
                    print(cnt, m["file"][13:], m["line"], m["kind"], repr(m["old"][:60]), "->", repr(m["new"][:60]), flush=True)

        with ThreadPoolExecutor(4) as ex:
            list(ex.map(one, pick))
    else:
        ms = [json.loads(l) for l in open(sys.argv[2])]
        ids = set(sys.argv[4:])
        order = "C21 C02 C01 C22 C17 C18 C06 C13 C10 C11 C05 C07 C09 C16 C12 C14 C15 C08 C03 C04 C19 C20 C23".split()
        dst = mk("r")
        for m in ms:
            if ids and m["id"] not in ids:
                continue
            apply(m, dst)
            hit = []
            t0 = time.time()
            for p in order:
                env = dict(os.environ, VF_REPO=dst, VERIF_SEED="1", VERIF_TIER="quick")
                r = subprocess.run(["/verif/check.sh", p, "--tier", "quick"], env=env, capture_output=True, text=True)
                if r.returncode == 1:
                    hit.append(p)
                    break
                if r.returncode:
                    hit.append(p + "!%d" % r.returncode)
            line = "%s %s:%d %s %r -> %r : %s (%.0fs)" % (m["id"], m["file"][13:], m["line"], m["kind"], m["old"][:70], m["new"][:70], " ".join(hit) or "SURVIVED", time.time() - t0)
            print(line, flush=True)
            open(sys.argv[3], "a").write(line + "\n")
            restore(m, dst)


main()
