#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies of /repo and files them under /verif/seeded.

usage: mkseed.py build ID...|all     apply, run the test suite, run the demonstration
       mkseed.py catch ID...|all [--seed N]   run the property's quick check on the copy

The bugs are described in tools/bugs/*.py as a list BUGS of dicts
{id, prop, edits: [(file, old, new)...], needs, breaks, demo (python text)}."""
import glob, importlib.util, json, os, subprocess, sys, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = "/tmp/sw"
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export PYTHONPATH="$repo" DIJITSO_CACHE_DIR="$scratch/dijitso" INSTANT_CACHE_DIR="$scratch/instant"
export OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
cd "$scratch" || exit 2
timeout 280 /opt/venv/bin/python "$here/demo.py"
'''


def bugs():
    out = {}
    for path in sorted(glob.glob(f"{ROOT}/tools/bugs/*.py")):
        spec = importlib.util.spec_from_file_location("b", path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        for b in mod.BUGS:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy(bug):
    dst = f"{SW}/{bug['id']}"
    shutil.rmtree(dst, ignore_errors=True)
    sh(f"git -C /repo worktree prune; cp -a /repo {dst}")
    for file, old, new in bug["edits"]:
        p = f"{dst}/festim/{file}"
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit(f"{bug['id']}: {file}: {s.count(old)} matches of {old!r}")
        open(p, "w").write(s.replace(old, new))
    return dst


def mine(bug, dst):
    """removed lines that come from one of our own commits"""
    bad = []
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[0]
    for file in {e[0] for e in bug["edits"]}:
        d = sh(f"git -C {dst} diff -U0 -- festim/{file}").stdout
        removed = []
        line = 0
        for l in d.splitlines():
            if l.startswith("@@"):
                line = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("-") and not l.startswith("---"):
                removed.append(line)
                line += 1
        for n in removed:
            b = sh(f"git -C {dst} blame -l -s -L{n},{n} HEAD -- festim/{file}").stdout
            if not b.lstrip("^").startswith(base[:30]):
                bad.append((file, n, b.split(")", 1)[-1].strip()))
        if not removed:
            bad.append((file, "only additions", ""))
    return bad


def build(bug):
    dst = copy(bug)
    out = f"{ROOT}/seeded/{bug['id']}"
    stage = f"{SW}/stage-{bug['id']}"
    shutil.rmtree(stage, ignore_errors=True)
    os.makedirs(stage)
    diff = sh(f"git -C {dst} diff").stdout
    open(f"{stage}/patch.diff", "w").write(diff)
    open(f"{stage}/demo.sh", "w").write(DEMO_SH)
    os.chmod(f"{stage}/demo.sh", 0o755)
    open(f"{stage}/demo.py", "w").write(bug["demo"])
    json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
              open(f"{stage}/meta.json", "w"), indent=1)
    m = mine(bug, dst)
    good = subprocess.run([f"{stage}/demo.sh"], cwd="/repo", capture_output=True, text=True)
    bad = subprocess.run([f"{stage}/demo.sh"], cwd=dst, capture_output=True, text=True)
    msg = f"{bug['id']}: demo ok={good.returncode} bug={bad.returncode}"
    if good.returncode or not bad.returncode:
        
        tidy = lambda t: "\n".join([l for l in t.splitlines() if not any(w in l for w in ("JIT", "Deprec", "build_", "Defining", "Elapsed"))][-8:])
        print(msg, "\n--- good\n", tidy(good.stdout + good.stderr), "\n--- bug\n", tidy(bad.stdout + bad.stderr))
        return False
    t0 = time.time()
    sh(f"cd {dst} && DIJITSO_CACHE_DIR=/opt/vp-cache/dijitso PYTHONPATH={dst} OMP_NUM_THREADS=1 {PY} -m pytest -q -p no:cacheprovider "
       f"-n 4 --dist loadfile --timeout=300 --junitxml={SW}/{bug['id']}.xml test")
    sh(f"python3 /opt/vp/results.py {SW}/{bug['id']}.json junit:{SW}/{bug['id']}.xml")
    try:
        r = json.load(open(f"{SW}/{bug['id']}.json"))
        passed = set(r["passed"])
    except Exception as e:
        passed = set()
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable_pass") or base.get("stable") or base.get("passed")
    missing = [t for t in stable if t not in passed]
    print(msg, f"tests missing={len(missing)} {missing[:3]} ({time.time()-t0:.0f}s)", "OWN LINES" if m else "", m or "")
    if missing or m:
        return False
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(stage, out)
    return True


def catch(bug, seed):
    dst = f"{SW}/{bug['id']}"
    if not os.path.isdir(dst):
        copy(bug)
    r = sh(f"cd {ROOT} && VF_REPO={dst} VERIF_SEED={seed} VERIF_TIER=quick ./check.sh {bug['prop']} --tier quick")
    line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    last = r.stdout.strip().splitlines()[-1:] if r.stdout.strip() else []
    print(f"{bug['id']}: {'CAUGHT' if r.returncode == 1 and line else 'missed rc %d' % r.returncode} seed={seed} {last}", flush=True)
    return r.returncode == 1 and bool(line)


if __name__ == "__main__":
    os.makedirs(SW, exist_ok=True)
    all_ = bugs()
    args = sys.argv[2:]
    seed = 1
    if "--seed" in args:
        i = args.index("--seed"); seed = int(args[i + 1]); del args[i:i + 2]
    ids = list(all_) if args == ["all"] else [i for i in all_ if any(i.startswith(a) for a in args)]
    from concurrent.futures import ThreadPoolExecutor
    if sys.argv[1] == "build":
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(lambda i: build(all_[i]), ids))
    else:
        for i in ids:
            catch(all_[i], seed)
