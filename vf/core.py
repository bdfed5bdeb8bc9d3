"""Runner: shards, generated-input search with Hypothesis, shrinking, replay,
evidence.  See DESIGN.md."""
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if HYP not in sys.path:
    sys.path.append(HYP)


class Violation(Exception):
    """the property is broken by the case"""


class Inconclusive(Exception):
    """the case cannot be judged (counted, never a verdict)"""


def canon(case):
    return json.dumps(case, sort_keys=True)


def key(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def load(pid):
    return importlib.import_module("vf.props." + pid.lower())


def env_setup():
    if HYP not in sys.path:
        sys.path.append(HYP)
    import warnings

    warnings.simplefilter("ignore")
    from . import accel

    accel.install()
    import festim

    assert festim.__file__.startswith(os.environ.get("VF_REPO", "/repo") + "/"), festim.__file__
    warnings.simplefilter("ignore")


CLOSE = [0.0, None]  # largest ratio of a difference to its tolerance in this case


def near(ratio, what):
    """records how close a numerical comparison came to its tolerance"""
    if ratio > CLOSE[0]:
        CLOSE[:] = [float(ratio), what]


def run_case(mod, case):
    """returns (info, error-string or None)"""
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            info = mod.check(case) or {}
            return info, None
        except Inconclusive as e:
            return {"inconclusive": str(e)}, None
        except Violation as e:
            return {}, "%s" % e
        except (MemoryError, KeyboardInterrupt):
            raise
        except OSError as e:
            if e.errno in (28, 12, 24, 23):  # no space / memory / files
                raise
            return {}, "unexpected %s: %s\n%s" % (type(e).__name__, e, tb())
        except Exception as e:
            return {}, "unexpected %s: %s\n%s" % (type(e).__name__, str(e)[:600], tb())


def tb():
    s = traceback.format_exc().splitlines()
    return "\n".join(s[-14:])


def spread():
    """Small budgets of slow cases: draw bounded integers (and so the choices
    among alternatives) uniformly, and spend no case on a mutation of an earlier
    one.  Generation only; shrinking is untouched."""
    from hypothesis.internal.conjecture import engine, providers

    try:
        P = providers.HypothesisProvider
        plain = P._draw_integer_from_distribution
        const = P._maybe_draw_constant

        def draw(self, lo, hi):
            if lo is not None and hi is not None and hi - lo <= 10**6:
                return self._random.randint(lo, hi)
            return plain(self, lo, hi)

        def constant(self, kind, *a, **k):
            if kind == "integer":
                return None
            return const(self, kind, *a, **k)

        P._draw_integer_from_distribution = draw
        P._maybe_draw_constant = constant
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    except AttributeError:  # another Hypothesis: its own distribution will do
        pass


def shard(pid, tier, seed, i, n, out):
    t0 = time.time()
    env_setup()
    spread()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    mod = load(pid)
    budget = mod.BUDGET[tier]
    per = -(-budget["cases"] // n)
    limit = budget["seconds"]
    shrink_s = budget.get("shrink_s", 45)
    st = {
        "evaluations": 0,
        "nontrivial": [],
        "labels": {},
        "samples": [],
        "skipped": 0,
        "inconclusive": 0,
        "failure": None,
        "sub": 0,
        "close": [],
    }
    memo = {}
    fail_t = [None]
    best = [None]

    def one(case):
        k = key(case)
        if k in memo:
            if memo[k] is not None:
                raise Violation(memo[k])
            return
        if fail_t[0] is None and time.time() - t0 > limit:
            st["skipped"] += 1
            return
        if fail_t[0] is not None and time.time() - fail_t[0] > shrink_s:
            return
        CLOSE[:] = [0.0, None]
        began = time.time()
        info, err = run_case(mod, case)
        took = time.time() - began
        st["slowest"] = max(st.get("slowest", 0.0), round(took, 1))
        if took > 20 and os.environ.get("VF_CLOSE"):
            with open(os.path.join(os.environ["VF_CLOSE"], "slow-%s-%.0f-%s.json" % (pid, took, k)), "w") as fh:
                json.dump({"case": case, "property": pid}, fh)
        if err is None and CLOSE[1] is not None:
            st["close"] = sorted(st["close"] + [[round(CLOSE[0], 4), CLOSE[1], k]], reverse=True)[:3]
            if CLOSE[0] > 0.3 and os.environ.get("VF_CLOSE"):
                with open(os.path.join(os.environ["VF_CLOSE"], "%s-%.3f-%s.json" % (pid, CLOSE[0], k)), "w") as fh:
                    json.dump({"case": case, "what": CLOSE[1]}, fh)
        memo[k] = err
        if fail_t[0] is None:
            st["evaluations"] += 1
            st["sub"] += int(info.get("sub", 0))
            if info.get("inconclusive"):
                st["inconclusive"] += 1
            for lab in info.get("labels", []):
                st["labels"][lab] = st["labels"].get(lab, 0) + 1
            if info.get("nontrivial"):
                st["nontrivial"].append(k)
                if len(st["samples"]) < 2:
                    st["samples"].append(case)
        if err is not None:
            if fail_t[0] is None:
                fail_t[0] = time.time()
            best[0] = (case, err)
            raise Violation(err)

    try:
        for j, case in enumerate(getattr(mod, "REGRESSIONS", [])):
            if j % n == i:
                st["labels"]["regression"] = st["labels"].get("regression", 0) + 1
                one(case)

        @hypothesis.seed(seed * 1009 + i)
        @settings(
            max_examples=per,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
        )
        @given(mod.strategy(tier))
        def test(case):
            one(case)

        test()
    except Violation:
        pass
    except hypothesis.errors.Flaky:
        pass
    except BaseException as e:  # noqa
        if best[0] is None:
            if not isinstance(e, Exception):
                raise
            st["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
    if best[0] is not None:
        st["failure"] = {"case": best[0][0], "error": best[0][1]}
    st["wall_s"] = time.time() - t0
    with open(out + ".tmp", "w") as fh:
        json.dump(st, fh)
    os.rename(out + ".tmp", out)


def main():
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--shard")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--scratch")
    ap.add_argument("--warm", action="store_true", help="fill the cache only")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.shard:
        i, n = map(int, a.shard.split("/"))
        shard(a.pid, tier, seed, i, n, a.out)
        return 0
    if a.replay:
        env_setup()
        case = json.load(open(a.replay))
        case = case.get("case", case)
        devnull = os.open(os.devnull, os.O_WRONLY)
        keep = os.dup(1)
        os.dup2(devnull, 1)
        info, err = run_case(load(a.pid), case)
        sys.stdout.flush()
        os.dup2(keep, 1)
        if err:
            print("REPLAY FAILS:", err)
            return 1
        print("REPLAY PASSES", json.dumps(info)[:2000])
        return 0
    return campaign(a.pid, tier, seed, a.jobs, a.scratch, a.warm)


def child(args, scratch, tag):
    wd = os.path.join(scratch, tag)
    os.makedirs(wd, exist_ok=True)
    log = open(os.path.join(scratch, tag + ".log"), "w")
    return subprocess.Popen(
        [sys.executable, "-W", "ignore", "-m", "vf.main"] + args,
        cwd=wd,
        stdout=log,
        stderr=subprocess.STDOUT,
        stdin=subprocess.DEVNULL,
    )


def tail(path, n=3000):
    try:
        lines = [
            x
            for x in open(path, errors="replace").read().splitlines()
            if "Warning" not in x and "FFC" not in x and "initializer_list" not in x
        ]
        return "\n".join(lines)[-n:]
    except OSError:
        return ""


def campaign(pid, tier, seed, jobs, scratch, warm=False):
    t0 = time.time()
    mod = load(pid)  # property modules import festim lazily
    from . import accel

    accel.pchs()
    procs = {}
    outs = {}
    jobs = min(jobs, mod.BUDGET[tier].get("jobs", jobs))
    for i in range(jobs):
        outs[i] = os.path.join(scratch, "out%d.json" % i)
        procs[i] = child(
            [pid, "--tier", tier, "--shard", "%d/%d" % (i, jobs), "--out", outs[i]],
            scratch,
            "shard%d" % i,
        )
    hard = mod.BUDGET[tier].get("hard_s", 800 if tier == "quick" else 6 * 3600)
    res = {}
    failure = None
    errors = []
    while procs:
        time.sleep(0.1)
        for i, p in list(procs.items()):
            if p.poll() is not None:
                del procs[i]
                if os.path.exists(outs[i]):
                    res[i] = json.load(open(outs[i]))
                    if res[i].get("error"):
                        errors.append("shard %d: %s" % (i, res[i]["error"]))
                    if res[i].get("failure") and failure is None:
                        failure = res[i]["failure"]
                else:
                    errors.append(
                        "shard %d died (%s)\n%s"
                        % (i, p.returncode, tail(os.path.join(scratch, "shard%d.log" % i)))
                    )
        if failure is not None or time.time() - t0 > hard:
            break
    timed_out = bool(procs) and failure is None
    for p in procs.values():
        p.kill()
    for p in procs.values():
        p.wait()

    if warm:
        return 0
    ev = 0
    nt = set()
    labels = {}
    samples = []
    sub = skipped = inc = 0
    for i in sorted(res):
        r = res[i]
        ev += r["evaluations"]
        sub += r["sub"]
        skipped += r["skipped"]
        inc += r["inconclusive"]
        nt.update(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += r["samples"][:1]

    close = sorted((x for r in res.values() for x in r.get("close", [])), reverse=True)
    violation = None
    if failure is not None:
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, "%s-%s.json" % (pid, key(failure["case"])))
        with open(rpath, "w") as fh:
            json.dump({"property": pid, "case": failure["case"], "error": failure["error"]}, fh, indent=1)
        # confirm in a fresh process, without the search
        p = child([pid, "--replay", rpath], scratch, "replay")
        try:
            rc = p.wait(timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = None
        if rc == 1:
            violation = rpath
        else:
            errors.append(
                "failure did not reproduce from %s (rc %s): %s" % (rpath, rc, failure["error"])
            )

    known = known_findings(pid, mod, scratch)
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": len(nt),
        "rule": mod.RULE,
        "samples": samples[:4],
        "classes": dict(sorted(labels.items())),
        "comparisons": sub,
        "cases_skipped_by_time_budget": skipped,
        "inconclusive": inc,
        "closest_to_tolerance": [{"ratio": x[0], "what": x[1]} for x in close[:3]],
        "slowest_case_s": max([r.get("slowest", 0.0) for r in res.values()] or [0.0]),
        "shards": jobs,
    }
    evid = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fh:
        json.dump(evid, fh, indent=1)
    for line in known:
        print(line)
    print(
        "%s %s seed=%d cases=%d nontrivial=%d comparisons=%d skipped=%d inconclusive=%d wall=%.1fs"
        % (pid, tier, seed, ev, len(nt), sub, skipped, inc, time.time() - t0)
    )
    if violation:
        print("minimal case:", canon(failure["case"])[:3000])
        print("what failed:", failure["error"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, violation))
        return 1
    if errors:
        print("HARNESS ERROR\n" + "\n".join(errors)[:6000])
        return 2
    if timed_out:
        print("HARNESS ERROR: hard time limit")
        return 2
    if ev < mod.BUDGET[tier].get("min_cases", 1):
        print("HARNESS ERROR: too few cases explored")
        return 2
    return 0


def known_findings(pid, mod, scratch):
    """reproduce the listed, unrepaired findings of this property"""
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    lines = []
    for k in json.load(open(path)).get("known", []):
        if k["property"] != pid:
            continue
        p = os.path.join(scratch, "known.json")
        json.dump({"case": k["case"]}, open(p, "w"))
        pr = child([pid, "--replay", p], scratch, "known")
        try:
            rc = pr.wait(timeout=120)
        except subprocess.TimeoutExpired:
            pr.kill()
            rc = None
        if rc == 1:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    return lines
