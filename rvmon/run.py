"""Runner: `python -m rvmon.run check C01`, `python -m rvmon.run replay FILE`.

Exit 0: held on everything observed.  Exit 1 + VIOLATION line: broken.
Exit 2: inconclusive or the harness itself failed (never a verdict).
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

from .errors import Violation, Watchdog

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Mon:
    """What a case reports to: counters, violations, triviality."""

    def __init__(self, case):
        self.case = case
        self.counts = collections.Counter()
        self.maxima = {}
        self.sets = collections.defaultdict(set)
        self.violations = []
        self.nontrivial = False
        self.max_steps = 0

    def count(self, name, k=1):
        self.counts[name] += k

    def maximum(self, name, v):
        self.maxima[name] = max(v, self.maxima.get(name, v))

    def seen(self, name, item):
        """distinct things observed"""
        h = hashlib.md5(repr(item).encode()).hexdigest()[:12]
        self.sets[name].add(h)

    def bad(self, msg, key=""):
        self.violations.append((str(msg), key))

    def check(self, cond, msg, key=""):
        self.counts["assertions"] += 1
        if not cond:
            self.bad(msg() if callable(msg) else msg, key)
        return bool(cond)

    def fail(self, msg, key=""):
        raise Violation(msg, key)

    def call(self, func, *args, what="fit", budget=None, **kwargs):
        """Run code under test that must succeed."""
        from .steps import CLOCK, StepBudget
        CLOCK.start(budget or self.default_budget)
        try:
            return func(*args, **kwargs)
        except StepBudget:
            raise Violation("%s did not end within %d steps" % (
                what, budget or self.default_budget))
        except (Watchdog, Violation):
            raise
        except Exception as e:
            raise Violation("%s raised %s: %s | %s" % (
                what, type(e).__name__, str(e)[:300], where(e)))
        finally:
            steps = CLOCK.stop()
            self.counts["steps"] += steps
            self.max_steps = max(self.max_steps, steps)

    def attempt(self, func, *args, what="call", budget=None, **kwargs):
        """Run code under test that may raise; (result, exception)."""
        from .steps import CLOCK, StepBudget
        CLOCK.start(budget or self.default_budget)
        try:
            return func(*args, **kwargs), None
        except StepBudget:
            raise Violation("%s did not end within %d steps" % (
                what, budget or self.default_budget))
        except (Watchdog, Violation):
            raise
        except Exception as e:
            return None, e
        finally:
            steps = CLOCK.stop()
            self.counts["steps"] += steps
            self.max_steps = max(self.max_steps, steps)

    default_budget = 20_000_000


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                      for f in reversed(tb[-4:]))


def load(pid):
    return importlib.import_module("rvmon.checks." + pid.lower())


def run_case(mod, case, limit):
    mon = Mon(case)
    mon.default_budget = getattr(mod, "STEP_BUDGET", Mon.default_budget)
    err = None

    def alarm(*_):
        raise Watchdog()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    t0 = time.time()
    try:
        random.seed(case.get("seed", 0))
        import numpy as np
        np.random.seed(case.get("seed", 0) % 2 ** 32)
        mod.run(case, mon)
    except Violation as v:
        mon.bad(v, v.key)
    except Watchdog:
        err = "watchdog"
    except Exception:
        err = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {"counts": dict(mon.counts), "maxima": mon.maxima,
            "sets": {k: sorted(v) for k, v in mon.sets.items()},
            "violations": mon.violations, "nontrivial": mon.nontrivial,
            "err": err, "wall": time.time() - t0, "max_steps": mon.max_steps}


def digest(obj):
    return hashlib.md5(json.dumps(obj, sort_keys=True,
                                  default=str).encode()).hexdigest()[:12]


def make_case(mod, pid, seed, idx, tier):
    rng = random.Random("%s:%s:%d" % (pid, seed, idx))
    case = mod.gen_(rng, idx, tier)
    case.setdefault("seed", rng.randrange(2 ** 31))
    return json.loads(json.dumps(case))


def worker(pid, seed, tier, limit, nxt, total, deadline, stop, out):
    mod = load(pid)
    quiet()
    from .steps import CLOCK
    CLOCK.install()
    while not stop.is_set() and time.time() < deadline:
        with nxt.get_lock():
            idx = nxt.value
            if idx >= total:
                break
            nxt.value += 1
        try:
            case = make_case(mod, pid, seed, idx, tier)
            res = run_case(mod, case, limit)
            res.update(idx=idx, hash=digest(case))
            if res["violations"] or res["err"] or idx < 3:
                res["case"] = case
        except Exception:
            res = {"idx": idx, "err": traceback.format_exc(), "counts": {},
                   "maxima": {}, "sets": {}, "violations": [], "hash": "",
                   "nontrivial": False, "wall": 0, "max_steps": 0}
        out.put(res)
    out.put({"done": sorted(CLOCK.reached)})


def quiet():
    """region prints while it works; stdout is for verdicts."""
    sys.stdout.flush()
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    if os.environ.get("RVMON_STDERR") is None:
        os.dup2(fd, 2)
    import warnings
    warnings.simplefilter("ignore")


def known_findings():
    """{(property, key): text} of the recorded, unrepaired findings."""
    out = {}
    try:
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                if line.startswith("finding:"):
                    w = dict(x.split("=", 1) for x in line.split()
                             if "=" in x)
                    out[(w["property"], w["key"])] = line.split(
                        "|", 1)[-1].strip()
    except FileNotFoundError:
        pass
    return out


def save_replay(pid, idx, seed, tier, case, msgs):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, digest(case)))
    with open(path, "w") as f:
        json.dump({"property": pid, "idx": idx, "seed": seed, "tier": tier,
                   "case": case, "messages": msgs}, f, indent=1)
    return path


def too_little(mod, counts, n, total):
    """What was observed less often than a verdict needs."""
    out = [k for k, v in getattr(mod, "MIN", {}).items() if counts[k] < v]
    if n < min(total, getattr(mod, "MIN_CASES", 10)):
        out.append("executions")
    return out


def check(pid):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = load(pid)
    import region  # noqa: imported before forking
    total = mod.CASES[tier]
    cap = getattr(mod, "TIME", {}).get(
        tier, {"quick": 100, "thorough": 700}[tier])
    limit = getattr(mod, "CASE_LIMIT", 120) * (2 if tier == "thorough" else 1)
    nproc = int(os.environ.get("RVMON_PROCS", "8"))
    ctx = mp.get_context("fork")
    nxt, stop, out = ctx.Value("i", 0), ctx.Event(), ctx.Queue()
    deadline = t0 + cap
    # on a slow machine it takes longer to see enough
    latest = deadline + {"quick": 300, "thorough": 100}[tier]
    procs = [ctx.Process(target=worker, daemon=not getattr(
        mod, "SPAWNS", False), args=(pid, seed, tier, limit, nxt, total,
                                     latest, stop, out))
             for _ in range(nproc)]
    for p in procs:
        p.start()
    counts, maxima = collections.Counter(), {}
    sets = collections.defaultdict(set)
    reached, hashes, samples, viol, errs = set(), set(), [], [], []
    done = n = max_steps = 0
    slow, unfinished = 0.0, []
    hard = latest + limit + 30
    known = known_findings()
    hit = {}
    while done < nproc:
        if time.time() > deadline and not too_little(mod, counts, n, total):
            stop.set()
        try:
            r = out.get(timeout=1)
        except Exception:
            if not any(p.is_alive() for p in procs) and out.empty():
                break
            if time.time() > hard:
                errs.append({"idx": -1, "err": "workers did not finish"})
                break
            continue
        if "done" in r:
            done += 1
            reached.update(r["done"])
            continue
        n += 1
        counts.update(r["counts"])
        for k, v in r["maxima"].items():
            maxima[k] = max(v, maxima.get(k, v))
        for k, v in r["sets"].items():
            sets[k].update(v)
        max_steps = max(max_steps, r["max_steps"])
        slow = max(slow, r["wall"])
        if r["nontrivial"]:
            hashes.add(r["hash"])
        if r["err"] == "watchdog":
            # slow, not hanging: what hangs exceeds its step budget
            unfinished.append(r)
        elif r["err"]:
            errs.append(r)
        new = []
        for msg, key in r["violations"]:
            if (pid, key) in known:
                hit[(pid, key)] = msg
            else:
                new.append(msg)
        if new:
            viol.append((r["idx"], r["case"], new))
            if len(viol) >= 3:
                stop.set()
        if "case" in r and len(samples) < 3 and not r["err"]:
            samples.append(r["case"])
    if len(unfinished) > max(1, n // 200):
        errs.extend(unfinished)
    for p in procs:
        if p.is_alive():
            p.join(0.5)
        if p.is_alive():
            p.kill()
    wall = time.time() - t0
    cov = {"evaluations": n, "distinct_nontrivial": len(hashes),
           "rule": mod.RULE, "samples": [shorten(s) for s in samples],
           "observed": dict(sorted(counts.items())),
           "distinct_observed": {k: len(v) for k, v in sorted(sets.items())},
           "maxima": maxima, "max_steps_in_one_call": max_steps,
           "slowest_case_s": round(slow, 2),
           "region_functions_reached": sorted(reached),
           "unfinished_cases": [r["idx"] for r in unfinished],
           "harness_errors": len(errs)}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d executions, %d distinct non-trivial, %s, %.1f s" % (
        pid, tier, seed, n, len(hashes),
        ", ".join("%s=%s" % kv for kv in sorted(counts.items())), wall))
    for (p, k), msg in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (p, known[(p, k)],
                                                      msg[:200]))
    for idx, case, msgs in sorted(viol, key=lambda v: v[0])[:3]:
        path = save_replay(pid, idx, seed, tier, case, msgs)
        for m in msgs[:3]:
            print("  case %d: %s" % (idx, m[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if viol:
        return 1
    for e in errs[:3]:
        print("ERROR case %s: %s" % (e["idx"], str(e["err"])[-1500:]))
    if errs:
        return 2
    missing = too_little(mod, counts, n, total)
    if missing:
        print("INCONCLUSIVE: too little observed: %s" % (
            missing or "%d cases" % n))
        return 2
    return 0


def shorten(case):
    s = json.dumps(case)
    return case if len(s) < 3000 else s[:3000] + "..."


def replay(path):
    with open(path) as f:
        r = json.load(f)
    mod = load(r["property"])
    keep = os.dup(1)
    quiet()
    from .steps import CLOCK
    CLOCK.install()
    res = run_case(mod, r["case"], 3600)
    os.dup2(keep, 1)
    if res["err"]:
        print(res["err"])
        return 2
    for msg, _ in res["violations"]:
        print("  " + msg)
    if res["violations"]:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("no violation")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what", choices=["check", "replay"])
    ap.add_argument("arg")
    a = ap.parse_args()
    try:
        code = check(a.arg) if a.what == "check" else replay(a.arg)
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
