"""Fits of separate objects in concurrent threads."""
import random
import sys
import threading

from .. import fits, gen, jobs, ref
from ..steps import CLOCK, StepBudget

RULE = ("A case = 3 to 6 threads, each with its own estimators and its own "
        "arguments (some read-only arguments shared: adjacency matrix and "
        "attributes of the same problem), fitting different problems at the "
        "same time with a thread switch interval of microseconds, threads "
        "also giving way at random lines of region's code. In most cases all "
        "threads use the same objective function (as they do by default). "
        "Oracle: no exception, every result is valid for its own problem, "
        "not worse than its start, for AZP a local optimum (exact sums), SKATER "
        "(deterministic) gives what it gives alone. Non-trivial: threads "
        "were really interleaved (switches counted inside region's code).")
CASES = {"quick": 260, "thorough": 2500}
MIN = {"threads": 300, "fits": 500, "switches": 2000,
       "injected_yields": 1000, "compared_with_start": 100,
       "local_optima_checked": 10}
KINDS = jobs.HEU * 2 + ("maxp", "maxp", "skater", "skater")
ASSUMPTIONS = ["exact methods are left out: PuLP names its temporary files "
               "after the process, so solver calls of one process collide"]


def gen_(rng, idx, tier):
    kinds = KINDS
    r = rng.random()
    if r < .5:
        kinds = (rng.choice(KINDS),)    # the same method in all threads
    threads = [[jobs.gen_job(rng, rng.choice([5, 9, 14]), kinds)
                for _ in range(rng.choice([1, 2, 3]))]
               for _ in range(rng.choice([3, 4, 6]))]
    objective = rng.choice(["own", "default", "one", "one center"])
    spec = {"kind": "pairwise", "metric": "manhattan"}
    if objective == "one center":
        spec = {"kind": "center", "metric": "manhattan", "center": "mean",
                "reduction": "sum"}
    if objective != "own":
        for j in (j for js in threads for j in js):
            n = j["map"]["n"]
            if j["kind"] in jobs.HEU + ("maxp",):
                j["objective"] = None if objective == "default" else spec
            if j["kind"] in ("azp", "basic", "reactive"):
                # with exact sums, and a start to compare with
                if objective != "one center" and n > 2:
                    j["attr"] = gen.dyadic_attr(rng, n)
                    j["exact"] = True
                nb = gen.nbrs_of(j["map"])
                j["init"] = gen.random_partition(rng, nb, j["p"])
    return {"threads": threads, "objective": objective,
            "shared": rng.choice([False] * 6 + [True, True, "w", "w"]),
            "rate": rng.choice([0, .01, .05, .2])}


def run(case, mon):
    plans = []
    for js in case["threads"]:
        plan = []
        for j in js:
            a = jobs.Args(j)
            if not jobs.small_island(a):
                plan.append((j, a))
        plans.append(plan)
    if case["shared"]:
        # all threads work on the problem of the first (arguments shared),
        # each with estimators of its own
        flat = [x for p in plans for x in p]
        if case["shared"] == "w":
            flat = [x for x in flat if x[0]["via"] == "w"] or flat
        j, a = flat[0] if flat else (None, None)
        if j is not None:
            plans = [[(j, a)] for _ in plans]
        if j is not None and j["via"] == "w" and j["kind"] != "skater":
            # SKATER in every other thread, with the same W object
            j2 = dict(j, kind="skater", islands="increase", quorum=None,
                      trace=False, p=max(1, j["map"]["n"] // 2))
            a2 = jobs.Args(j2)
            a2.args[1] = a.args[0]
            if not jobs.small_island(a2):
                plans[::2] = [[(j2, a2)] for _ in plans[::2]]
            mon.count("shared_w")
    one = None
    if case["objective"].startswith("one"):
        # one objective function for all
        for j, a in (x for p in plans for x in p):
            if "objective_func" in a.kwargs:
                one = one or a.kwargs["objective_func"]
                a.kwargs["objective_func"] = one
    alone = {}
    for p in plans:
        for j, a in p:
            if j["kind"] == "skater" and id(j) not in alone:
                alone[id(j)] = mon.call(
                    jobs.fit, jobs.make(j), jobs.Args(j), what="SKATER fit",
                    budget=jobs.budget(j))
    results, failures = [], []
    barrier = threading.Barrier(len(plans))

    def work(plan):
        try:
            barrier.wait(20)
            for j, a in plan:
                est = jobs.make(j)
                results.append((j, a, jobs.fit(est, a)))
        except StepBudget:
            CLOCK.budget = 0    # the other threads shall end, too
            failures.append("a fit did not end")
        except Exception as e:
            from ..run import where
            failures.append("%s: %s | %s" % (type(e).__name__, str(e)[:200],
                                             where(e)))
    threads = [threading.Thread(target=work, args=(p,), daemon=True)
               for p in plans]
    old = sys.getswitchinterval()
    random.seed(case["seed"])
    total = sum(jobs.budget(j) for p in plans for j, _ in p)
    CLOCK.watch_threads(True)
    CLOCK.start(total)
    try:
        sys.setswitchinterval(2e-6)
        if case["rate"]:
            CLOCK.inject(case["seed"], case["rate"])
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
        CLOCK.inject(None, 0)
        mon.count("injected_yields", CLOCK.injected)
        CLOCK.injected = 0
        mon.count("steps", CLOCK.stop())
        switches = CLOCK.watch_threads(False)
    mon.count("switches", switches)
    mon.count("threads", len(threads))
    for f in failures:
        mon.bad("in a concurrent fit: " + f)
    for j, a, labels in results:
        mon.count("fits")
        mon.count("fits_" + j["kind"])
        errs = jobs.errors(labels, a)
        for e in errs:
            mon.bad("concurrent %s fit: %s" % (j["kind"], e))
        if not errs and case["objective"] != "own" and \
                j["kind"] in ("azp", "basic", "reactive"):
            quality(mon, j, a, labels)
        if id(j) in alone:
            mon.check(alone[id(j)] == labels, lambda: "SKATER gives %s in a "
                      "thread, %s alone" % (labels, alone[id(j)]))
        mon.seen("results", (j["map"]["edges"], labels))
    mon.seen("interleavings", switches)
    mon.nontrivial = switches > 10


def quality(mon, j, a, labels):
    """Not worse than the start; AZP: no better neighbour."""
    spec = j["objective"]
    before = fits.ref_objective(spec, a.init_rows, a.attr)
    after = fits.ref_objective(spec, labels, a.attr)
    tol = 0 if j.get("exact") else 1e-6 * max(before, 1e-9)
    mon.count("compared_with_start")
    mon.check(after <= before + tol, lambda: "concurrent %s fit made the "
              "objective worse: %r -> %r" % (j["kind"], before, after))
    if j["kind"] != "azp" or not j.get("exact"):
        return
    diffs = []
    for area, new in ref.legal_moves([set(x) for x in a.nb], labels):
        moved = list(labels)
        moved[area] = new
        diffs.append(fits.ref_objective(spec, moved, a.attr) - after)
    if diffs and 0 not in diffs:
        mon.count("local_optima_checked")
        mon.check(min(diffs) > 0, lambda: "a concurrent AZP fit stopped "
                  "although a move changes the objective by %r" % min(diffs))
