"""Fits are independent of what the estimator did before."""
import random

import numpy as np

from .. import fits, jobs

RULE = ("A case = one estimator object fit to a history of 2-4 different "
        "problems (sizes, entry points, start labels, thresholds); after "
        "each prefix the global random state is set and the result compared "
        "with a fresh estimator's under the same random state. Earlier "
        "label arrays must stay as they were. Failed fits (illegal arguments)"
        " are part of the histories. In some the argument objects are those "
        "of the fit before with new content. Non-trivial: two fits of different "
        "problems with 1 < p < n.")
CASES = {"quick": 500, "thorough": 7000}
MIN = {"refits": 800, "after_failed_fit": 50, "after_objective": 20, "interleaved": 100,
       "arguments_reused": 80}


def gen_(rng, idx, tier):
    kind = rng.choice(jobs.HEU * 2 + ("maxp", "maxp", "exact", "skater",
                                      "maxp_exact"))
    k = rng.choice([2, 2, 3, 4])
    reuse = kind in jobs.HEU + ("maxp",) and rng.random() < .4
    if reuse:
        n = rng.choice([4, 8, 12])
        via = (rng.choice(["sparse", "sparse", "dict", "networkx"]),)
        js = [jobs.gen_job(rng, n, (kind,), via, nmin=n) for _ in range(k)]
    else:
        js = [jobs.gen_job(rng, rng.choice([4, 8, 12]), (kind,))
              for _ in range(k)]
    for j in js[1:]:
        if "algo" in j:
            j["algo"] = js[0]["algo"]    # one estimator, one configuration
    if rng.random() < .3:
        js[-1] = dict(js[0])
    return {"jobs": js, "fail_at": rng.choice([None, 1, 1]),
            "fail": rng.choice(["p_large", "bad_init", "attr_type", "objective",
                                "objective"]),
            "fail_of": rng.choice([0, 1]),
            "fail_after": rng.choice([0, 2, 5, 15, 40]),
            "seeds": [rng.randrange(10 ** 6) for _ in js],
            "interleave": rng.random() < .4, "reuse": reuse}


def seeded_fit(est, args, seed, mon, what):
    def go():
        random.seed(seed)
        np.random.seed(seed)
        return jobs.fit(est, args)
    return mon.call(go, what=what, budget=jobs.budget(args.job))


def broken(*args):
    raise RuntimeError("the user's function fails")


def breaking(k):
    """An objective function that fails after some evaluations."""
    from region.objective_function import ObjectiveFunctionPairwise

    class Breaking(ObjectiveFunctionPairwise):
        left = k

        def __call__(self, labels, attr):
            self.left -= 1
            if self.left < 0:
                broken()
            return super().__call__(labels, attr)

        def update(self, area, region, labels, attr):
            self.left -= 1
            if self.left < 0:
                broken()
            return super().update(area, region, labels, attr)
    return Breaking()


def broken_fit(case, est, job, mon):
    """A fit that fails."""
    args = jobs.Args(job)
    kind = job["kind"]
    n = job["map"]["n"]
    if case["fail"] == "objective" and kind in jobs.HEU + ("maxp",):
        args.kwargs["objective_func"] = breaking(case["fail_after"])
    elif case["fail"] == "objective" and kind != "skater":
        args.kwargs["metric"] = broken
    elif kind in ("maxp", "maxp_exact"):
        args.args[3] = 1e9
    elif kind == "skater":
        args.args[2] = args.args[2][:-1]
    elif case["fail"] == "bad_init" and kind in jobs.HEU and \
            job["via"] == "sparse":
        args.kwargs["initial_labels"] = np.arange(n + 3)
    elif case["fail"] == "attr_type" and job["via"] == "sparse":
        args.args[1] = args.args[1][:-1]
    else:
        args.args[2] = n + 5
    _, e = mon.attempt(jobs.fit, est, args, what="failing fit",
                       budget=jobs.budget(job) * 3)
    return e is not None


def run(case, mon):
    js = case["jobs"]
    est = jobs.make(js[0], seeded=False)
    kept, last = [], None
    other = jobs.make(js[0], seeded=False) if case["interleave"] else None
    for k, job in enumerate(js):
        args = jobs.Args(job)
        if jobs.small_island(args):
            continue
        if case["fail_at"] == k and k > 0:
            # (of this problem or of the one before)
            if broken_fit(case, est, js[k - case["fail_of"]], mon):
                mon.count("after_failed_fit")
                mon.count("after_" + case["fail"])
        if other is not None:
            # some other estimator at work in between
            o = js[(k + 1) % len(js)]
            oa = jobs.Args(o)
            if not jobs.small_island(oa):
                mon.call(jobs.fit, other, oa, what=o["kind"] + " fit",
                         budget=jobs.budget(o))
                mon.count("interleaved")
        if case.get("reuse") and last is not None:
            jobs.reuse(last, args)
            mon.count("arguments_reused")
        last = args
        got = seeded_fit(est, args, case["seeds"][k], mon,
                         "fit %d of the same %s object" % (k, job["kind"]))
        want = seeded_fit(jobs.make(job, seeded=False), jobs.Args(job),
                          case["seeds"][k], mon, job["kind"] + " fit")
        mon.count("refits")
        mon.count("refits_" + job["kind"])
        if not jobs.same(got, want, args):
            # only if the random state determines what a fresh object does
            again = [seeded_fit(jobs.make(job, seeded=False), jobs.Args(job),
                                case["seeds"][k], mon, job["kind"] + " fit")
                     for _ in range(3)]
            if any(not jobs.same(a, want, args) for a in again):
                mon.count("random_state_not_controlled")
                got, want = want, want
        mon.check(jobs.same(got, want, args), lambda: "fit %d of the same %s object (via %s)"
                  ": %s, a fresh one under the same random state: %s" % (
                      k, job["kind"], job["via"], got, want))
        for e in jobs.errors(got, args):
            mon.bad("fit %d of the same %s object: %s" % (k, job["kind"], e))
        arr = est.current_labels_ if job["kind"] == "skater" else est.labels_
        for q, (a, l) in enumerate(kept):
            mon.check(fits.labels_list(a) == l, lambda: "labels of fit %d "
                      "changed from %s to %s by fit %d" % (
                          q, l, fits.labels_list(a), k))
        kept.append((arr, got))
        mon.seen("results", (job["map"]["edges"], got))
    mon.nontrivial = sum(1 < j["p"] < j["map"]["n"] for j in js) > 1
