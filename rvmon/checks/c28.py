"""Copies of estimators: equal to the original, independent of it."""
import copy
import io
import pickle
import random

import numpy as np

from .. import fits, jobs, skat

RULE = ("A case = one estimator of any kind, fitted 0 to 2 times (any entry "
        "point, also a failing fit in between), then copied by copy.deepcopy "
        "or pickle (all protocols), also the copy of a copy. The copy has the"
        " same result; then original, copy and a fresh object solve the next "
        "problem under the same random state, in random order; results must "
        "be equal and the results kept of the others must not change. "
        "Objective functions and acceptance rules are copied along. "
        "Non-trivial: copied after a fit.")
CASES = {"quick": 600, "thorough": 8000}
MIN = {"copies": 300, "copied_after_fit": 200, "fits_of_copies": 300,
       "rules_copied": 100}
ASSUMPTIONS = ["functions handed over by the user can be copied or pickled "
               "themselves"]


def gen_(rng, idx, tier):
    kind = rng.choice(jobs.HEU * 2 + ("maxp", "maxp", "maxp", "exact",
                                      "skater", "skater", "maxp_exact"))
    js = [jobs.gen_job(rng, rng.choice([4, 8, 12]), (kind,))
          for _ in range(rng.choice([1, 2, 2, 3]))]
    if kind == "maxp" and rng.random() < .4:
        # annealing as local search
        js[0]["algo"] = dict(fits.gen_algo(rng, ("sa",)), nonmoving=1,
                             reps=1, max_iterations=1)
        for j in js:
            j["attr"] = [[rng.random() for _ in range(3)] for _ in j["attr"]]
            j["objective"] = {"kind": "pairwise", "metric": "manhattan"}
    for j in js:
        if "algo" in j:
            j["algo"] = js[0]["algo"]
        if j.get("objective") and ":" in j["objective"]["metric"]:
            # functions of these tests that cannot be pickled
            j["objective"]["metric"] = "manhattan"
    spec = skat.gen_spec(rng) if kind == "skater" else None
    if spec:
        for j in js:
            j["attr"] = skat.gen_data(rng, j["map"]["n"], spec)
    return {"jobs": js, "seeds": [rng.randrange(10 ** 6) for _ in js],
            "how": rng.choice(["deepcopy", "deepcopy", "pickle", "pickle"]),
            "protocol": rng.randint(0, pickle.HIGHEST_PROTOCOL),
            "fail": rng.random() < .2,
            "twice": rng.random() < .2, "spec": spec, "order": rng.randrange(10 ** 6)}


def duplicate(case, obj, mon, what):
    def go():
        if case["how"] == "deepcopy":
            return copy.deepcopy(obj)
        f = io.BytesIO()
        pickle.dump(obj, f, protocol=case["protocol"])
        f.seek(0)
        return pickle.load(f)
    return mon.call(go, what="%s of %s" % (case["how"], what))


def make(case):
    if case["spec"]:
        return skat.build(case["spec"])
    return jobs.make(case["jobs"][0], seeded=False)


def labels(est, kind):
    x = getattr(est, "current_labels_" if kind == "skater" else "labels_",
                None)
    return None if x is None else fits.labels_list(x)


def run(case, mon):
    from . import c13
    js = [j for j in case["jobs"] if not jobs.small_island(jobs.Args(j))]
    if not js:
        return
    kind = js[0]["kind"]
    est = make(case)
    for j, s in zip(js[:-1], case["seeds"]):
        c13.seeded_fit(est, jobs.Args(j), s, mon, kind + " fit")
    if case["fail"]:
        c13.broken_fit(case, est, js[-1], mon)
    before = labels(est, kind)
    dup = duplicate(case, est, mon, kind)
    if case["twice"]:
        dup = duplicate(case, dup, mon, "a copy of " + kind)
    mon.count("copies")
    mon.count("copies_" + kind)
    mon.count("copied_after_fit", len(js) > 1)
    mon.check(labels(dup, kind) == before, lambda: "the copy's labels are %s, "
              "the original's %s" % (labels(dup, kind), before))
    mon.check(type(dup) is type(est), "the copy is a %s" % type(dup))
    if kind == "skater" and before is not None:
        data = np.random.RandomState(case["order"]).rand(len(before), 2)
        a, b = (mon.call(x.score, data, what="score") for x in (est, dup))
        mon.check(a == b, "score %r of the copy, %r of the original" % (b, a))
    # the next fit, of each
    job, seed = js[-1], case["seeds"][-1]
    who = {"original": est, "copy": dup,
           "fresh": make(case)}
    order = sorted(who)
    random.Random(case["order"]).shuffle(order)
    kept = {k: labels(who[k], kind) for k in who}
    got = {}
    for k in order:
        args = jobs.Args(job)
        if "objective_func" in args.kwargs and k == "copy":
            args.kwargs["objective_func"] = duplicate(
                case, args.kwargs["objective_func"], mon,
                "an objective function")
        got[k] = c13.seeded_fit(who[k], args, seed, mon,
                                "%s fit of the %s" % (kind, k))
        kept[k] = got[k]
        mon.count("fits_of_copies", k == "copy")
        for o in who:
            mon.check(labels(who[o], kind) == kept[o], lambda: "the result of "
                      "the %s changed from %s to %s by a fit of the %s" % (
                          o, kept[o], labels(who[o], kind), k))
    args = jobs.Args(job)
    for k in ("copy", "original"):
        if not jobs.same(got[k], got["fresh"], args):
            again = [c13.seeded_fit(make(case), jobs.Args(job), seed, mon,
                                    kind + " fit")
                     for _ in range(3)]
            if any(not jobs.same(a, got["fresh"], args) for a in again):
                mon.count("random_state_not_controlled")
                continue
            mon.bad("under the same random state the %s of a %s gives %s, a "
                    "fresh object %s" % (k, kind, got[k], got["fresh"]))
    rules(case, js[-1], mon)
    mon.seen("results", (job["map"]["edges"], got["copy"]))
    mon.nontrivial = len(js) > 1


def rules(case, job, mon):
    """Copies of acceptance rules judge moves as the originals do."""
    from region.p_regions import azp_util as au
    rnd = random.Random(case["order"])
    n = job["map"]["n"]
    attr = np.array(job["attr"])
    if n < 2:
        return
    spec = job.get("objective")
    start = np.array([i % 2 for i in range(n)])
    inner = rnd.choice([au.AllowMoveAZP, lambda: (
        au.AllowMoveAZPSimulatedAnnealing(1e-9, 3))])()
    rule = rnd.choice([inner, au.AllowMoveAZPMaxPRegions(
        np.array(job["ext"]), job["threshold"], inner)])
    idx = np.arange(n)
    rule.start_new_component(start.copy(), attr, fits.objective(spec), idx)
    dup = duplicate(case, rule, mon, type(rule).__name__)
    mon.count("rules_copied")
    state = [start.copy(), start.copy()]
    for _ in range(6):
        area = rnd.randrange(n)
        new = 1 - state[0][area]
        if (state[0] == state[0][area]).sum() < 2:
            continue
        s = rnd.randrange(10 ** 6)
        ans = []
        for r, lab in zip((rule, dup), state):
            random.seed(s)
            ok = mon.call(r, area, new, lab, what="acceptance rule")
            ans.append((bool(ok), float(r.objective_val)))
            if ok:
                lab[area] = new
        mon.check(ans[0] == ans[1], lambda: "%s answers %s, its copy %s" % (
            type(rule).__name__, ans[0], ans[1]))
