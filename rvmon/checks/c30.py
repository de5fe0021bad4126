"""Neither units nor the zero point of the attributes matter."""
import math
import random

import numpy as np

from .. import fits, gen, jobs, ref

RULE = ("A case = one problem (every heuristic, max-p heuristic and SKATER, "
        "every entry point, objective, metric, start) and an equivalent one: "
        "attributes times a power of two (annealing: the initial temperature "
        "likewise), mirrored at zero, whole-numbered attributes shifted by a "
        "whole number, in another order of columns or with a column that is "
        "the same for all areas; extensive attributes and thresholds times a "
        "power of two, a repeated extensive attribute. All of these leave "
        "every comparison of dissimilarities and sums exactly as it was "
        "(floating point included). Oracle: equal labels under equal random "
        "state. Non-trivial: the reference result has several regions, one "
        "with several areas.")
CASES = {"quick": 1500, "thorough": 16000}
MIN = {"unit": 500, "mirror": 100, "shift": 100, "columns": 60, "constant": 100,
       "ext_unit": 60, "ext_repeated": 40, "fits_azp": 100, "fits_sa": 60,
       "fits_basic": 60, "fits_reactive": 60, "fits_maxp": 100,
       "fits_skater": 60}

KINDS = jobs.HEU * 2 + ("maxp",) * 5 + ("skater",) * 2
BIG = [-200, -80, -40, -30, -20, -10, -3, -1, 1, 2, 7, 10, 20, 30, 40, 80, 200]


def degree(job):
    """Exponent with which the objective grows with the attributes."""
    spec = job.get("objective")
    return 0 if spec and spec["metric"].endswith("cosine") else 1


def gen_(rng, idx, tier):
    job = jobs.gen_job(rng, rng.choice([4, 8, 12, 14]), KINDS,
                       generic=rng.random() < .4)
    n, kind = job["map"]["n"], job["kind"]
    if kind == "maxp" and rng.random() < .6:
        # regions of some areas, many candidates
        job["ext"] = [[float(rng.choice([1, 1, 1, 2]))] for _ in range(n)]
        job["thr_array"], job["max_it"] = False, rng.choice([4, 8])
        small = min(len(c) for c in ref.components(gen.nbrs_of(job["map"])))
        job["threshold"] = float(min(small, rng.choice([2, 3])))
    spec = job.get("objective")
    whole = (kind != "skater" and degree(job) and rng.random() < .6 and
             (not spec or spec["kind"] == "pairwise"))
    if whole:
        top = rng.choice([3, 20, 1000])
        job["attr"] = [[float(rng.randint(0, top)) for _ in r]
                       for r in job["attr"]]
    ways = []
    if rng.random() < .2:
        ways.append(["mirror"])
    if whole:
        if rng.random() < .4:
            ways.append(["shift", float(rng.choice(
                [1, 5, -7, 1000, -20000, 1048576]))])
        if rng.random() < .3 and len(job["attr"][0]) > 1:
            ways.append(["columns"])
        if rng.random() < .3:
            ways.append(["constant", float(rng.choice([0, 3, -500]))])
    if not ways or rng.random() < .6:
        # (after the others; scikit-learn's cosine distance takes lengths
        # below 2e-15 for 0)
        ways.append(["unit", rng.choice(BIG if degree(job) else BIG[9:])])
    if kind == "maxp":
        if rng.random() < .6:
            ways.append(["ext_unit", rng.choice(BIG)])
        if rng.random() < .4 and not job["thr_array"]:
            ways.append(["ext_repeated"])
    return {"job": job, "ways": ways, "global": rng.randrange(10 ** 6)}


def changed(job, ways):
    job = dict(job, attr=[list(r) for r in job["attr"]],
               ext=[list(r) for r in job["ext"]])
    for way in ways:
        if way[0] == "unit":
            k = way[1]
            job["attr"] = [[math.ldexp(x, k) for x in r] for r in job["attr"]]
            if job.get("algo", {}).get("algo") == "sa":
                job["algo"] = dict(job["algo"], init_temperature=math.ldexp(
                    job["algo"]["init_temperature"], k * degree(job)))
        elif way[0] == "mirror":
            job["attr"] = [[-x for x in r] for r in job["attr"]]
        elif way[0] == "shift":
            job["attr"] = [[x + way[1] for x in r] for r in job["attr"]]
        elif way[0] == "columns":
            job["attr"] = [r[::-1] for r in job["attr"]]
        elif way[0] == "constant":
            job["attr"] = [r + [way[1]] for r in job["attr"]]
        elif way[0] == "ext_unit":
            job["ext"] = [[math.ldexp(x, way[1]) for x in r]
                          for r in job["ext"]]
            job["threshold"] = math.ldexp(job["threshold"], way[1])
        elif way[0] == "ext_repeated":
            job["ext"] = [r + r[:1] for r in job["ext"]]
    return job


def solve(case, job, mon):
    args = jobs.Args(job)
    if jobs.small_island(args):
        return None
    est = jobs.make(job)

    def go():
        random.seed(case["global"])
        np.random.seed(case["global"])
        return jobs.fit(est, args)
    return mon.call(go, what="%s fit" % job["kind"], budget=jobs.budget(job))


def run(case, mon):
    job = case["job"]
    first = solve(case, job, mon)
    if first is None:
        return
    kind = job["kind"]
    mon.count("fits_" + kind)
    for way in case["ways"]:
        mon.count(way[0])
    mon.seen("results", (job["map"]["edges"], first))
    mon.nontrivial = 1 < len(set(first)) < len(first)
    again = solve(case, changed(job, case["ways"]), mon)
    mon.check(again == first, lambda: "%s (via %s) of the same problem with "
              "%s: %s, before %s" % (kind, job["via"], case["ways"], again,
                                     first))
