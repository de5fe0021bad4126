"""Max-p construction: greedy choices are the least dissimilar ones."""
import random

import numpy as np

from .. import fits, gen, ref
from . import c05

RULE = ("A case = random map, attributes and metric; (a) the public choices "
        "find_best_area and find_best_region_idx are asked about random "
        "regions and candidates, (b) assign_enclaves completes random partial "
        "partitions, (c) whole fits run with these methods recorded. Oracle: "
        "the choice has the least sum of distances (reference definition) "
        "among all candidates; the candidates offered in a construction are "
        "exactly the areas (regions) the rule allows; enclaves end in regions "
        "they touch, contiguously, nothing else moves. Non-trivial: a choice "
        "between candidates of different dissimilarity.")
CASES = {"quick": 700, "thorough": 9000}
MIN = {"area_choices": 800, "region_choices": 800, "completed": 250}
STEP_BUDGET = 3_000_000
ASSUMPTIONS = ["choices between dissimilarities closer than 2e-7 of the data "
               "scale are not judged"]


def gen_(rng, idx, tier):
    if idx % 3 == 0:
        case = c05.gen_case(rng, rng.choice([6, 9, 14]), 4,
                            (.15, .2, .25, .3, .4))
        case["algo"] = {"algo": "azp", "random_state": 1}
        case["max_it"] = rng.choice([1, 3])
        case["what"] = "fit"
        return case
    m = gen.make_map(rng, rng.choice([4, 7, 10, 14]), nmin=3,
                     max_comps=rng.choice([1, 1, 3]))
    nb = gen.nbrs_of(m)
    n = m["n"]
    k = len(ref.components(nb))
    exact = rng.random() < .3
    return {"what": "direct", "map": m, "exact": exact,
            "metric": rng.choice(["manhattan", "cityblock", "l1"] if exact
                                 else (fits.METRIC_NAMES +
                                               fits.OWN_METRICS)),
            "attr": gen.dyadic_attr(rng, n) if exact else
            gen.make_attr(rng, n),
            "labels": gen.random_partition(rng, nb, rng.randint(k, n)),
            "container": rng.choice(["list", "set", "array"])}


def cost(metric, attr, area, members):
    d = ref.METRICS[metric]
    return ref.math.fsum(d(attr[area], attr[m]) for m in members)


def tolerance(case, attr):
    if case.get("exact"):
        return 0
    size = max(1e-300, max(abs(x) for r in attr for x in r))
    if metric_of(case) == "cosine":
        size = 1
    return 2e-7 * size * len(attr)


def metric_of(case):
    return case["metric"] if "metric" in case else case["objective"]["metric"]


def judge(mon, what, got, costs, tol):
    """got: chosen key; costs: {key: dissimilarity}"""
    mon.count(what)
    best = min(costs.values())
    if not mon.check(got in costs, lambda: "%s: %r is no candidate of %s" % (
            what, got, sorted(costs))):
        return
    mon.check(costs[got] <= best + tol, lambda: "%s: %r costs %r, the best "
              "of %s costs %r" % (what, got, costs[got], sorted(costs), best))
    if max(costs.values()) > best + tol:
        mon.count("with_a_real_choice")
        mon.nontrivial = True


def run(case, mon):
    if case["what"] == "fit":
        return whole_fit(case, mon)
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    from region.util import get_metric_function
    rnd = random.Random(case["seed"])
    nb = gen.nbrs_of(case["map"])
    n = len(nb)
    attr = [list(r) for r in case["attr"]]
    arr = np.array(attr)
    metric, tol = case["metric"], tolerance(case, attr)
    heu = MaxPRegionsHeu(random_state=case["seed"])
    heu.metric = get_metric_function(fits.metric(metric))
    box = {"list": list, "set": set, "array": np.array}[case["container"]]
    for _ in range(4):
        size = rnd.randint(1, n - 1)
        region = rnd.sample(range(n), size)
        rest = [i for i in range(n) if i not in region]
        cand = rnd.sample(rest, rnd.randint(1, len(rest)))
        got = mon.call(heu.find_best_area, set(region), box(cand), arr,
                       what="find_best_area")
        judge(mon, "area_choices", int(got),
              {c: cost(metric, attr, c, region) for c in cand}, tol)
        # regions for an area
        area = rnd.choice(rest)
        k = rnd.randint(1, size)
        part = [set() for _ in range(k)]
        for j, i in enumerate(region):
            part[j if j < k else rnd.randrange(k)].add(i)
        idxs = rnd.sample(range(k), rnd.randint(1, k))
        if rnd.random() < .3:
            idxs = idxs + [rnd.choice(idxs)]    # several neighbours in one
        copy = [set(s) for s in part]
        got = mon.call(heu.find_best_region_idx, area, part, list(idxs), arr,
                       what="find_best_region_idx")
        judge(mon, "region_choices", int(got),
              {c: cost(metric, attr, area, part[c]) for c in idxs}, tol)
        mon.check(part == copy, "choosing a region changed the partition")
    complete(case, mon, heu, nb, attr, arr, rnd, tol)


def complete(case, mon, heu, nb, attr, arr, rnd, tol):
    """assign_enclaves of a partition with holes"""
    reg = ref.regions(case["labels"])
    part, left = [], []
    for l, areas in reg.items():
        # keep a connected part of some regions, drop others
        comp = next(c for c in ref.components(nb) if areas[0] in c)
        if rnd.random() < .4 and any(
                set(p) & comp for p in part):
            left += areas
            continue
        keep, front = {areas[0]}, [areas[0]]
        size = rnd.randint(1, len(areas))
        while len(keep) < size:
            more = [j for i in sorted(keep) for j in sorted(nb[i])
                    if j in areas and j not in keep]
            keep.add(rnd.choice(more))
        part.append(keep)
        left += [i for i in areas if i not in keep]
    for comp in ref.components(nb):
        if not any(p & comp for p in part):
            i = sorted(comp)[0]
            left.remove(i)
            part.append({i})
    rnd.shuffle(left)
    before = [set(p) for p in part]
    neigh = {i: sorted(nb[i]) for i in range(len(nb))}
    n_left = len(left)
    log = record(mon, heu, nb, attr, case["metric"], tol)
    got = mon.call(heu.assign_enclaves, part, left, neigh, arr,
                   what="assign_enclaves")
    log(False)
    mon.count("completed")
    mon.count("enclaves", n_left)
    got = [set(int(i) for i in s) for s in got]
    mon.check(len(got) == len(before) and all(
        a <= b for a, b in zip(before, got)), lambda: "assigning enclaves "
        "changed the regions %s to %s" % (before, got))
    mon.check(sorted(i for s in got for i in s) == list(range(len(nb))),
              lambda: "assigning enclaves loses or repeats areas: %s" % got)
    for s in got:
        mon.check(ref.connected(nb, s), lambda: "region %s with enclaves is "
                  "not contiguous" % sorted(s))


def record(mon, heu, nb, attr, metric, tol, ext=None):
    """Judge every call of the two choices on this object."""
    cls = type(heu)

    class Recording(cls):
        def find_best_region_idx(self, area, partition, idxs, a):
            r = super().find_best_region_idx(area, partition, idxs, a)
            try:
                old = [set(int(i) for i in s) for s in partition]
                cand = {int(i) for i in idxs}
                area = int(area)
                got = int(r)
            except (TypeError, ValueError):
                return r
            want = {k for k, s in enumerate(old) if nb[area] & s}
            mon.check(cand == want, lambda: "enclave %d may join the regions "
                      "%s but touches %s" % (area, sorted(cand),
                                             sorted(want)))
            judge(mon, "enclave_choices", got,
                  {c: cost(metric, attr, area, old[c]) for c in cand}, tol)
            return r

        def find_best_area(self, region, candidates, a):
            region0 = [int(i) for i in region]
            cand = [int(i) for i in candidates]
            r = super().find_best_area(region, candidates, a)
            for c in cand:
                mon.check(c not in region0 and nb[c] & set(region0),
                          lambda: "area %d is offered to region %s which it "
                          "does not border" % (c, region0))
            judge(mon, "growth_choices", int(r),
                  {c: cost(metric, attr, c, region0) for c in cand}, tol)
            return r
    heu.__class__ = Recording

    def off(_):
        heu.__class__ = cls
    return off


def whole_fit(case, mon):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    nb = gen.nbrs_of(case["map"])
    attr = ref.rows(case["attr"])
    local = fits.estimator(case["algo"])
    heu = MaxPRegionsHeu(local_search=local,
                         random_state=case["random_state"])
    record(mon, heu, nb, attr, metric_of(case), tolerance(case, attr))
    c05.fit(case, mon, heu)
    mon.count("fits")
