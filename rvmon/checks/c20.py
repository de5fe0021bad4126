"""Random start solutions are valid for every random state."""
import random

import numpy as np

from .. import fits, gen, ref

RULE = ("A case = random map (up to 6 parts), number of regions from "
        "#components to n, under many random states. Oracle: one array per "
        "component, -1 outside of it, together a contiguous clustering with "
        "exactly n_regions regions and disjoint labels; the distribution over "
        "components gives each at least one and at most as many regions as "
        "it has areas; impossible numbers are refused with ValueError. "
        "Non-trivial: #components < p < n.")
CASES = {"quick": 1200, "thorough": 15000}
MIN = {"solutions": 4000, "multi_component": 800, "distributions": 3000,
       "refused": 800}
STEP_BUDGET = 1_000_000


def gen_(rng, idx, tier):
    m = gen.make_map(rng, rng.choice([1, 3, 6, 10, 20]) if idx % 25 else 60,
                     max_comps=rng.choice([1, 2, 3, 6])) \
        if idx % 150 != 77 else gen.big_map(rng, rng.choice([1, 40]))
    nb = gen.nbrs_of(m)
    n, c = m["n"], len(ref.components(nb))
    case = {"map": m, "p": rng.choice([c, n, rng.randint(c, n),
                                       rng.randint(c, n), max(c, n - 1)]),
            "repeat": 8 if n < 40 else 2}
    fits.decorate(rng, case)
    case.pop("flat", None)
    return case


def run(case, mon):
    from region import util
    nb = gen.nbrs_of(case["map"])
    n, p = len(nb), case["p"]
    comps = ref.components(nb)
    comp_of = [None] * n
    for c in sorted(comps, key=min):
        for i in c:
            comp_of[i] = sorted(comps, key=min).index(c)
    adj = fits.adj_array(case)
    for k in range(case["repeat"]):
        random.seed(case["seed"] + k)
        parts = mon.call(lambda: list(util.generate_initial_sol(adj, p)),
                         what="generate_initial_sol")
        mon.count("solutions")
        if not mon.check(len(parts) == len(comps), lambda: "%d start "
                         "solutions for %d components" % (
                             len(parts), len(comps))):
            return
        labels = [None] * n
        for part in parts:
            part = fits.labels_list(np.asarray(part))
            inside = {i for i, l in enumerate(part) if l != -1}
            if not mon.check(inside in comps, lambda: "start solution %s "
                             "does not cover one component" % part):
                return
            for i in inside:
                mon.check(labels[i] is None and part[i] >= 0,
                          "a component was yielded twice or has a negative "
                          "label")
                labels[i] = part[i]
        for e in ref.partition_errors(nb, labels, p):
            mon.bad("start solution for random state %d: %s" % (
                case["seed"] + k, e))
        mon.check(sum(len({labels[i] for i in c}) for c in comps) == p,
                  "a label is used in two components")
        if len(comps) > 1:
            mon.count("multi_component")
        mon.seen("solutions", (case["map"]["edges"],
                               ref.partition_key(labels)))
        # distribution
        comp_arg = np.array(comp_of) if k % 2 else list(comp_of)
        got = mon.call(util.distribute_regions_among_components, comp_arg, p,
                       what="distribute_regions_among_components")
        mon.count("distributions")
        got = {int(a): int(b) for a, b in got.items()}
        mon.check(set(got) == set(comp_of) and sum(got.values()) == p and
                  all(1 <= got[c] <= comp_of.count(c) for c in got),
                  lambda: "%d regions over components %s: %s" % (
                      p, comp_of, got))
    for bad in {0, len(comps) - 1, n + 1, n + 7, -1} - set(
            range(len(comps), n + 1)):
        _, e = mon.attempt(lambda: list(util.generate_initial_sol(adj, bad)),
                           what="generate_initial_sol")
        mon.count("refused")
        mon.check(isinstance(e, ValueError), lambda: "%d regions for %d areas"
                  " in %d components: %r instead of ValueError" % (
                      bad, n, len(comps), e))
    mon.nontrivial = len(comps) < p < n
