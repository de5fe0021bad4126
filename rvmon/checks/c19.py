"""The feasibility checkers accept exactly the feasible clusterings."""
import random

import numpy as np

from .. import fits, gen, ref

RULE = ("A case = random map with feasible labels, labels with one or two "
        "areas moved anywhere, random labels, renamed labels (gaps, negative "
        "numbers, floats), right, wrong and no n_regions. Oracle: breadth-"
        "first search. assert_feasible raises ValueError iff a region is not "
        "contiguous or the number of regions differs; the boolean form "
        "agrees; max-p's check demands the threshold in addition. "
        "Non-trivial: more than one region.")
CASES = {"quick": 2000, "thorough": 25000}
MIN = {"feasible": 1500, "infeasible": 1500, "wrong_number": 800}
STEP_BUDGET = 1_000_000


def gen_(rng, idx, tier):
    m = gen.make_map(rng, rng.choice([1, 4, 8, 14, 25]),
                     max_comps=rng.choice([1, 1, 2, 4])) \
        if idx % 200 != 77 else gen.big_map(rng, rng.choice([1, 40]))
    nb = gen.nbrs_of(m)
    c = len(ref.components(nb))
    p = rng.randint(c, m["n"])
    case = {"map": m, "labels": gen.random_partition(rng, nb, p)}
    fits.decorate(rng, case)
    case.pop("flat", None)
    return case


def run(case, mon):
    from region import util
    rnd = random.Random(case["seed"])
    nb = gen.nbrs_of(case["map"])
    n = len(nb)
    adj = fits.adj_array(case)
    base = case["labels"]
    variants = [base]
    for _ in range(2):
        moved = list(base)
        for _ in range(rnd.randint(1, 2)):
            moved[rnd.randrange(n)] = rnd.choice(base)
        variants.append(moved)
    k = rnd.randint(1, n)
    variants.append([rnd.randrange(k) for _ in range(n)])
    for labels in variants:
        style = rnd.choice(["plain", "gaps", "neg", "float"])
        if style == "plain":
            arr = fits.label_array(rnd.random(), labels)
        else:
            perm = rnd.sample(range(-30, 60 + n), max(labels) + 1)
            arr = np.array([perm[l] + (.5 if style == "float" else 0) if
                            style != "gaps" else abs(perm[l]) * 1000 + l
                            for l in labels])
        p = len(set(labels))
        errs = ref.partition_errors(nb, labels)
        mon.count("infeasible" if errs else "feasible")
        got = mon.call(util.boolean_assert_feasible, arr, adj,
                       what="boolean_assert_feasible")
        mon.check(bool(got) == (not errs), lambda: "boolean_assert_feasible "
                  "of %s is %r, but %s" % (arr.tolist(), got,
                                           errs or "it is feasible"))
        for want_p in (None, p, p + 1, max(1, p - 1), n):
            _, e = mon.attempt(util.assert_feasible, arr, adj, want_p,
                               what="assert_feasible")
            bad = bool(errs) or (want_p is not None and want_p != p)
            if want_p not in (None, p):
                mon.count("wrong_number")
            if bad:
                mon.check(isinstance(e, ValueError), lambda: "assert_feasible"
                          " of %s with n_regions=%r: %r instead of "
                          "ValueError (%s)" % (arr.tolist(), want_p, e, errs))
            else:
                mon.check(e is None, lambda: "assert_feasible refuses %s, "
                          "n_regions=%r: %r" % (arr.tolist(), want_p, e))
            got, e = mon.attempt(util.boolean_assert_feasible, arr, adj,
                                 want_p, what="boolean_assert_feasible")
            if bad:
                mon.check(not got or isinstance(e, ValueError), lambda:
                          "boolean_assert_feasible accepts %s with "
                          "n_regions=%r" % (arr.tolist(), want_p))
            else:
                mon.check(bool(got) and e is None, lambda: "boolean_assert_"
                          "feasible refuses %s, n_regions=%r: %r" % (
                              arr.tolist(), want_p, e))
        eq = mon.call(util.all_elements_equal, arr, what="all_elements_equal")
        mon.check(bool(eq) == (p == 1), "all_elements_equal is wrong")
        for l in sorted(set(arr.tolist())) + [12345]:
            got = mon.call(util.count, arr, l, what="count")
            mon.check(got == arr.tolist().count(l), lambda: "count of %r in "
                      "%s is %r" % (l, arr.tolist(), got))
        mon.seen("labelings", (case["map"]["edges"], labels))
    mon.nontrivial = len(set(base)) > 1
