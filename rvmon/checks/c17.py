"""SKATER's score is the documented one."""
import math

import numpy as np

from .. import fits, gen, ref, skat

RULE = ("A case = random data and labels (arbitrary names: gaps, negative, "
        "floats, strings; any clustering, contiguous or not), dissimilarity "
        "or affinity, reduction, center, quorum. Oracle: reference "
        "implementation of reduction-over-regions of the reduction of "
        "dissimilarities to the region's center; inf iff a region is below "
        "the quorum; independent of label names; without labels the fitted "
        "ones count; unfitted without labels is refused. Non-trivial: several "
        "regions, not all of one area.")
CASES = {"quick": 1500, "thorough": 20000}
MIN = {"scores": 3000, "below_quorum": 100, "odd_labels": 300, "fitted": 60}


def gen_(rng, idx, tier):
    n = rng.choice([1, 2, 5, 9, 20])
    spec = skat.gen_spec(rng)
    k = rng.randint(1, n)
    labels = [rng.randrange(k) for _ in range(n)]
    case = {"spec": spec, "data": skat.gen_data(rng, n, spec),
            "labels": labels, "n": n,
            "label_names": rng.choice(["gaps", "neg", "float", "str", "big"]),
            "perm": rng.sample(range(100), 40)}
    if rng.random() < .1:
        case.update(skat.gen_case(rng, 8))
        case["labels"] = [rng.randrange(k) for _ in range(case["map"]["n"])]
        case["fit"] = rng.randint(1, case["map"]["n"])
    return case


def run(case, mon):
    spec, data, labels = case["spec"], case["data"], case["labels"]
    est = skat.build(spec)
    arr = np.array(data)
    tol = skat.tolerance(spec, data)
    perm = case["perm"]
    sizes = [len(a) for a in ref.regions(labels).values()]
    quorums = [None, 1, min(sizes), min(sizes) + 1, max(sizes) + 1]
    f = {"gaps": lambda l: perm[l] * 3 + 7, "neg": lambda l: perm[l] - 50,
         "float": lambda l: perm[l] / 2 + .25, "str": lambda l: "r%d" %
         perm[l], "big": lambda l: perm[l] * 10 ** 9}[case["label_names"]]
    odd = np.array([f(l) for l in labels])
    for q in quorums:
        kw = {} if q is None else {"quorum": q}
        want = skat.ref_score(spec, labels, data, q)
        for lab in (np.array(labels), odd):
            got = mon.call(est.score, arr, labels=lab, what="score", **kw)
            mon.count("scores")
            mon.count("odd_labels", lab is odd)
            if math.isinf(want):
                mon.count("below_quorum")
                mon.check(np.isposinf(got), lambda: "score %r although a "
                          "region is below the quorum %r" % (got, q))
            else:
                mon.check(abs(float(got) - want) <= 2 * tol, lambda: "score "
                          "%r, defined is %r (labels %s, quorum %r)" % (
                              got, want, lab.tolist(), q))
    if case.get("fit"):
        _, e = mon.attempt(est.score, arr, what="score")
        mon.check(isinstance(e, ValueError), lambda: "score of an unfitted "
                  "object without labels: %r" % e)
        w, nb, order = skat.weights_of(case)
        d2 = [data[a] for a in order]
        est, _ = skat.fit(case, mon, est, w, np.array(d2), case["fit"])
        got = mon.call(est.score, np.array(d2), what="score")
        want = skat.ref_score(spec, fits.labels_list(est.current_labels_), d2)
        mon.count("fitted")
        mon.check(abs(float(got) - want) <= 2 * tol, lambda: "score of the "
                  "fit is %r, defined is %r" % (got, want))
    mon.seen("labelings", (labels, case["label_names"]))
    mon.nontrivial = 1 < len(sizes) and max(sizes) > 1
