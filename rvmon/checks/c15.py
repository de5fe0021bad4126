"""SKATER: contiguous regions, as many as wanted, above the quorum."""
import numpy as np

from .. import fits, gen, ref, skat

RULE = ("A case = random map (also islands), data (also ties, constants, no "
        "data), dissimilarity or affinity, reduction, center, number of "
        "clusters from 1 to more than possible, quorum, island mode, W in "
        "various forms. Oracle: definition of a regionalization; the number "
        "of regions is n_clusters (plus the number of components for islands="
        "'increase') unless no link of the remaining forest can be cut "
        "without falling below the quorum, then a warning says so; labels "
        "are the trees of the stored forest, whose links are map links. "
        "Components below the quorum are refused. Non-trivial: at least one "
        "cut made.")
CASES = {"quick": 2000, "thorough": 9000}
MIN = {"fits": 300, "islands": 60, "stopped_early": 40, "quorum": 150,
       "refused": 5}


def gen_(rng, idx, tier):
    nmax = rng.choice([3, 6, 10, 15]) if idx % 30 else 30
    case = skat.gen_case(rng, nmax)
    n = case["map"]["n"]
    case.update(k=rng.choice([1, 2, 3, rng.randint(1, n), n, n + 2]),
                quorum=rng.choice([None, None, 1, 2, 3, max(1, n // 3),
                                   n // 2 + 1]),
                islands=rng.choice(["increase", "ignore", "Ignore", None]),
                no_data=rng.random() < .08, trace=rng.random() < .3)
    return case


def run(case, mon):
    w, nb, order = skat.weights_of(case)
    n = len(nb)
    data = [case["data"][a] for a in order]
    comps = ref.components(nb)
    c, q = len(comps), case["quorum"]
    est = skat.build(case["spec"])
    kw = {"trace": case["trace"]}
    if case["islands"]:
        kw["islands"] = case["islands"]
    ignore = (case["islands"] or "").lower() == "ignore"
    arr = None if case["no_data"] else np.array(data)
    if c > 1 and q is not None and min(map(len, comps)) < q:
        _, e = mon.attempt(est.fit, case["k"], w, arr, quorum=q,
                           what="SKATER fit", **kw)
        mon.count("refused")
        mon.check(isinstance(e, ValueError), lambda: "a component below the "
                  "quorum was not refused: %r" % e)
        return
    est, warned = skat.fit(case, mon, est, w, arr, case["k"], q,
                           budget=2000 * (n + 5), **kw)
    labels = fits.labels_list(est.current_labels_)
    mon.count("fits")
    target = case["k"] if c == 1 else max(
        c, case["k"] + (0 if ignore else c))
    for e in ref.partition_errors(nb, labels):
        mon.bad(e)
    if mon.violations:
        return
    p = len(set(labels))
    links = skat.forest(est)
    mon.check(all(j in nb[i] for i, j in links),
              "the forest contains links that are not in the map")
    mon.check(len(links) == n - p, lambda: "%d links for %d regions of %d "
              "areas" % (len(links), p, n))
    mon.check(ref.partition_key(skat.labels_of(n, links)) ==
              ref.partition_key(labels), "the labels are not the trees of "
              "the forest")
    mon.check(p <= target, lambda: "%d regions, at most %d wanted" % (
        p, target))
    mon.check(p >= min(target, c), "too few regions")
    if q is not None:
        mon.count("quorum")
        if p > c:
            for l, areas in ref.regions(labels).items():
                mon.check(len(areas) >= q, lambda: "region %s has %d areas, "
                          "the quorum is %d" % (l, len(areas), q))
    if p < target:
        mon.count("stopped_early")
        for l in sorted(links):
            rest = skat.labels_of(n, links - {l})
            sizes = [len(a) for a in ref.regions(rest).values()]
            mon.check(q is not None and min(sizes) < q, lambda: "stopped at "
                      "%d of %d regions although link %s can be cut "
                      "(sizes %s, quorum %s)" % (p, target, l, sizes, q))
        mon.check(any("no valid moves" in x for x in warned) or bool(warned),
                  "no warning about missing regions")
    if c > 1:
        mon.count("islands")
        mon.check(bool(warned), "no warning about a disconnected map")
    mon.count("cuts", p - c)
    mon.seen("results", (case["map"]["edges"], labels))
    mon.nontrivial = p > c
