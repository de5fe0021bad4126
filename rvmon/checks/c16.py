"""SKATER: minimum spanning forest, best cut at every step."""
import math
import random

import numpy as np

from .. import fits, gen, ref, skat

RULE = ("A case = random map, data, dissimilarity, reduction, center, quorum;"
        " fits to 1, 2, 3, ... regions show the whole history of cuts. "
        "Oracle: the first forest is a minimum spanning forest (Kruskal); "
        "each next forest lacks exactly one link; that cut has the least "
        "score (reference implementation) of all admissible cuts; the trace "
        "lists exactly these labelings; find_cut restricted to a region "
        "returns the best cut inside it; cuts made by find_cut or make_cut "
        "remove that link in place; without data a column of ones is taken. "
        "Non-trivial: at least two cuts, "
        "each with several candidates.")
CASES = {"quick": 900, "thorough": 4500}
MIN = {"histories": 150, "cuts_judged": 500, "zero_links": 40,
       "targeted": 60, "cuts_made": 100, "cuts_without_data": 60}


def gen_(rng, idx, tier):
    nmax = rng.choice([3, 6, 9, 12]) if idx % 30 else 18
    case = skat.gen_case(rng, nmax, max_comps=2)
    n = case["map"]["n"]
    case.update(refit=rng.random() < .3, quorum=rng.choice([None, None, None, 1, 2, 3]),
                steps=rng.choice([2, 4, n]))
    return case


def run(case, mon):
    w, nb, order = skat.weights_of(case)
    n = len(nb)
    data = [case["data"][a] for a in order]
    arr = np.array(data)
    comps = ref.components(nb)
    c, q = len(comps), case["quorum"]
    if q is not None and min(map(len, comps)) < q:
        return
    spec = case["spec"]
    d = skat.diss(spec)
    tol = skat.tolerance(spec, data)
    last = None
    history = []
    old = skat.build(spec)
    for k in range(c, min(n, c + case["steps"]) + 1):
        est, _ = skat.fit(case, mon, old if case["refit"] else
                          skat.build(spec), w, arr, k, q,
                          islands="ignore", trace=True)
        links = skat.forest(est)
        labels = fits.labels_list(est.current_labels_)
        if last is None:
            edges = [(d(data[i], data[j]), i, j)
                     for i, j in case_edges(nb)]
            want, size = ref.mst_weight(n, edges)
            got = math.fsum(d(data[i], data[j]) for i, j in links)
            if any(x[0] < 1e-12 for x in edges):
                mon.count("zero_links")
            mon.check(len(links) == size, lambda: "the spanning forest has "
                      "%d links instead of %d" % (len(links), size))
            mon.check(got <= want + 4 * tol, lambda: "the spanning forest "
                      "weighs %r, the minimum is %r" % (got, want))
            mon.count("histories")
        else:
            if len(links) == len(last):
                break    # stopped early: see C15
            cut = last - links
            mon.check(len(cut) == 1 and links < last, lambda: "from %d to %d "
                      "regions the forest changed by %s / %s" % (
                          k - 1, k, sorted(cut), sorted(links - last)))
            if mon.violations:
                return
            scores = {l: skat.ref_score(spec, skat.labels_of(n, last - {l}),
                                        data, q) for l in last}
            best = min(scores.values())
            (l,) = cut
            mon.count("cuts_judged")
            mon.count("candidates", len(scores))
            mon.check(scores[l] <= best + 2 * tol, lambda: "cut %s scores %r,"
                      " the best cut %s scores %r" % (
                          l, scores[l], min(scores, key=scores.get), best))
            if len(set(scores.values())) > 1 and len(last) > 1:
                mon.nontrivial = True
        history.append(ref.partition_key(labels))
        trace = getattr(est, "_trace", None)
        if trace is not None:
            got = [ref.partition_key(fits.labels_list(t[0])) for t in trace]
            mon.check(got == history, lambda: "the trace lists %s, the "
                      "regionalizations were %s" % (got, history))
            for t in trace[1:]:
                mon.check(abs(t[1].score - skat.ref_score(
                    spec, fits.labels_list(t[0]), data, q)) <= 2 * tol,
                    "a score in the trace is not the score of its labels")
            mon.count("traces")
        last = links
        mon.seen("forests", sorted(links))
    targeted(case, mon, spec, est, data, arr, q, tol, n)
    made(case, mon, spec, est, data, arr, q, tol, n)
    if case["seed"] % 4 == 0:
        without_data(mon, est, q, n)


def without_data(mon, est, q, n):
    """No data: a column of ones is taken."""
    from region.skater.skater import Spanning_Forest

    def far(X, Y):
        return np.add.outer(X.sum(axis=1), 2 * Y.sum(axis=1))
    plain = Spanning_Forest(dissimilarity=far)
    links = links_of(est.minimum_spanning_forest_)
    kw = {} if q is None else {"quorum": q}
    got = mon.call(plain.find_cut, est.minimum_spanning_forest_.copy(),
                   what="find_cut without data", **kw)
    sizes = {}
    for l in links:
        labels = skat.labels_of(n, links - {l})
        sizes[l] = math.inf if min(map(labels.count, labels)) < (q or 0) \
            else 3. * n
    best = min(sizes.values(), default=math.inf)
    mon.count("cuts_without_data")
    mon.check(got.score == best or abs(got.score - best) < 1e-9 * n, lambda:
              "find_cut without data scores %r instead of %r" % (got.score,
                                                                 best))


def case_edges(nb):
    return [(i, j) for i in range(len(nb)) for j in nb[i] if i < j]


def targeted(case, mon, spec, est, data, arr, q, tol, n):
    """find_cut inside one region."""
    links = skat.forest(est)
    labels = fits.labels_list(est.current_labels_)
    if case["seed"] % 3:
        # any names of the same regions
        labels = gen.rename_labels(random.Random(case["seed"]), labels)
    kw = {} if q is None else {"quorum": q}
    for l in sorted(set(labels))[:3]:
        inner = [x for x in links if labels[x[0]] == l]
        got = mon.call(est.find_cut, est.minimum_spanning_forest_, arr,
                       labels=np.array(labels), target_label=l,
                       what="find_cut", **kw)
        scores = {x: skat.ref_score(spec, skat.labels_of(n, links - {x}),
                                    data, q) for x in inner}
        best = min(scores.values(), default=math.inf)
        mon.count("targeted")
        if best == math.inf:
            mon.check(not np.isfinite(got.score), "a cut was found where "
                      "none is admissible")
            continue
        e = (min(got.in_node, got.out_node), max(got.in_node, got.out_node)) \
            if np.isfinite(got.score) else None
        if mon.check(e in scores, lambda: "cut %s is not inside region %s" % (
                e, l)):
            mon.check(scores[e] <= best + 2 * tol,
                      "the cut inside a region is not the best")
            mon.check(abs(got.score - scores[e]) <= 2 * tol,
                      lambda: "find_cut says %r, the score is %r" % (
                          got.score, scores[e]))


def links_of(msf):
    return {(min(int(i), int(j)), max(int(i), int(j)))
            for i, j in zip(*msf.nonzero())}


def made(case, mon, spec, est, data, arr, q, tol, n):
    """Cuts made at once by the search, or by make_cut."""
    from scipy.optimize import OptimizeWarning
    msf = est.minimum_spanning_forest_
    links = links_of(msf)
    scores = {l: skat.ref_score(spec, skat.labels_of(n, links - {l}), data, q)
              for l in links}
    best = min(scores.values(), default=math.inf)
    kw = {} if q is None else {"quorum": q}
    labels = np.array(fits.labels_list(est.current_labels_))
    for half in ({"labels": labels}, {"target_label": labels[0]}):
        _, exc = mon.attempt(est.find_cut, msf.copy(), arr, **half, **kw)
        mon.check(isinstance(exc, ValueError), lambda: "find_cut with %s only"
                  " is met with %r" % (sorted(half), exc))

    def judge(got, what, changed):
        forest, parts, labels = got
        left = links_of(forest)
        mon.count("cuts_made")
        if not mon.check(left < links and len(left) == len(links) - 1,
                         lambda: "%s leaves the links %s of %s" % (
                             what, sorted(left), sorted(links))):
            return
        (cut,) = links - left
        mon.check(scores[cut] <= best + 2 * tol, lambda: "%s: cut %s scores "
                  "%r, the best one %r" % (what, cut, scores[cut], best))
        want = skat.labels_of(n, left)
        mon.check(int(parts) == len(set(want)) and ref.partition_key(
            fits.labels_list(labels)) == ref.partition_key(want), lambda:
            "%s: %s regions, labels %s; the forest has %s" % (
                what, parts, list(labels), want))
        mon.check(links_of(changed) == left, "%s does not cut the forest it "
                  "is given" % what)

    forest = msf.copy()
    got, exc = mon.attempt(est.find_cut, forest, arr, make=True, **kw)
    if best == math.inf:
        mon.check(isinstance(exc, OptimizeWarning), lambda: "no cut is "
                  "admissible, find_cut(make=True) is met with %r" % exc)
        mon.check(links_of(forest) == links, "a link was cut although no cut "
                  "is admissible")
        return
    if exc is not None:
        mon.fail("find_cut(make=True) raised %r" % exc)
    judge(got, "find_cut(make=True)", forest)
    cut = mon.call(est.find_cut, msf, arr, what="find_cut", **kw)
    mon.check(links_of(msf) == links, "find_cut changes the forest")
    judge(mon.call(est.make_cut, *cut, what="make_cut"), "make_cut",
          est.minimum_spanning_forest_)
