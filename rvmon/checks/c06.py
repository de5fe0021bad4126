"""Max-p heuristic: how many regions, and which of the candidates."""
from .. import fits, gen, ref
from . import c05

RULE = ("A case = a random max-p instance run with a recording local search "
        "(an AZP whose fit notes start and result of each run) and a "
        "recording construction phase. Checked: every start is feasible, all "
        "have the same (maximal) number of regions, the answer is the best of "
        "the recorded results and has as many regions as the best "
        "construction; constructions leave no group of areas out that could "
        "form a region; p never exceeds the exhaustive optimum (small maps) "
        "and is n where every area reaches the threshold alone. Non-trivial: "
        "1 < p < n and several different candidate results.")
CASES = {"quick": 500, "thorough": 9000}
MIN = {"fits": 200, "local_searches": 400, "optimum_compared": 60,
       "exact": 60}
ASSUMPTIONS = c05.ASSUMPTIONS


def gen_(rng, idx, tier):
    small = rng.random() < .4
    nmax = 7 if small else rng.choice([9, 12, 16, 20])
    case = c05.gen_case(rng, nmax, nmax - 2,
                        (.1, .15, .2, .25, .3, .35, .45))
    case["algo"] = rng.choice([
        {"algo": "azp", "random_state": 1},
        {"algo": "basic", "random_state": 1, "tabu_length": 5, "reps": 2},
        {"algo": "reactive", "random_state": 1, "max_iterations": 5, "k1": 2,
         "k2": 2}])
    case["max_it"] = rng.choice([1, 4, 8, 15])
    if rng.random() < .35:
        # sums are exact, so that no tolerance is needed
        case.pop("attr_dtype", None)
        case.update(exact=True, attr=gen.dyadic_attr(rng, case["map"]["n"]),
                    objective={"kind": "pairwise", "metric": rng.choice(
                        ["manhattan", "cityblock", "l1"])})
    if rng.random() < .15:      # every area reaches the threshold alone
        low = [min(r[k] for r in case["ext"])
               for k in range(len(case["ext"][0]))]
        case["threshold"] = low if isinstance(case["threshold"], list) \
            else min(low)
    return case


def run(case, mon):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    from region.p_regions import azp
    nb = gen.nbrs_of(case["map"])
    n = len(nb)
    runs, grown = [], []

    def recording(cls):
        class Recording(cls):
            def fit_from_scipy_sparse_matrix(self, adj, attr, n_regions,
                                             initial_labels=None, *a, **k):
                start = None if initial_labels is None else \
                    fits.labels_list(initial_labels)
                super().fit_from_scipy_sparse_matrix(
                    adj, attr, n_regions, initial_labels, *a, **k)
                runs.append((n_regions, start,
                             fits.labels_list(self.labels_)))
            fit = fit_from_scipy_sparse_matrix
        return Recording

    class Heu(MaxPRegionsHeu):
        def grow_regions(self, *a, **k):
            r = super().grow_regions(*a, **k)
            try:
                grown.append(([sorted(int(i) for i in s) for s in r[0]],
                              sorted(int(i) for i in r[1])))
            except (TypeError, ValueError, IndexError, KeyError):
                pass    # not the (regions, rest) of today: nothing to judge
            return r

    a = case["algo"]
    if a["algo"] == "azp":
        local = recording(azp.AZP)(random_state=1)
    elif a["algo"] == "basic":
        local = recording(azp.AZPBasicTabu)(
            tabu_length=5, repetitions_before_termination=2, random_state=1)
    else:
        local = recording(azp.AZPReactiveTabu)(5, 2, 2, random_state=1)
    heu = Heu(local_search=local, random_state=case["random_state"])
    c05.fit(case, mon, heu)
    if heu.labels_ is None:
        mon.fail("no labels although every component reaches the threshold")
    labels = fits.labels_list(heu.labels_)
    p = len(set(labels))
    errs = ref.partition_errors(nb, labels) + ref.threshold_errors(
        labels, case["ext"], case["threshold"])
    if errs:
        mon.fail("infeasible: %s" % errs)
    mon.count("fits")
    spec = case["objective"]
    value = fits.ref_objective(spec, labels, case["attr"])
    size = max(abs(x) for r in case["attr"] for x in r) * n
    tol = 2e-6 * max(size, 1.0 if spec["metric"] == "cosine" else 0)
    if case.get("exact"):
        tol = 0
        mon.count("exact")
    best = None
    for n_regions, start, result in runs:
        mon.count("local_searches")
        if start is not None:
            errs = ref.partition_errors(nb, start) + ref.threshold_errors(
                start, case["ext"], case["threshold"])
            mon.check(not errs, lambda: "local search starts from an "
                      "infeasible partition %s: %s" % (start, errs))
            mon.check(len(set(start)) == p, lambda: "a candidate has %d "
                      "regions, the answer %d" % (len(set(start)), p))
        v = fits.ref_objective(spec, result, case["attr"])
        best = v if best is None else min(best, v)
        mon.seen("candidates", (case["seed"], ref.partition_key(result)))
    if best is not None:
        mon.check(abs(value - best) <= tol or value < best,
                  lambda: "answer has objective %r, a candidate has %r" % (
                      value, best))
    if grown:
        mon.count("constructions", len(grown))
        mon.check(max(len(g[0]) for g in grown) == p,
                  lambda: "constructions have up to %d regions, the answer "
                  "%d" % (max(len(g[0]) for g in grown), p))
        top = sum(len(g[0]) == p for g in grown)
        if runs:
            mon.check(len(runs) == top, lambda: "%d constructions reach p=%d, "
                      "%d were searched" % (top, p, len(runs)))
    for part, left in grown:
        seen = sorted(x for s in part for x in s) + left
        if not mon.check(sorted(seen) == list(range(n)),
                         "a construction loses or duplicates areas"):
            break
        lab = [None] * n
        for k, s in enumerate(part):
            for i in s:
                lab[i] = k
        for k, s in enumerate(part):
            mon.check(ref.connected(nb, s), "constructed region not connected")
        sums = ref.threshold_errors([lab[i] for i in range(n)
                                     if lab[i] is not None],
                                    [case["ext"][i] for i in range(n)
                                     if lab[i] is not None],
                                    case["threshold"]) if part else []
        mon.check(not sums, lambda: "constructed region below threshold: %s"
                  % sums)
        for comp in ref.components(nb, left):
            ok = not ref.threshold_errors([0] * len(comp),
                                          [case["ext"][i] for i in comp],
                                          case["threshold"], tol=0)
            mon.check(not ok, lambda: "areas %s are left out of a "
                      "construction but could form a region" % sorted(comp))
    alone = all(not ref.threshold_errors([0], [e], case["threshold"])
                for e in case["ext"])
    if alone:
        mon.count("all_alone")
        mon.check(p == n, "every area reaches the threshold alone, but there "
                  "are %d regions for %d areas" % (p, n))
    if n <= 7:
        opt = ref.best_max_p(nb, case["attr"], case["ext"],
                             case["threshold"], "manhattan")[0]
        mon.count("optimum_compared")
        if p == opt:
            mon.count("optimum_reached")
        mon.check(p <= opt, "p=%d exceeds the optimum %d" % (p, opt))
    mon.nontrivial = 1 < p < n and len({ref.partition_key(r[2])
                                        for r in runs}) > 1
