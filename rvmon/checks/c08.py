"""Exact p-regions: valid and optimal."""
import math

import numpy as np

from .. import fits, gen, ref, solver
from ..errors import Violation

RULE = ("A case = random small map (also split), random attributes (1-3 "
        "columns, ties, constants, scales), metric, p from #components to n, "
        "one of the three models. Oracle: exhaustive enumeration of all "
        "contiguous partitions. Non-trivial: at least two feasible partitions "
        "into p regions.")
CASES = {"quick": 2200, "thorough": 12000}
MIN = {"solved": 150, "flow": 40, "order": 40, "tree": 40,
       "small_units": 60}
CASE_LIMIT = 200
STEP_BUDGET = 3_000_000
ASSUMPTIONS = ["CBC is right (its rare errors are recognized by solving the "
               "same model in other ways); optimality up to 1e-6 relative to the data"]


def gen_(rng, idx, tier):
    nmax = rng.choice([2, 4, 5, 6, 6]) if tier == "quick" else \
        rng.choice([2, 4, 5, 6, 7])
    if idx % 70 == 69 and tier == "thorough":
        nmax = 8
    m = gen.make_map(rng, nmax, max_comps=rng.choice([1, 1, 1, 2, 3]),
                     nmin=rng.choice([1, max(1, nmax - 1)]))
    nb = gen.nbrs_of(m)
    n, c = m["n"], len(ref.components(nb))
    case = {"map": m, "p": rng.randint(c, n),
            "method": rng.choice(["flow", "order", "tree"]),
            "case": rng.choice(["lower", "lower", "upper", "default"]),
            "metric": fits.gen_metric(rng),
            "metric_as": rng.choice(["name", "name", "func", "default"]),
            "attr": gen.make_attr(rng, n)}
    if case["case"] == "default":
        case["method"] = "flow"
    if case["metric_as"] == "default":
        case["metric"] = "euclidean"
    return shrink(rng, fits.decorate(rng, case))


def shrink(rng, case):
    """Attributes in other units."""
    if rng.random() < .4 and "attr_dtype" not in case:
        unit = 10. ** rng.choice([-12, -9, -7, -6, -5, -4, -2, 3, 5])
        case["unit"] = unit
        case["attr"] = [[x * unit for x in r] for r in case["attr"]]
    return case


def solve(case, mon, est=None, what=None):
    from region.p_regions.exact import PRegionsExact
    kw = {}
    if case["case"] != "default":
        kw["method"] = case["method"].upper() if case["case"] == "upper" \
            else case["method"]
    metric = fits.metric(case["metric"])
    if case["metric_as"] == "func" and isinstance(metric, str):
        from sklearn.metrics.pairwise import distance_metrics
        metric = distance_metrics()[metric]
    if case["metric_as"] != "default":
        kw["metric"] = metric
    if case["seed"] % 3:
        kw["solver"] = ("cbc", "CBC")[case["seed"] % 3 - 1]
    est = est or PRegionsExact()
    mon.call(est.fit_from_scipy_sparse_matrix, fits.adj_array(case),
             fits.attr_array(case), case["p"],
             what=what or "exact fit (%s)" % case["method"], **kw)
    return est


def run(case, mon):
    nb = gen.nbrs_of(case["map"])
    with solver.Models() as models:
        try:
            est = solve(case, mon)
        except Violation:
            if not models.solver_errs():
                raise
            mon.count("solver_faults")
            return
    labels = fits.labels_list(est.labels_)
    errs = ref.partition_errors(nb, labels, case["p"])
    if errs:
        mon.fail("%s model: %s" % (case["method"], errs))
    best, count = ref.best_p_regions(nb, case["attr"], case["p"],
                                     case["metric"])
    value = ref.pairwise_objective(labels, case["attr"], case["metric"])
    size = max(abs(x) for r in case["attr"] for x in r)
    if case["metric"] == "cosine":
        size = 1.0
    # rounding of sklearn's distances and the solver's relative gap
    tol = 1e-6 * (abs(best) + size * len(nb))
    mon.count("small_units", case.get("unit", 1) < 1e-3)
    mon.count("solved")
    mon.count(case["method"])
    mon.count("partitions_enumerated", count)
    if value > best + tol and models.solver_errs():
        mon.count("solver_faults")
        return
    mon.check(value <= best + tol, lambda: "%s model: heterogeneity %r, the "
              "optimum is %r (labels %s)" % (case["method"], value, best,
                                             labels))
    mon.check(est.n_regions == case["p"], "n_regions is %r" % est.n_regions)
    mon.check(str(est.method).lower() == case["method"],
              "method is %r" % est.method)
    mon.check(str(est.solver).lower() == "cbc", "solver is %r" % est.solver)
    a, b = np.array([[1.0, 2.0]]), np.array([[4.0, -2.0]])
    got = float(np.asarray(est.metric(a, b)).reshape(-1)[0])
    mon.check(math.isclose(got, ref.METRICS[case["metric"]](a[0], b[0]),
                           rel_tol=1e-9), "metric is not the requested one")
    if 2 in (len(c) for c in ref.components(nb)) or \
            len(ref.components(nb)) > 1:
        mon.count("multi_component")
    mon.seen("instances", (case["map"]["edges"], case["p"], case["method"]))
    mon.nontrivial = count > 1
