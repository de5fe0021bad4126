"""Exact max-p: feasible, maximal p, least heterogeneity."""
import math

import numpy as np

from .. import fits, gen, ref, solver
from ..errors import Violation
from . import c05, c08

RULE = ("A case = random small map, attributes, metric, 1-2 non-negative "
        "spatially extensive attributes, scalar or vector threshold. Oracle: "
        "exhaustive enumeration. Non-trivial: at least two feasible "
        "partitions.")
CASES = {"quick": 1600, "thorough": 8000}
MIN = {"solved": 100, "vector_threshold": 15, "small_extensive_units": 40}
CASE_LIMIT = 300
STEP_BUDGET = 3_000_000
ASSUMPTIONS = ["CBC is right (its rare errors are recognized by solving the "
               "same model in other ways); optimality up to 1e-6 relative to the data"]


def gen_(rng, idx, tier):
    nmax = rng.choice([2, 3, 4, 4, 5]) if tier == "quick" else \
        rng.choice([3, 4, 5, 5])
    m = gen.make_map(rng, nmax, max_comps=rng.choice([1, 1, 1, 2]),
                     nmin=max(1, nmax - 1))
    nb = gen.nbrs_of(m)
    n = m["n"]
    k = rng.choice([1, 1, 2])
    kind = rng.choice(["int", "float", "ones", "big", "mixed"])
    f = {"int": lambda: float(rng.randint(0, 9)),
         "float": lambda: rng.randrange(0, 80) / 8,
         "big": lambda: float(rng.choice([0, 30, 70, 100, 127])),
         "mixed": lambda: float(rng.choice([0, 1, 2, 5, 2 ** 20, 2 ** 30])),
         "ones": lambda: 1.0}[kind]
    ext = [[f() for _ in range(k)] for _ in range(n)]
    lim = [min(sum(ext[i][c] for i in comp) for comp in ref.components(nb))
           for c in range(k)]
    frac = rng.choice([.1, .2, .35, .5, .7, 1])
    if kind == "mixed":
        frac = rng.choice([2 ** -20, 2 ** -29, 2 ** -10, frac])
    if k == 1 or rng.random() < .4:
        t = round(min(lim) * frac * 8) / 8
        t = min(t, min(lim))
    else:
        t = [min(round(x * frac * 8) / 8, x) for x in lim]
    if idx % 8 == 0:
        return balance(rng)
    if idx % 40 == 3:
        # no condition at all
        t = rng.choice([-1e300, -1e200, -5.0, 0.0])
        t = t if k == 1 or rng.random() < .5 else [t, rng.choice([t, 1e-9])]
        for r in ext:
            r[-1] = max(r[-1], 1.0)
    case = {"map": m, "attr": gen.make_attr(
        rng, n, rng.choice(["uniform", "normal", "ties", "constant",
                            "duplicates", "large", "negative", "small"])),
            "ext": ext, "threshold": t, "ext_dtype": c05.ext_dtype(
                rng, "huge" if kind == "mixed" else kind),
            "ext_flat": k == 1 and rng.random() < .4,
            "metric": fits.gen_metric(rng)}
    case = c08.shrink(rng, fits.decorate(rng, case))
    if rng.random() < .3:
        # other units of the extensive attributes (exact: powers of two)
        units = [rng.choice([-40, -30, -20, -12, 10, 24]) for _ in range(k)]
        if not isinstance(t, list):
            units = units[:1] * k
        ldexp = math.ldexp
        case.update(ext_dtype="float64", ext_units=units, ext=[
            [ldexp(x, u) for x, u in zip(r, units)] for r in ext])
        case["threshold"] = [ldexp(x, u) for x, u in zip(t, units)] \
            if isinstance(t, list) else ldexp(t, units[0])
    return case


def balance(rng):
    """The most regions cost much heterogeneity that fewer would not."""
    path = list(range(4))
    rng.shuffle(path)
    x = round(10 ** rng.uniform(-1, 4), 3)
    attr, ext = [None] * 4, [None] * 4
    for a, v, e in zip(path, (0, 0, x, x), (2, 1, 1, 2)):
        attr[a], ext[a] = [v + rng.choice([0, 0, x / 64])], [float(e)]
    return fits.decorate(rng, {
        "map": {"n": 4, "kind": "path", "edges": sorted(
            sorted(e) for e in zip(path, path[1:]))},
        "attr": attr, "ext": ext, "threshold": rng.choice([2.0, 1.5]),
        "ext_dtype": "float64", "ext_flat": rng.random() < .4,
        "metric": rng.choice(["manhattan", "euclidean"])})


def run(case, mon):
    from region.max_p_regions.exact import MaxPRegionsExact

    nb = gen.nbrs_of(case["map"])
    est = MaxPRegionsExact()
    t = c05.thr(case)
    if np.ndim(t) == 0 and t == -1e300:
        t = -math.inf    # (JSON has no infinity)
    with solver.Models() as models:
        try:
            mon.call(est.fit_from_scipy_sparse_matrix, fits.adj_array(case),
                     fits.attr_array(case), c05.ext_array(case), t,
                     metric=fits.metric(case["metric"]), what="exact max-p fit",
                     **({"solver": ("cbc", "CBC")[case["seed"] % 3 - 1]}
                        if case["seed"] % 3 else {}))
        except Violation:
            if not models.solver_errs():
                raise
            mon.count("solver_faults")
            return
    labels = fits.labels_list(est.labels_)
    errs = ref.partition_errors(nb, labels) + ref.threshold_errors(
        labels, case["ext"], case["threshold"])
    if errs:
        mon.fail("infeasible: %s" % errs)
    p, best, count = ref.best_max_p(nb, case["attr"], case["ext"],
                                    case["threshold"], case["metric"])
    mon.count("solved")
    mon.count("partitions_enumerated", count)
    if isinstance(case["threshold"], list):
        mon.count("vector_threshold")
    if len(ref.components(nb)) > 1:
        mon.count("multi_component")
    got = len(set(labels))
    if got < p and models.solver_errs():
        mon.count("solver_faults")
        return
    mon.check(got == p, lambda: "p=%d, the maximum is %d" % (got, p))
    value = ref.pairwise_objective(labels, case["attr"], case["metric"])
    size = max(abs(x) for r in case["attr"] for x in r)
    total = ref.pairwise_objective([0] * len(nb), case["attr"],
                                   case["metric"])
    if case["metric"] == "cosine":
        size = 1.0
    tol = 1e-6 * (total * 10 * len(nb) + size * len(nb))
    mon.count("small_extensive_units", min(case.get("ext_units", [0])) < -9)
    if got == p and value > best + tol and models.solver_errs():
        mon.count("solver_faults")
        return
    mon.check(got != p or value <= best + tol, lambda: "heterogeneity %r, the "
              "least with p=%d is %r" % (value, p, best))
    mon.seen("instances", (case["map"]["edges"], case["threshold"]))
    mon.nontrivial = count > 1
