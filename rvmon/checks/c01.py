"""Heuristic p-regions fits yield valid regionalizations."""
from .. import fits, gen, ref

RULE = ("A case = random map (17 shapes, up to 5 disconnected parts), random "
        "attributes, n_regions from #components to n, algorithm with random "
        "parameters, objective, with or without initial labels. Non-trivial: "
        "more than one region in some component with a non-empty choice "
        "(#components < p < n).")
CASES = {"quick": 900, "thorough": 14000}
MIN = {"fits": 300, "multi_component": 40, "initial_given": 60, "tabu_from_labels": 600}
ASSUMPTIONS = ["symmetric contiguity (stored zeros are no links, links of an area to itself are ignored), finite attributes"]


def gen_case(rng, nmax, kinds=fits.ALGOS, sa_generic=True, m=None):
    algo = fits.gen_algo(rng, kinds)
    m = m or gen.make_map(rng, nmax, max_comps=rng.choice([1, 1, 2, 3, 5]))
    nb = gen.nbrs_of(m)
    n, c = m["n"], len(ref.components(nb))
    p = rng.choice([c, n, rng.randint(c, n), rng.randint(c, n),
                    min(n, c + 1), min(n, c + 2), max(c, n - 1)])
    kind = rng.choice(gen.GENERIC) if algo["algo"] == "sa" and sa_generic \
        else None
    case = {"map": m, "p": p, "algo": algo,
            "attr": gen.make_attr(rng, n, kind),
            "objective": fits.gen_objective(rng)}
    if case["objective"]["metric"] == "cosine" and algo["algo"] == "sa":
        # cosine distances of one attribute are all equal: a plateau
        case["attr"] = gen.make_attr(rng, n, kind, dim=3)
    if algo["algo"] == "sa" and sa_generic:
        case["objective"] = {"kind": "pairwise",
                             "metric": case["objective"]["metric"]} \
            if case["objective"].get("reduction") == "max" \
            else case["objective"]
    fits.decorate(rng, case)
    if rng.random() < 0.35:
        init = gen.random_partition(rng, nb, p)
        case["init"] = gen.any_labels(rng, init) if rng.random() < .5 \
            else init
    return case


def gen_big(rng):
    """Hundreds of areas and regions; searches cut short."""
    case = gen_case(rng, 0, ("azp", "reactive", "sa"),
                    m=gen.big_map(rng, rng.choice([1, 3, 40])))
    n, c = case["map"]["n"], len(ref.components(gen.nbrs_of(case["map"])))
    case["p"] = rng.choice([c, n, max(c, n - 20), max(c, n // 2)])
    case["objective"] = {"kind": "pairwise", "metric": "manhattan"}
    case["algo"].update(max_iterations=1, nonmoving=1, reps=1,
                        sa_moves_term=1)
    case.pop("init", None)
    if rng.random() < .5:
        case["init"] = gen.any_labels(rng, gen.random_partition(
            rng, gen.nbrs_of(case["map"]), case["p"]))
    return case


def gen_tabu(rng):
    """Basic tabu from bad start labels: tabu moves tempt it, and some of them
    have become illegal in the meantime. Many small fits."""
    many = []
    for _ in range(6):
        m = gen.make_map(rng, rng.choice([9, 12, 16, 16]), nmin=6)
        nb = gen.nbrs_of(m)
        p = rng.choice([2, 2, 3, 4])
        many.append({
            "map": m, "p": p, "attr": gen.make_attr(rng, m["n"], dims=(1, 2)),
            "init": gen.random_partition(rng, nb, p), "seed": 0,
            "algo": {"algo": "basic", "tabu_length": rng.choice([2, 5, 40]),
                     "reps": rng.choice([1, 2]), "random_state": 1}})
    return {"many": many}


def gen_(rng, idx, tier):
    if idx % 100 == 77:
        return gen_big(rng)
    if idx % 3 == 1:
        return gen_tabu(rng)
    nmax = rng.choice([3, 6, 10, 16, 16, 25]) if tier == "quick" else \
        rng.choice([3, 6, 10, 16, 25, 40])
    if idx % 60 == 59:
        nmax = 60
    case = gen_case(rng, nmax)
    if nmax == 60 or (tier == "thorough" and nmax == 40):
        if case["algo"]["algo"] == "sa":
            case["algo"]["max_iterations"] = 1
    return case


def fit(case, mon, est=None, budget=None):
    est = est or fits.estimator(case["algo"])
    kw = {}
    if case.get("init") is not None:
        kw["initial_labels"] = fits.label_array(case["seed"], case["init"])
    if case.get("objective") is not None:
        kw["objective_func"] = fits.objective(case["objective"])
    mon.call(est.fit_from_scipy_sparse_matrix, fits.adj_array(case),
             fits.attr_array(case), case["p"], what=case["algo"]["algo"] +
             " fit", budget=budget or fits.budget(
                 case["algo"]["algo"], case["map"]["n"]), **kw)
    return est


def run(case, mon):
    if "many" in case:
        for c in case["many"]:
            run(c, mon)
            mon.count("tabu_from_labels")
        return
    nb = gen.nbrs_of(case["map"])
    est = fit(case, mon)
    labels = fits.labels_list(est.labels_)
    for e in ref.partition_errors(nb, labels, case["p"]):
        mon.bad("%s: %s" % (case["algo"]["algo"], e))
    c = len(ref.components(nb))
    mon.count("fits")
    mon.count("fits_" + case["algo"]["algo"])
    mon.count("areas_checked", len(labels))
    mon.count("regions_checked", case["p"])
    if c > 1:
        mon.count("multi_component")
    if "init" in case:
        mon.count("initial_given")
        if ref.partition_key(case["init"]) != ref.partition_key(labels):
            mon.count("moved_from_initial")
    mon.maximum("areas", len(labels))
    mon.seen("regionalizations", (sorted(map(tuple, case["map"]["edges"])),
                                  ref.partition_key(labels)))
    mon.nontrivial = c < case["p"] < len(nb)


