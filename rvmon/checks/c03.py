"""Local search never worsens a given start; AZP ends in a local optimum."""
from .. import fits, gen, ref

RULE = ("A case = random map, random attributes, random objective (pairwise "
        "or center based, 6 metrics, 3 reductions), random feasible initial "
        "labels; AZP, basic tabu, reactive tabu and annealing at temperature ~0 run from them. Objective "
        "before and after, and after every single legal move from the AZP "
        "result, come from the reference definition. Non-trivial: the result "
        "differs from the start.")
CASES = {"quick": 1100, "thorough": 18000}
MIN = {"compared": 400, "local_optima_checked": 80, "improved": 100}
STEP_BUDGET = 2_000_000
ASSUMPTIONS = ["local optimality only where no two moves tie within 1e-7"]


def gen_(rng, idx, tier):
    clusters = idx % 6 == 0
    m = gen.make_map(rng, rng.choice([4, 6, 9, 12, 16]),
                     max_comps=rng.choice([1, 1, 2, 3])) \
        if not clusters else gen.make_map(rng, 24, nmin=14)
    nb = gen.nbrs_of(m)
    n, c = m["n"], len(ref.components(nb))
    p = rng.choice([rng.randint(c, n), min(n, c + 1), min(n, c + 2),
                    min(n, c + 3)])
    algo = fits.gen_algo(rng, ("azp", "azp", "basic", "reactive")
                         if not clusters else ("azp", "azp", "reactive"))
    if clusters:
        p = rng.randint(c + 1, 7)
    kind = rng.choice(gen.GENERIC) if algo["algo"] == "azp" and \
        rng.random() < .7 else None
    dyadic = rng.random() < .3 or clusters
    if not dyadic and rng.random() < .12:
        # frozen: no worsening move is ever accepted
        algo = {"algo": "sa", "init_temperature": rng.choice([1e-13, 1e-11]),
                "max_iterations": rng.choice([1, 3]), "sa_moves_term": 1,
                "nonmoving": 1, "reps": 1, "random_state": rng.randrange(99)}
        kind = "uniform"
    case = {"map": m, "p": p, "algo": algo,
            "attr": gen.make_attr(rng, n, kind, dims=(1, 2, 3)),
            "objective": fits.gen_objective(rng) if rng.random() < .85
            else None,
            "init": gen.random_partition(rng, nb, p)}
    if rng.random() < .3:
        case["init"] = gen.any_labels(rng, case["init"])
    if algo["algo"] == "sa":
        case["attr"] = [[10 * x for x in r] for r in gen.make_attr(
            rng, n, "uniform", dim=3)]
        case["objective"] = {"kind": "pairwise", "metric": rng.choice(
            ["manhattan", "euclidean"])}
    if dyadic:
        case["exact"] = True
        case["attr"] = gen.dyadic_attr(rng, n, clusters=clusters or None)
        case["objective"] = rng.choice([None] + [
            {"kind": "pairwise", "metric": x}
            for x in ("manhattan", "cityblock", "l1")])
    return fits.decorate(rng, case)


def run(case, mon):
    from . import c01
    nb = gen.nbrs_of(case["map"])
    est = c01.fit(case, mon)
    labels = fits.labels_list(est.labels_)
    errs = ref.partition_errors(nb, labels, case["p"])
    if errs:
        mon.fail("result is no regionalization: %s" % errs)
    spec, attr = case["objective"], case["attr"]
    before = fits.ref_objective(spec, case["init"], attr)
    after = fits.ref_objective(spec, labels, attr)
    size = max(abs(before), max(abs(x) for r in attr for x in r), 1e-9)
    # sklearn's euclidean distances of (nearly) equal points are only good to
    # about sqrt(eps) of the points' norm
    # (sums of dyadic values are exact)
    tol = 0 if case.get("exact") else 1e-6 * size
    mon.count("compared")
    mon.check(after <= before + tol, lambda: "%s made the objective worse: "
              "%r -> %r" % (case["algo"]["algo"], before, after))
    if after < before - tol:
        mon.count("improved")
    mon.nontrivial = ref.partition_key(labels) != ref.partition_key(
        case["init"])
    steepest = case["algo"]["algo"] == "reactive" and \
        case["algo"]["max_iterations"] >= 1000
    if case["algo"]["algo"] != "azp" and not steepest:
        return
    # local optimality, where rounding cannot decide
    moves = ref.legal_moves(nb, labels)
    better, tied = None, False
    for area, new in moves:
        moved = list(labels)
        moved[area] = new
        diff = fits.ref_objective(spec, moved, attr) - after
        mon.count("moves_evaluated")
        if abs(diff) <= tol:
            tied = True
        elif diff < 0 and (better is None or diff < better[2]):
            better = (area, new, diff)
    if better and not tied and (case.get("exact") or not reachable_ties(
            nb, case, labels, tol)):
        mon.bad("%s stopped although moving area %d to region %s changes the "
                "objective by %r" % ((case["algo"]["algo"],) + better))
    if not tied:
        mon.count("local_optima_checked")
        mon.count("steepest_optima", steepest)
        mon.count("exact_local_optima", bool(case.get("exact")))


def reachable_ties(nb, case, labels, tol):
    """Objectives with a max reduction or repeated attributes have plateaus
    the search may have walked along before it stopped."""
    spec = case["objective"]
    if spec and (spec.get("reduction") == "max"
                 or spec.get("center") == "median"):
        return True
    rows = [tuple(r) for r in case["attr"]]
    if spec and spec["metric"] == "cosine":
        return True
    return len(set(rows)) < len(rows)
