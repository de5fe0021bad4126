"""Bounded termination in logical steps."""
from .. import fits, gen, skat
from . import c01

RULE = ("A case = a fit that is likely not to end if anything cycles: "
        "constant, tied, duplicated or badly scaled attributes on maps with "
        "several parts, every metric, every heuristic (simulated annealing: "
        "data without ties), max-p with every local search, SKATER with "
        "unreachable quorums. The step counter (loop iterations inside "
        "region) must stay below a budget at least 30 times what the "
        "unchanged tree ever needs. Non-trivial: more than one region "
        "possible.")
CASES = {"quick": 900, "thorough": 16000}
MIN = {"fits": 300, "plateau": 100, "maxp": 60, "skater": 20}
CASE_LIMIT = 240
ASSUMPTIONS = ["simulated annealing only on data without ties: see DESIGN.md"]


def gen_(rng, idx, tier):
    r = rng.random()
    if r < 0.3:
        return gen_maxp(rng, tier)
    if r < 0.4:
        case = skat.gen_case(rng, rng.choice([3, 6, 10, 15]))
        n = case["map"]["n"]
        case.update(what="skater", k=rng.choice([1, 2, n, n + 3, 10 * n]),
                    quorum=rng.choice([None, 1, 2, n // 2 + 1]),
                    islands=rng.choice(["increase", "ignore"]))
        return case
    if r < 0.6:
        return gen_plateau(rng)
    nmax = rng.choice([3, 5, 8, 12, 20])
    case = c01.gen_case(rng, nmax)
    n = case["map"]["n"]
    if case["algo"]["algo"] != "sa":
        kind = rng.choice(["constant", "ties", "duplicates", "uniform",
                           "large", "small", "negative"])
        case["attr"] = gen.make_attr(rng, n, kind)
        if kind in ("constant", "ties", "duplicates") and rng.random() < .5:
            s = rng.choice([0.1, 1 / 3, 1e-5, 1e7, 0.7])
            case["attr"] = [[x * s for x in r] for r in case["attr"]]
        case["attr_kind"] = kind
    case["what"] = "p"
    return case


def gen_plateau(rng):
    """Tabu searches that find any number of equal moves."""
    n = rng.choice([6, 6, 8, 9, 9, 12])
    kind = rng.choice(["grid", "queen", "complete", "cycle", "any"])
    m = gen.make_map(rng, n)
    if kind in ("grid", "queen"):
        k, e = gen._grid(3, n // 3, kind == "queen")
        m = {"n": k, "edges": [list(x) for x in e], "kind": kind}
    elif kind == "complete":
        k = min(n, 9)
        m = {"n": k, "edges": [[i, j] for j in range(k) for i in range(j)],
             "kind": kind}
    elif kind == "cycle":
        m = {"n": n, "edges": [[i, i + 1] for i in range(n - 1)] +
             [[0, n - 1]], "kind": kind}
    n = m["n"]
    akind = rng.choice(["constant", "constant", "ties", "duplicates"])
    algo = fits.gen_algo(rng, ("basic", "basic", "reactive"))
    if algo["algo"] == "basic":
        algo.update(reps=rng.choice([1, 2, 5] if n < 10 else [1, 2]),
                    tabu_length=rng.choice([1, 2, 3, 5, 10, 85]))
    # (the unchanged tree needs up to 14000 steps)
    return {"what": "p", "map": m, "algo": algo, "attr_kind": akind,
            "budget": 120_000,
            "p": max(1, min(n, rng.choice([n // 3, n // 2, 2, 3, n - 1]))),
            "attr": gen.make_attr(rng, n, akind),
            "objective": fits.gen_objective(rng)}


def gen_maxp(rng, tier):
    m = gen.make_map(rng, rng.choice([4, 8, 12, 16]))
    n = m["n"]
    kind = rng.choice(["constant", "ties", "duplicates", "uniform"])
    return {"what": "maxp", "map": m, "attr": gen.make_attr(rng, n, kind),
            "attr_kind": kind,
            "ext": [[float(rng.randint(0, 5))] for _ in range(n)],
            "frac": rng.random(),
            "algo": fits.gen_algo(rng, ("azp", "basic", "reactive")),
            "objective": fits.gen_objective(rng),
            "max_it": rng.choice([1, 3, 6])}


def run(case, mon):
    n = case["map"]["n"]
    if case["what"] == "p":
        c01.fit(case, mon, budget=case.get("budget"))
        name = case["algo"]["algo"]
    elif case["what"] == "skater":
        import numpy as np
        w, nb, order = skat.weights_of(case)
        data = np.array([case["data"][a] for a in order])
        kw = {} if case["quorum"] is None else {"quorum": case["quorum"]}
        mon.attempt(skat.build(case["spec"]).fit, case["k"], w, data,
                    what="SKATER fit", islands=case["islands"],
                    budget=2000 * (n + 5), **kw)
        mon.count("skater")
        name = "skater"
    else:
        from region.max_p_regions.heuristics import MaxPRegionsHeu
        import numpy as np
        ext = np.array(case["ext"])
        name = case["algo"]["algo"]
        h = MaxPRegionsHeu(local_search=fits.estimator(case["algo"]),
                           random_state=case["seed"])
        mon.call(h.fit_from_scipy_sparse_matrix, fits.adj_array(case),
                 fits.attr_array(case), ext, case["frac"] * float(ext.sum()),
                 max_it=case["max_it"],
                 objective_func=fits.objective(case["objective"]),
                 what="max-p with " + name, budget=fits.budget(name, n, 10))
        mon.count("maxp")
    mon.count("fits")
    mon.count("fits_" + name)
    if case.get("attr_kind") in ("constant", "ties", "duplicates"):
        mon.count("plateau")
    mon.maximum("steps_" + case["what"] + "_" + name, mon.max_steps)
    mon.nontrivial = n > 2
