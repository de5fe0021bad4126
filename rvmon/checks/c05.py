"""Max-p heuristic: every result is feasible."""
import numpy as np

from .. import fits, gen, ref

RULE = ("A case = random map (also several components), random non-negative "
        "spatially extensive attributes (1 to 3 of them, int or float, 1-d or "
        "2-d), scalar or vector threshold that every component can reach, "
        "every kind of local search, random objective. The result is checked "
        "against the definition. Non-trivial: more than one region, some "
        "region larger than one area.")
CASES = {"quick": 700, "thorough": 9000}
MIN = {"fits": 200, "multi_ext": 40, "vector_threshold": 20,
       "multi_component": 40}
ASSUMPTIONS = ["non-negative spatially extensive attributes",
               "each component's totals reach the threshold"]
LOCAL = ("none", "azp", "azp", "sa", "basic", "reactive")


def ext_dtype(rng, kind):
    if kind == "huge":
        return rng.choice(["float64", "int64"])
    if rng.random() < .4:
        return "float64"
    if kind == "float":
        return rng.choice(["float64", "float32", "float16"])
    if kind == "ones" and rng.random() < .3:
        return "bool"
    return rng.choice(["int64", "int64", "int32", "int8", "uint8", "int16",
                       "float32"])


def gen_case(rng, nmax, nmin=1,
             fracs=(0, 0.1, 0.2, 0.3, 0.5, 0.8, 1.0), m=None):
    m = m or gen.make_map(rng, nmax, nmin=nmin,
                          max_comps=rng.choice([1, 1, 1, 2, 3]))
    nb = gen.nbrs_of(m)
    n = m["n"]
    algo = rng.choice(LOCAL)
    algo = {"algo": "none"} if algo == "none" else fits.gen_algo(rng, (algo,))
    if algo["algo"] == "sa":
        algo.update(max_iterations=rng.choice([1, 2]), nonmoving=1, reps=1)
    k = rng.choice([1, 1, 1, 2, 3])
    kind = rng.choice(["int", "int", "float", "skew", "zeros", "ones",
                       "big", "huge"])
    f = {"huge": lambda: float(rng.randint(0, 3) * 2**30 + rng.randint(0, 4)),
         # sums of "huge" are exact in doubles, not in single precision
         "int": lambda: float(rng.randint(0, 9)),
         # multiples of 1/8: sums are exact
         "float": lambda: rng.randrange(0, 80) / 8,
         "skew": lambda: float(rng.choice([0, 1, 1, 2, 50])),
         "zeros": lambda: float(rng.choice([0, 0, 0, 4])),
         # near the end of the range of int8
         "big": lambda: float(rng.choice([0, 30, 70, 100, 127])),
         "ones": lambda: 1.0}[kind]
    ext = [[f() for _ in range(k)] for _ in range(n)]
    comps = ref.components(nb)
    lim = [min(sum(ext[i][c] for i in comp) for comp in comps)
           for c in range(k)]
    scalar = k == 1 or rng.random() < 0.5
    frac = rng.choice(fracs)
    if scalar:
        t = round(min(lim) * frac, 2)
        t = min(t, min(lim))
        if rng.random() < .3:
            t = float(int(t))
    else:
        t = [min(round(x * rng.choice([frac, 0.1, 0.3]), 2), x) for x in lim]
    if kind == "huge" and scalar:
        t = min(min(lim), float(rng.randint(1, 6) * 2**30 +
                                rng.randint(0, 9)))
    case = {"map": m, "algo": algo, "ext": ext, "threshold": t,
            "max_it": rng.choice([1, 2, 5, 10]),
            "objective": fits.gen_objective(rng),
            "attr": gen.make_attr(rng, n, rng.choice(gen.GENERIC)
                                  if algo["algo"] == "sa" else None,
                                  dim=3 if algo["algo"] == "sa" else None),
            "ext_dtype": ext_dtype(rng, kind),
            "ext_flat": k == 1 and rng.random() < .3,
            "random_state": rng.choice([None, rng.randrange(1000)])}
    if algo["algo"] == "sa" and case["objective"].get("reduction") == "max":
        case["objective"]["reduction"] = "sum"
    fits.decorate(rng, case)
    return case


def gen_(rng, idx, tier):
    if idx % 150 == 77:
        # hundreds of areas and regions
        case = gen_case(rng, 0, fracs=(0, .005, .01, .03) if idx != 77 else
                        (0,),
                        m=gen.big_map(rng, rng.choice([1, 3]))
                        if idx != 77 else gen.make_map(rng, 300, nmin=260))
        case["max_it"] = 1
        case["objective"] = {"kind": "pairwise", "metric": "manhattan"}
        case["algo"] = rng.choice([{"algo": "none"}, dict(
            fits.gen_algo(rng, ("reactive",)), max_iterations=1)])
        return case
    nmax = rng.choice([3, 6, 10, 14, 18]) if idx % 40 else 36
    case = gen_case(rng, nmax, rng.choice([1, nmax // 2, nmax - 1]))
    if nmax == 36:
        case["max_it"] = 2
        if case["algo"]["algo"] == "sa":
            case["algo"] = {"algo": "none"}
    return case


def ext_array(case):
    e = np.array(case["ext"], dtype=case["ext_dtype"])
    return e[:, 0] if case["ext_flat"] else e


def thr(case):
    t = case["threshold"]
    return np.array(t) if isinstance(t, list) else t


def fit(case, mon, heu=None, local=None):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    algo = case["algo"]["algo"]
    if heu is None:
        ls = None if algo == "none" else fits.estimator(case["algo"])
        heu = MaxPRegionsHeu(local_search=local or ls,
                             random_state=case["random_state"])
    n = case["map"]["n"]
    mon.call(heu.fit_from_scipy_sparse_matrix, fits.adj_array(case),
             fits.attr_array(case), ext_array(case), thr(case),
             max_it=case["max_it"],
             objective_func=fits.objective(case["objective"]),
             what="max-p fit (local search %s)" % algo,
             budget=fits.budget("azp" if algo == "none" else algo, n,
                                10 if algo != "sa" else 3))
    return heu


def run(case, mon):
    nb = gen.nbrs_of(case["map"])
    heu = fit(case, mon)
    if heu.labels_ is None:
        mon.fail("no labels although every component reaches the threshold")
    labels = fits.labels_list(heu.labels_)
    for e in ref.partition_errors(nb, labels):
        mon.bad(e)
    for e in ref.threshold_errors(labels, case["ext"], case["threshold"]):
        mon.bad(e)
    p = len(set(labels))
    mon.count("fits")
    mon.count("fits_" + case["algo"]["algo"])
    mon.count("regions_checked", p)
    if len(case["ext"][0]) > 1:
        mon.count("multi_ext")
    if isinstance(case["threshold"], list):
        mon.count("vector_threshold")
    if len(ref.components(nb)) > 1:
        mon.count("multi_component")
    mon.maximum("areas", len(labels))
    mon.seen("results", (sorted(map(tuple, case["map"]["edges"])),
                         ref.partition_key(labels)))
    mon.nontrivial = 1 < p < len(labels)
