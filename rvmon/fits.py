"""Building region's objects from JSON-able case descriptions."""
import contextlib
import io
import random

import numpy as np

from . import gen, ref

ALGOS = ("azp", "sa", "basic", "reactive")
METRIC_NAMES = ("manhattan", "euclidean", "cityblock", "l1", "l2", "cosine")
# functions of a user: return a Python float, a numpy scalar, a 1x1 matrix
OWN_METRICS = ("py:manhattan", "py:euclidean", "py:chebyshev", "np:manhattan",
               "np:chebyshev", "mat:manhattan")


def metric(name):
    """Name of a metric as region knows it, or a function of a user."""
    if ":" not in name:
        return name
    ret, base = name.split(":")
    d = ref.METRICS[base]

    def own(a, b):
        a, b = np.asarray(a), np.asarray(b)
        assert a.size == b.size, "metric of %s and %s" % (a.shape, b.shape)
        v = d(a.reshape(-1).tolist(), b.reshape(-1).tolist())
        return {"py": float, "np": np.float64,
                "mat": lambda x: np.array([[x]])}[ret](v)
    return own


def gen_metric(rng, own=.2):
    return rng.choice(OWN_METRICS if rng.random() < own else METRIC_NAMES)


def gen_objective(rng, center=True):
    """Objective function spec."""
    if center and rng.random() < 0.4:
        return {"kind": "center", "metric": gen_metric(rng),
                "center": rng.choice(["mean", "median"]),
                "reduction": rng.choice(["sum", "sum", "max", "mean"])}
    return {"kind": "pairwise", "metric": gen_metric(rng)}


def objective(spec, cls=None):
    from region import objective_function as of
    if spec is None:
        return of.ObjectiveFunctionPairwise()
    if spec["kind"] == "pairwise":
        return of.ObjectiveFunctionPairwise(metric=metric(spec["metric"]))
    return of.ObjectiveFunctionCenter(
        metric=metric(spec["metric"]), center=getattr(np, spec["center"]),
        reduction=getattr(np, spec["reduction"]))


def ref_objective(spec, labels, attr):
    if spec is None:
        return ref.pairwise_objective(labels, attr, "manhattan")
    if spec["kind"] == "pairwise":
        return ref.pairwise_objective(labels, attr, spec["metric"])
    return ref.center_objective(labels, attr, spec["metric"], spec["center"],
                                spec["reduction"])


def gen_algo(rng, kinds=ALGOS):
    a = {"algo": rng.choice(kinds), "random_state": rng.choice(
        [rng.randrange(10 ** 6), rng.randrange(10 ** 6), "seed%d" %
         rng.randrange(99)])}
    if a["algo"] == "sa":
        a.update(init_temperature=rng.choice([0.1, 1.0, 10.0, 100.0]),
                 max_iterations=rng.choice([1, 2, 5]),
                 sa_moves_term=rng.choice([1, 3, 10]),
                 nonmoving=rng.choice([1, 2, 3]),
                 reps=rng.choice([1, 2, 5]))
    elif a["algo"] == "basic":
        a.update(tabu_length=rng.choice([1, 2, 5, 10, 85]),
                 reps=rng.choice([1, 2, 5]))
    elif a["algo"] == "reactive":
        a.update(max_iterations=rng.choice([1, 2, 5, 30, 1000]),
                 k1=rng.choice([0, 0, 1, 2, 30]),
                 k2=rng.choice([0, 1, 2, 30]))
    return a


def random_state(rs):
    """Bytes are written as {"bytes": text} in the (JSON) cases."""
    if isinstance(rs, dict):
        (kind, text), = rs.items()
        return {"bytes": bytes, "bytearray": bytearray}[kind](text.encode())
    return rs


def estimator(a, strategy=None):
    from region.p_regions import azp
    k = a["algo"]
    rs = random_state(a.get("random_state"))
    if k == "azp":
        return azp.AZP(allow_move_strategy=strategy, random_state=rs)
    if k == "sa":
        mi = a.get("max_iterations")
        return azp.AZPSimulatedAnnealing(
            init_temperature=a["init_temperature"],
            max_iterations=float("inf") if mi is None else mi,
            sa_moves_term=a["sa_moves_term"],
            nonmoving_steps_before_stop=a["nonmoving"],
            repetitions_before_termination=a["reps"], random_state=rs)
    if k == "basic":
        return azp.AZPBasicTabu(tabu_length=a["tabu_length"],
                                repetitions_before_termination=a["reps"],
                                random_state=rs)
    return azp.AZPReactiveTabu(max_iterations=a["max_iterations"],
                               k1=a["k1"], k2=a["k2"], random_state=rs)


def labels_list(labels):
    return [x.item() if hasattr(x, "item") else x for x in labels]


def attr_array(case):
    a = np.array(case["attr"], dtype=case.get("attr_dtype", float))
    if case.get("attr_view"):
        # columns of a bigger table, or in Fortran order
        big = np.full((2 * len(a), a.shape[1] + 1), 77, dtype=a.dtype)
        big[::2, 1:] = a
        a = big[::2, 1:] if case["attr_view"] == "strided" else \
            np.asfortranarray(a)
    if case.get("flat") and a.shape[1] == 1:
        a = a[:, 0]
    return a


def adj_array(case):
    return gen.adj_of(case["map"], dtype=case.get("dtype", "float64"),
                      weights=case.get("weights"),
                      scramble=case.get("scramble"),
                      holes=case.get("holes") or (),
                      loops=case.get("loops") or ())


def decorate(rng, case):
    """Vary the representation of the adjacency matrix."""
    r = rng.random()
    if r < 0.15:
        case["dtype"] = rng.choice(["int64", "int32", "float32", "int8"])
    elif r < 0.3:
        case["weights"] = [round(rng.uniform(0.1, 3), 3)
                           for _ in case["map"]["edges"]]
    if rng.random() < 0.1:
        # areas that are neighbours of themselves
        n = case["map"]["n"]
        case["loops"] = sorted(set(rng.sample(range(n), rng.randint(1, n))))
    if rng.random() < 0.15:
        # stored zeros: no links
        n = case["map"]["n"]
        links = {tuple(e) for e in case["map"]["edges"]}
        pairs = {(rng.randrange(n), rng.randrange(n))
                 for _ in range(rng.randint(1, 2 * n))}
        if rng.random() < .5:
            pairs |= {(b, a) for a, b in pairs}
        case["holes"] = sorted([a, b] for a, b in pairs if
                               (min(a, b), max(a, b)) not in links
                               and a not in case.get("loops", ()))
    if rng.random() < 0.2:
        case["scramble"] = rng.randrange(1000)
    if rng.random() < 0.3:
        case["flat"] = True
    if "attr" in case and not case.get("exact") and \
            (case.get("algo") or {}).get("algo") != "sa" and \
            rng.random() < 0.12:
        # integer attributes
        case["attr_dtype"] = rng.choice(["int64", "int32", "uint8", "int8",
                                         "uint64", "bool"])
        top = 1 if case["attr_dtype"] == "bool" else \
            rng.choice([3, 20, 120])
        case["attr"] = [[rng.randint(0, top) for _ in r]
                        for r in case["attr"]]
    if "attr" in case and rng.random() < 0.1:
        case["attr_view"] = rng.choice(["strided", "fortran"])
    return case


def label_array(rng_seed, labels):
    """labels as array, in one of the usual dtypes"""
    rnd = random.Random(rng_seed)
    whole = all(l == int(l) for l in labels)
    dt = rnd.choice((["int32"] if max(map(abs, labels)) < 2 ** 31 else [])
                    + ["int64", "float64"]) if whole else "float64"
    if rnd.random() < .25 and whole and all(0 <= l < 128 for l in labels):
        dt = rnd.choice(["int8", "uint8", "int16", "uint64", "float32"])
    if whole and set(labels) <= {0, 1} and rnd.random() < .1:
        dt = "bool"
    return np.array(labels, dtype=dt)


@contextlib.contextmanager
def muted():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def budget(algo, n, factor=1):
    """Step budgets: about 30 times the most the unchanged tree needed in tens
    of thousands of runs on maps of up to 20 areas (10 times for simulated
    annealing, whose runs are long)."""
    base = {"azp": 60_000, "basic": 250_000, "reactive": 90_000,
            "sa": 700_000}[algo]
    return int(base * factor * max(1.0, (n / 20) ** 2))
