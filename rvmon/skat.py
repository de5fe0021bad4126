"""SKATER: specs, reference scores, building objects."""
import functools
import math
import random
import warnings

import numpy as np

from . import entry, gen, ref

DISS = ("manhattan", "euclidean", "cosine", "affinity")


def gen_spec(rng):
    return {"metric": rng.choice(["manhattan", "manhattan", "euclidean",
                                  "cosine", "affinity"]),
            "scale": rng.choice([1.0, 5.0, 50.0]),
            "reduction": rng.choice(["sum", "sum", "sum", "max", "mean"]),
            "center": rng.choice(["mean", "mean", "median"]),
            "default": rng.random() < .2}


def gen_data(rng, n, spec):
    kind = rng.choice(["uniform", "uniform", "normal", "ties", "constant",
                       "negative", "duplicates", "skewed"])
    if spec["metric"] == "affinity":
        kind = rng.choice(["uniform", "ties", "duplicates", "normal"])
    data = gen.make_attr(rng, n, kind)
    if spec["metric"] != "affinity" and rng.random() < .2:
        s = rng.choice([1e-9, 1e-6, 1e-4, 1e5, 1e9])
        data = [[x * s for x in r] for r in data]
    if spec["metric"] == "affinity":
        # affinities must not underflow to zero
        data = [[min(max(x, -30.0), 30.0) for x in r] for r in data]
    elif rng.random() < .15:
        # whole numbers, passed as such
        return [[int(round(x)) for x in r] for r in data]
    return data


def build(spec):
    from region.skater.skater import Spanning_Forest
    from sklearn.metrics import pairwise as skm
    if spec["default"]:
        return Spanning_Forest()
    kw = {"reduction": getattr(np, spec["reduction"]),
          "center": getattr(np, spec["center"])}
    if spec["metric"] == "affinity":
        return Spanning_Forest(affinity=functools.partial(
            skm.laplacian_kernel, gamma=1 / spec["scale"]), **kw)
    return Spanning_Forest(dissimilarity=getattr(
        skm, spec["metric"] + "_distances"), **kw)


def diss(spec):
    if spec["default"]:
        return ref.manhattan
    if spec["metric"] == "affinity":
        return lambda a, b: ref.manhattan(a, b) / spec["scale"]
    return ref.METRICS[spec["metric"]]


def ref_score(spec, labels, data, quorum=None):
    reg = ref.regions(labels)
    if quorum is not None and any(len(a) < quorum for a in reg.values()):
        return math.inf
    d = diss(spec)
    red = ref.REDUCTIONS["sum" if spec["default"] else spec["reduction"]]
    cen = ref.CENTERS["mean" if spec["default"] else spec["center"]]
    rows = ref.rows(data)
    parts = []
    for areas in reg.values():
        mid = [cen([rows[i][k] for i in areas]) for k in range(len(rows[0]))]
        parts.append(red([d(rows[i], mid) for i in areas]))
    return red(parts)


def tolerance(spec, data):
    """Error of a score computed in floating point."""
    rows = ref.rows(data)
    if spec["metric"] == "cosine" and not spec["default"]:
        return 1e-6 * max(1, len(rows))
    size = max(1e-300, max(abs(x) for r in rows for x in r))
    # euclidean distances in scikit-learn lose half of the digits
    eps = 3e-7 if spec["metric"] == "euclidean" and not spec["default"] \
        else 1e-11
    return eps * size * len(rows) * len(rows[0]) / (
        spec["scale"] if spec["metric"] == "affinity" else 1)


def weights_of(case):
    """W with names in shuffled order; (w, order: position -> area)"""
    from libpysal import weights
    rnd = random.Random(case["seed"])
    nb = gen.nbrs_of(case["map"])
    n = len(nb)
    names = [entry.key(x) for x in case["names"]]
    nd = {k: list(v) for k, v in
          entry.neighbor_dict(nb, names, rnd, list).items()}
    if case["w_kind"] == "weighted":
        val = {}
        w = weights.W(nd, {k: [val.setdefault(frozenset((k, j)),
                                              rnd.uniform(.1, 3))
                               for j in v] for k, v in nd.items()})
    else:
        ids = list(names)
        rnd.shuffle(ids)
        w = weights.W(nd, id_order=ids) if case["w_kind"] == "ids" \
            else weights.W(nd)
        if case["w_kind"] == "row":
            w.transform = "r"
    pos = {x: i for i, x in enumerate(names)}
    order = [pos[x] for x in w.id_order]
    inv = {a: i for i, a in enumerate(order)}
    return w, [{inv[j] for j in nb[a]} for a in order], order


def gen_case(rng, nmax, nmin=2, max_comps=3):
    m = gen.make_map(rng, nmax, nmin=nmin,
                     max_comps=rng.choice([1, 1, 1, max_comps]))
    n = m["n"]
    spec = gen_spec(rng)
    return {"map": m, "spec": spec, "data": gen_data(rng, n, spec),
            "names": entry.names_for(rng, n),
            "w_kind": rng.choice(["plain", "ids", "row", "weighted"])}


def fit(case, mon, est, w, data, k, quorum=None, budget=None, **kw):
    if quorum is not None:
        kw["quorum"] = quorum
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        mon.call(est.fit, k, w, data, what="SKATER fit",
                 budget=budget or 2000 * (case["map"]["n"] + 5), **kw)
    return est, [str(c.message) for c in caught]


def forest(est):
    """set of undirected links of the forest"""
    m = est.minimum_spanning_forest_.tocoo()
    return {(min(int(i), int(j)), max(int(i), int(j)))
            for i, j, v in zip(m.row, m.col, m.data) if v != 0}


def labels_of(n, links):
    nb = [set() for _ in range(n)]
    for i, j in links:
        nb[i].add(j)
        nb[j].add(i)
    out = [None] * n
    for k, c in enumerate(ref.components(nb)):
        for i in c:
            out[i] = k
    return out
