"""Adjacency helpers agree with the graph they are given."""
import random

import numpy as np
from scipy.sparse import csr_matrix

from .. import entry, fits, gen, ref

RULE = ("A case = random map (up to 5 parts, 0 to 30 areas, any dtype, "
        "weights, rows in any order) and node subsets. Oracle: breadth-first "
        "search over neighbour sets for is_connected, neighbors, "
        "sub_adj_matrix (with and without wo_nodes, any node order), "
        "separate_components, and the matrices made from dicts, W objects "
        "and GeoDataFrames. Non-trivial: a map with edges.")
CASES = {"quick": 2500, "thorough": 30000}
MIN = {"subgraphs": 1500, "disconnected_subgraphs": 300, "components": 500,
       "matrices": 1000}
STEP_BUDGET = 1_000_000


def gen_(rng, idx, tier):
    m = gen.make_map(rng, rng.choice([1, 3, 6, 12, 30]),
                     max_comps=rng.choice([1, 2, 5])) if idx % 250 != 77 else \
        gen.big_map(rng, rng.choice([1, 40]))
    nb = gen.nbrs_of(m)
    c = len(ref.components(nb))
    p = rng.randint(c, m["n"])
    case = {"map": m, "labels": gen.random_partition(rng, nb, p),
            "names": entry.names_for(rng, m["n"])}
    if idx % 12 == 0:
        case["grid"] = [rng.randint(1, 4), rng.randint(2, 4)]
    fits.decorate(rng, case)
    case.pop("flat", None)
    return case


def dense(m):
    return (np.asarray(m.todense()) != 0).tolist()


def run(case, mon):
    from region import csgraph_utils as cu
    from region import util
    rnd = random.Random(case["seed"])
    nb = gen.nbrs_of(case["map"])
    n = len(nb)
    adj = fits.adj_array(case)
    got = mon.call(cu.is_connected, adj, what="is_connected")
    mon.check(bool(got) == (len(ref.components(nb)) == 1),
              lambda: "is_connected is %r" % got)
    for i in range(n):
        got = mon.call(cu.neighbors, adj, i, what="neighbors")
        want = sorted(nb[i] | ({i} if i in case.get("loops", ()) else set()))
        mon.check(sorted(int(x) for x in got) == want,
                  lambda: "neighbors of %d: %s instead of %s" % (
                      i, list(got), want))
    full = (adj.toarray()).tolist()
    for _ in range(4):
        nodes = rnd.sample(range(n), rnd.randint(1, n))
        if rnd.random() < .5:
            nodes.sort()
        wo, rest = None, nodes
        if rnd.random() < .5:
            drop = rnd.sample(range(n), rnd.randint(0, min(3, n)))
            if len(drop) == 1 and rnd.random() < .5:
                wo = drop[0]
            else:
                wo = np.array(drop, dtype=int)
            rest = [x for x in nodes if x not in drop]
        arr = np.array(nodes)
        sub = mon.call(cu.sub_adj_matrix, adj, arr, what="sub_adj_matrix",
                       **({} if wo is None else {"wo_nodes": wo}))
        mon.count("subgraphs")
        want = [[full[a][b] for b in rest] for a in rest]
        mon.check(sub.shape == (len(rest), len(rest)) and
                  isinstance(sub, csr_matrix) and
                  sub.toarray().tolist() == want, lambda: "sub_adj_matrix of "
                  "%s without %s is wrong" % (nodes, wo))
        if rest:
            con = ref.connected(nb, rest)
            got = mon.call(cu.is_connected, sub, what="is_connected")
            mon.check(bool(got) == con, lambda: "is_connected says %r of "
                      "the subgraph %s" % (got, rest))
            if not con:
                mon.count("disconnected_subgraphs")
    # separate_components
    labels = np.array(case["labels"])
    parts = mon.call(lambda: list(util.separate_components(adj, labels)),
                     what="separate_components")
    got = sorted([int(x) for x in part] for part in parts)
    want = sorted([case["labels"][i] if i in c else -1 for i in range(n)]
                  for c in ref.components(nb))
    mon.count("components", len(want))
    mon.check(got == want, lambda: "separate_components yields %s instead of "
              "%s" % (got, want))
    # matrices from other representations
    names = [entry.key(x) for x in case["names"]]
    nd = entry.neighbor_dict(nb, names, rnd, rnd.choice([set, list, tuple,
                                                         frozenset]))
    mat = mon.call(util.scipy_sparse_matrix_from_dict, nd,
                   what="scipy_sparse_matrix_from_dict")
    order = sorted(range(n), key=lambda i: names[i])
    want = [[b in nb[a] for b in order] for a in order]
    mon.count("matrices")
    mon.check(dense(mat) == want and isinstance(mat, csr_matrix) and
              set(mat.data.tolist()) <= {1.0},
              "the matrix of a neighbors dict is wrong")
    w = entry.w_of(nb, names, rnd)
    k = rnd.randrange(4)
    if k == 0:
        w.transform = "r"
    elif k == 1:
        # any symmetric positive weights
        from libpysal import weights
        val = {}
        scale = rnd.choice([1e-9, 0.01, 1, 1e6])
        w = weights.W(dict(w.neighbors), {
            a: [val.setdefault(frozenset((a, b)), scale * rnd.uniform(.1, 3))
                for b in ns] for a, ns in w.neighbors.items()},
            silence_warnings=True)
    mat = mon.call(util.scipy_sparse_matrix_from_w, w,
                   what="scipy_sparse_matrix_from_w")
    pos = {x: i for i, x in enumerate(names)}
    order = [pos[x] for x in w.id_order]
    want = [[b in nb[a] for b in order] for a in order]
    mon.count("matrices")
    mon.check(dense(mat) == want, "the matrix of a W object is wrong")
    if "grid" in case:
        r, c = case["grid"]
        order = list(range(r * c))
        rnd.shuffle(order)
        gdf = entry.grid_gdf(r, c, order, [[0.0]] * (r * c))
        for cont in ("rook", "queen", "ROOK", "Queen"):
            w = mon.call(util.w_from_gdf, gdf, cont, what="w_from_gdf")
            mat = mon.call(util.scipy_sparse_matrix_from_w, w,
                           what="scipy_sparse_matrix_from_w")
            e = entry.grid_edges(r, c, order, cont.lower() == "queen")
            want = [[[min(a, b), max(a, b)] in e for b in range(r * c)]
                    for a in range(r * c)]
            mon.count("matrices")
            mon.count("from_gdf")
            mon.check(dense(mat) == want, "the %s contiguity of a "
                      "GeoDataFrame is wrong" % cont)
        for bad in ("bishop", None, 3, ""):
            _, e = mon.attempt(util.w_from_gdf, gdf, bad, what="w_from_gdf")
            mon.check(isinstance(e, ValueError), lambda: "contiguity %r: %r"
                      % (bad, e))
    mon.seen("maps", case["map"]["edges"])
    mon.nontrivial = bool(case["map"]["edges"])
