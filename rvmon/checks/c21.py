"""Converters keep every value attached to its area."""
import random

import numpy as np

from .. import entry, gen, ref

RULE = ("A case = random areas with arbitrary names, values (scalars, "
        "sequences), insertion orders, selections of keys, as dict, graph "
        "attributes, DataFrame columns or lists of regions. Oracle: the value"
        " in a row is the value of the row's area. Non-trivial: names not in "
        "canonical order.")
CASES = {"quick": 2500, "thorough": 30000}
MIN = {"rows": 20000, "graphs": 1500, "frames": 1000, "selections": 1000}
STEP_BUDGET = 1_000_000


def gen_(rng, idx, tier):
    n = rng.choice([1, 2, 3, 5, 8, 15]) if idx % 100 != 77 else 200
    dim = rng.choice([1, 1, 2, 3])
    m = gen.make_map(rng, n, nmin=n)
    n = m["n"]
    k = rng.randint(1, n)
    labels = list(range(k)) + [rng.randrange(k) for _ in range(n - k)]
    rng.shuffle(labels)
    return {"map": m, "names": entry.names_for(rng, n),
            "values": [[rng.choice([rng.uniform(-9, 9),
                                    float(rng.randint(-5, 5))])
                        for _ in range(dim)] for _ in range(n)],
            "scalar": dim == 1 and rng.random() < .6,
            "container": rng.choice(["list", "tuple", "array"]),
            "ints": rng.random() < .2, "labels": labels}


def run(case, mon):
    import networkx as nx
    import pandas as pd
    from region import util
    rnd = random.Random(case["seed"])
    names = [entry.key(x) for x in case["names"]]
    n = len(names)
    vals = case["values"]
    if case["ints"]:
        vals = [[float(int(x)) for x in r] for r in vals]
    make = {"list": list, "tuple": tuple, "array": np.array}[
        case["container"]]
    dim = len(vals[0])
    dct = entry.shuffled_dict(
        names, [r[0] if case["scalar"] else make(r) for r in vals], rnd)
    order = sorted(range(n), key=lambda i: names[i])

    def rows(arr, idx, what):
        mon.count("rows", len(idx))
        mon.check(np.asarray(arr).tolist() == [vals[i] for i in idx],
                  lambda: "%s: %s instead of %s (areas %s)" % (
                      what, np.asarray(arr).tolist(),
                      [vals[i] for i in idx], [names[i] for i in idx]))
    f = util.array_from_dict_values
    rows(mon.call(f, dct, what="array_from_dict_values"), order,
         "array_from_dict_values")
    flat = mon.call(f, dct, flat_output=True, what="array_from_dict_values")
    mon.check(flat.tolist() == [x for i in order for x in vals[i]],
              "flat array_from_dict_values is wrong")
    sel = [rnd.randrange(n) for _ in range(rnd.randint(1, n + 2))]
    keys = [names[i] for i in sel]
    mon.count("selections")
    rows(mon.call(f, dct, sorted_keys=keys, what="array_from_dict_values"),
         sel, "array_from_dict_values of selected keys")
    flat = mon.call(f, dct, sorted_keys=keys, flat_output=True,
                    dtype=np.int32, what="array_from_dict_values")
    mon.check(flat.dtype == np.int32 and flat.tolist() == [
        int(x) for i in sel for x in vals[i]],
        "array_from_dict_values ignores the dtype")
    # graphs
    nb = gen.nbrs_of(case["map"])
    g = entry.graph_of(nb, names, rnd)
    pos = {x: i for i, x in enumerate(names)}
    nodes = [pos[x] for x in g.nodes()]
    idx = list(range(n))
    # attribute names in any order
    attr = rnd.sample(["v0", "v1", "v2", "income", "Area", "x y"], dim)
    for k in range(dim):
        rnd.shuffle(idx)
        nx.set_node_attributes(g, {names[i]: vals[i][k] for i in idx},
                               attr[k])
    arg = attr[0] if dim == 1 and rnd.random() < .5 else \
        rnd.choice([list, tuple])(attr)
    mon.count("graphs")
    for fn in (util.array_from_graph, util.array_from_graph_or_dict):
        rows(mon.call(fn, g, arg, what=fn.__name__), nodes, fn.__name__)
    rows(mon.call(util.array_from_graph_or_dict, g, dct,
                  what="array_from_graph_or_dict"), nodes,
         "array_from_graph_or_dict of a dict")
    d = mon.call(util.dict_from_graph_attr, g, arg,
                 what="dict_from_graph_attr")
    mon.check({k: [float(x) for x in v] for k, v in d.items()} ==
              {names[i]: vals[i] for i in range(n)},
              "dict_from_graph_attr is wrong")
    mon.check(all(isinstance(v, list) for v in d.values()),
              "dict_from_graph_attr does not answer with lists")
    d = mon.call(util.dict_from_graph_attr, g, arg, array_values=True,
                 what="dict_from_graph_attr")
    mon.check(all(isinstance(v, np.ndarray) and
                  v.tolist() == vals[pos[k]] for k, v in d.items()) and
              len(d) == n, "dict_from_graph_attr(array_values) is wrong")
    # the rows match the adjacency matrix made from the same graph
    import networkx
    adj = networkx.to_scipy_sparse_matrix(g)
    arr = util.array_from_graph(g, attr)
    for a in range(n):
        for b in adj[a].nonzero()[1]:
            mon.check(vals[nodes[a]] == arr[a].tolist() and
                      nodes[b] in nb[nodes[a]], "graph rows and adjacency "
                      "matrix disagree")
    # attributes that some nodes lack
    for x in rnd.sample(names, rnd.choice([1, n])):
        del g.nodes[x][attr[-1]]
    for fn in (util.array_from_graph, util.dict_from_graph_attr):
        got, e = mon.attempt(fn, g, rnd.choice([list, tuple])(attr),
                             what=fn.__name__)
        mon.count("lacking")
        mon.check(e is not None, lambda: "%s of an attribute that some nodes "
                  "lack: %s" % (fn.__name__, got))
    # data frames
    index = rnd.choice([None, names if not isinstance(names[0], tuple)
                        else None])
    df = pd.DataFrame({"c%d" % k: [r[k] for r in vals] for k in range(dim)},
                      index=index)
    df["other"] = 77.0
    cols = ["c%d" % k for k in range(dim)]
    rnd.shuffle(cols)
    perm = [int(c[1:]) for c in cols]
    mon.count("frames")
    got = mon.call(util.array_from_df_col, df, cols, what="array_from_df_col")
    mon.check(got.tolist() == [[r[k] for k in perm] for r in vals],
              "array_from_df_col is wrong")
    got = mon.call(util.array_from_df_col, df, cols[0],
                   what="array_from_df_col")
    mon.check(got.tolist() == [[r[perm[0]]] for r in vals],
              "array_from_df_col of one column is wrong")
    for bad in (3, ["c0", 4], None, {"c0"}):
        _, e = mon.attempt(util.array_from_df_col, df, bad,
                           what="array_from_df_col")
        mon.check(isinstance(e, ValueError), lambda: "columns %r: %r" % (
            bad, e))
    got = mon.call(util.dataframe_to_dict, df, cols, what="dataframe_to_dict")
    mon.check({k: np.asarray(v).tolist() for k, v in got.items()} ==
              {i: [r[k] for k in perm] for i, r in zip(df.index, vals)},
              "dataframe_to_dict is wrong")
    got = mon.call(util.dataframe_to_dict, df, cols[0],
                   what="dataframe_to_dict")
    mon.check({k: float(v) for k, v in got.items()} ==
              {i: r[perm[0]] for i, r in zip(df.index, vals)},
              "dataframe_to_dict of one column is wrong")
    # lists of regions
    reg = [make_(a) for make_, a in zip(
        [rnd.choice([set, list, tuple]) for _ in range(n)],
        ref.regions(case["labels"]).values())]
    got = mon.call(util.array_from_region_list, reg,
                   what="array_from_region_list")
    mon.check([int(x) for x in got] == [
        next(k for k, r in enumerate(reg) if i in r) for i in range(n)],
        "array_from_region_list is wrong")
    for el in range(n):
        k = mon.call(util.find_sublist_containing, el, reg, index=True,
                     what="find_sublist_containing")
        s = mon.call(util.find_sublist_containing, el, reg,
                     what="find_sublist_containing")
        mon.check(el in reg[k] and s is reg[k],
                  "find_sublist_containing is wrong")
    _, e = mon.attempt(util.find_sublist_containing, n + 5, reg,
                       what="find_sublist_containing")
    mon.check(isinstance(e, LookupError), "find_sublist_containing finds "
              "what is not there")
    # random picks remove exactly what they return
    lst = [vals[i][0] for i in range(n)]
    mine = list(lst)
    x = mon.call(util.random_element_from, mine, what="random_element_from")
    mon.check(x in lst and mine == lst, "random_element_from is wrong")
    x = mon.call(util.pop_randomly_from, mine, what="pop_randomly_from")
    mon.check(sorted(mine + [x]) == sorted(lst),
              "pop_randomly_from loses or invents elements")
    mon.seen("names", names)
    mon.nontrivial = order != list(range(n)) and n > 2
