"""Arguments stay as the caller passed them."""
import copy
import random

import numpy as np

from .. import fits, gen, jobs

RULE = ("A case = a fit of any method through any entry point (also failing "
        "ones) or a call of a helper (objective functions, acceptance rules, "
        "adjacency helpers, converters, SKATER's score and find_cut), with "
        "the content of every argument (matrix, arrays, dicts, graph, W with "
        "its transform and weights, GeoDataFrame, thresholds, start labels) "
        "recorded before and compared after; part of the arrays are "
        "read-only. Non-trivial: a fit with start labels, thresholds or a "
        "container argument.")
CASES = {"quick": 700, "thorough": 9000}
MIN = {"inputs_compared": 1500, "fits": 300, "helper_calls": 300,
       "start_labels": 40, "w_transforms": 40,
       "stored_zeros": 60}
STEP_BUDGET = 2_000_000


def gen_(rng, idx, tier):
    if rng.random() < .25:
        n = rng.choice([3, 5, 8, 12])
        m = gen.make_map(rng, n, nmin=2, max_comps=2)
        nb = gen.nbrs_of(m)
        from .. import ref
        c = len(ref.components(nb))
        p = rng.randint(c, m["n"])
        return {"what": "helpers", "map": m, "p": p,
                "labels": gen.random_partition(rng, nb, p),
                "attr": gen.make_attr(rng, m["n"], "uniform"),
                "zeros": rng.random() < .4,
                "objective": fits.gen_objective(rng)}
    job = jobs.gen_job(rng, rng.choice([4, 8, 12]))
    return {"what": "fit", "job": job, "fail": rng.random() < .15,
            "zeros": rng.random() < .4,
            "weights": rng.random() < .3, "frozen": rng.random() < .4}


def snapshot(x):
    """A comparable picture of an argument's content."""
    import networkx as nx
    import pandas as pd
    from libpysal.weights import W
    from scipy.sparse import issparse
    if issparse(x):
        # (scipy itself may put the storage in canonical order)
        same = x.format == "csr" and x.has_canonical_format
        return ("sparse", str(x.dtype), x.shape, x.toarray().tolist(),
                [a.tolist() for a in (x.data, x.indices, x.indptr)]
                if same else None)
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tolist())
    if isinstance(x, nx.Graph):
        return ("graph", [(k, snapshot(dict(d)))
                          for k, d in x.nodes(data=True)],
                sorted((repr(a), repr(b), repr(d))
                       for a, b, d in x.edges(data=True)))
    if isinstance(x, W):
        return ("W", x.transform, list(x.id_order),
                {k: list(v) for k, v in x.neighbors.items()},
                {k: [float(w) for w in v] for k, v in x.weights.items()})
    if isinstance(x, pd.DataFrame):
        return ("df", list(x.columns), [str(t) for t in x.dtypes],
                [repr(i) for i in x.index],
                [[repr(v.wkt if hasattr(v, "wkt") else v) for v in row]
                 for row in x.itertuples(index=False)])
    if isinstance(x, dict):
        return ("dict", [(k, snapshot(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, x)))
    return ("value", repr(x))


class Guard:
    def __init__(self, mon, what, objs):
        self.mon, self.what, self.objs = mon, what, objs
        self.before = {k: snapshot(v) for k, v in objs.items()}

    def compare(self):
        for k, v in self.objs.items():
            after = snapshot(v)
            self.mon.count("inputs_compared")
            self.mon.check(after == self.before[k], lambda: "%s changed its "
                           "argument %s from %s to %s" % (
                               self.what, k, str(self.before[k])[:200],
                               str(after)[:200]))


def with_zeros(adj, rnd):
    """The same matrix with some zeros stored."""
    from scipy.sparse import coo_matrix, csr_matrix
    n = adj.shape[0]
    a = adj.tocoo()
    old = set(zip(a.row.tolist(), a.col.tolist()))
    new = sorted({(rnd.randrange(n), rnd.randrange(n))
                  for _ in range(rnd.randint(1, 2 * n))} - old)
    rows = a.row.tolist() + [i for i, _ in new]
    cols = a.col.tolist() + [j for _, j in new]
    out = csr_matrix(coo_matrix((np.append(a.data, np.zeros(
        len(new), a.data.dtype)), (rows, cols)), shape=a.shape))
    out.sort_indices()
    return out


def run(case, mon):
    if case["what"] == "helpers":
        return helpers(case, mon)
    job = case["job"]
    args = jobs.Args(job)
    n = job["map"]["n"]
    if job["via"] == "w" and case["weights"]:
        from libpysal import weights
        rnd = random.Random(case["seed"])
        w = args.args[1 if job["kind"] == "skater" else 0]
        val = {}
        new = weights.W(
            {k: list(v) for k, v in w.neighbors.items()},
            {k: [val.setdefault(frozenset((k, j)), round(rnd.uniform(.1, 2),
                                                         3))
                 for j in v] for k, v in w.neighbors.items()},
            id_order=list(w.id_order))
        if job["row"]:
            new.transform = "r"
        args.args[1 if job["kind"] == "skater" else 0] = new
    if case["fail"]:
        # a request that must be refused leaves the arguments alone as well
        if job["kind"] in ("maxp", "maxp_exact"):
            args.args[3] = 1e9
        elif job["kind"] == "skater":
            args.args[2] = args.args[2][:-1]
        else:
            args.args[2] = n + 3
    elif jobs.small_island(args):
        return
    if job["via"] == "sparse" and case["zeros"]:
        args.args[0] = with_zeros(args.args[0], random.Random(case["seed"]))
        mon.count("stored_zeros")
    if case["frozen"]:
        for x in args.inputs().values():
            if isinstance(x, np.ndarray):
                x.setflags(write=False)
    what = "%s via %s" % (job["kind"], job["via"])
    objs = args.inputs()
    guard = Guard(mon, what, objs)
    est = jobs.make(job)
    if case["fail"]:
        mon.attempt(jobs.fit, est, args, what=what,
                    budget=3 * jobs.budget(job))
    else:
        mon.call(jobs.fit, est, args, what=what, budget=jobs.budget(job))
    guard.compare()
    mon.count("fits")
    mon.count("fits_" + job["kind"])
    mon.count("via_" + job["via"])
    if "initial_labels" in objs:
        mon.count("start_labels")
    if job["via"] == "w":
        mon.count("w_transforms")
    mon.seen("inputs", sorted((k, str(v)) for k, v in guard.before.items()))
    mon.nontrivial = job["via"] != "sparse" or "initial_labels" in objs
    if job["kind"] == "skater" and not case["fail"]:
        msf = est.minimum_spanning_forest_
        data = args.args[2]
        labels = est.current_labels_
        g = Guard(mon, "SKATER", {"msf": msf, "data": data, "labels": labels})
        mon.call(est.score, data, labels, what="score")
        g.compare()
        mon.call(est.find_cut, msf, data, what="find_cut")
        g.compare()
        l = labels[0]
        mon.call(est.find_cut, msf, data, labels=labels, target_label=l,
                 what="find_cut")
        g.compare()
        mon.count("helper_calls", 3)


def helpers(case, mon):
    from region import csgraph_utils as cu
    from region import util
    from region.p_regions import azp_util
    rnd = random.Random(case["seed"])
    adj = gen.adj_of(case["map"])
    if case["zeros"]:
        adj = with_zeros(adj, rnd)
        mon.count("stored_zeros")
    n = case["map"]["n"]
    labels = np.array(case["labels"])
    attr = np.array(case["attr"])
    obj = fits.objective(case["objective"])
    nodes = np.array(sorted(rnd.sample(range(n), rnd.randint(1, n))))
    comp = [0] * n
    from .. import ref
    for k, c in enumerate(ref.components(gen.nbrs_of(case["map"]))):
        for i in c:
            comp[i] = k
    # components are numbered by their first area
    seen = {}
    comp = [seen.setdefault(c, len(seen)) for c in comp]
    # component labels as a list and as an array: both kinds are passed
    comp = np.array(comp) if rnd.random() < .5 else comp
    nd = {i: set(s) for i, s in enumerate(gen.nbrs_of(case["map"]))}
    vals = {i: list(r) for i, r in enumerate(case["attr"])}
    keys = list(range(n))
    rl = [set(a) for a in ref.regions(case["labels"]).values()]
    area = rnd.randrange(n)
    new = rnd.choice(sorted(set(case["labels"])))
    objs = {"adj": adj, "labels": labels, "attr": attr, "nodes": nodes,
            "components": comp, "neighbors": nd, "values": vals,
            "keys": keys, "region_list": rl}
    sa = azp_util.AllowMoveAZPSimulatedAnnealing(1.0, 3)
    calls = [
        ("objective", lambda: obj(labels, attr)),
        ("is_connected", lambda: cu.is_connected(adj)),
        ("neighbors", lambda: cu.neighbors(adj, area)),
        ("sub_adj_matrix", lambda: cu.sub_adj_matrix(adj, nodes)),
        ("sub_adj_matrix", lambda: cu.sub_adj_matrix(adj, nodes, nodes[:1])),
        ("separate_components",
         lambda: list(util.separate_components(adj, labels))),
        ("generate_initial_sol",
         lambda: list(util.generate_initial_sol(adj, case["p"]))),
        ("distribute_regions_among_components",
         lambda: util.distribute_regions_among_components(comp, case["p"])),
        ("assert_feasible", lambda: util.assert_feasible(labels, adj)),
        ("boolean_assert_feasible",
         lambda: util.boolean_assert_feasible(labels, adj)),
        ("array_from_dict_values",
         lambda: util.array_from_dict_values(vals, keys)),
        ("scipy_sparse_matrix_from_dict",
         lambda: util.scipy_sparse_matrix_from_dict(nd)),
        ("array_from_region_list", lambda: util.array_from_region_list(rl)),
        ("count", lambda: util.count(labels, new)),
        ("find_sublist_containing",
         lambda: util.find_sublist_containing(area, rl)),
    ]
    if case["labels"].count(case["labels"][area]) > 1:
        calls.append(("objective update",
                      lambda: obj.update(area, new, labels, attr)))

        def allow(s):
            s.start_new_component(labels, attr, obj, np.arange(n))
            return s(area, new, labels)
        calls += [("AllowMoveAZP", lambda: allow(azp_util.AllowMoveAZP())),
                  ("AllowMoveAZPSimulatedAnnealing", lambda: allow(sa))]
    for what, f in calls:
        g = Guard(mon, what, objs)
        mon.call(f, what=what)
        g.compare()
        mon.count("helper_calls")
    # calls that are broken off by a metric of the user
    left = [rnd.randrange(2 * n)]

    def failing(a, b):
        left[0] -= 1
        if left[0] < 0:
            raise RuntimeError("the metric of the user fails")
        return float(np.abs(a - b).sum())
    obj2 = copy.copy(obj)
    obj2.metric = failing
    sa2 = azp_util.AllowMoveAZPSimulatedAnnealing(1.0, 3)

    def judged():
        sa2.start_new_component(labels, attr, obj, np.arange(n))
        sa2.objective_func = obj2
        return sa2(area, new, labels)
    for what, f in (("objective", lambda: obj2(labels, attr)),
                    ("objective update",
                     lambda: obj2.update(area, new, labels, attr)),
                    ("acceptance rule", judged)):
        if what != "objective" and case["labels"].count(
                case["labels"][area]) == 1:
            continue
        left[0] = rnd.randrange(2 * n)
        g = Guard(mon, what + " broken off", objs)
        mon.attempt(f, what=what)
        g.compare()
        mon.count("broken_off", left[0] < 0)
    # moves change the labels, and only where told to
    mine = labels.copy()
    util.make_move(area, new, mine)
    want = copy.copy(case["labels"])
    want[area] = new
    mon.check(mine.tolist() == want, "make_move changed other labels")
