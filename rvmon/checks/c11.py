"""All entry points solve the same problem, area for area."""
import random

import numpy as np

from .. import entry, fits, gen, ref
from . import c05

RULE = ("A case = one problem (map, attributes, optionally start labels, "
        "thresholds) handed over through a random entry point (sparse matrix, "
        "alias fit, dict, networkx with attribute names or dicts (and with or "
        "without weighted links), W with custom id order, weights or "
        "row-standardized, GeoDataFrame with rook/queen "
        "and odd indexes) with arbitrary area names in arbitrary insertion "
        "order. A recording objective function / local search supplied by the "
        "caller shows which attributes and which contiguity reached the "
        "algorithm; exact methods are compared with exhaustive optima. "
        "Non-trivial: names or rows not already in canonical order.")
CASES = {"quick": 900, "thorough": 14000}
MIN = {"heuristic": 200, "exact": 80, "maxp": 120, "maxp_exact": 40,
       "via_dict": 60, "via_networkx": 60, "via_w": 60, "via_gdf": 60,
       "cooling_checked": 20}
CASE_LIMIT = 200
STEP_BUDGET = 3_000_000


def gen_(rng, idx, tier):
    target = rng.choice(["heuristic"] * 4 + ["exact"] * 2 + ["maxp"] * 3 +
                        ["maxp_exact"])
    via = rng.choice(["sparse", "fit", "dict", "dict", "networkx", "networkx",
                      "w", "w", "gdf", "gdf"])
    if target == "heuristic" and via == "fit":
        via = "sparse"
    nmax = {"heuristic": 12, "exact": 5, "maxp": 10, "maxp_exact": 4}[target]
    case = {"target": target, "via": via}
    if via == "gdf":
        while True:
            rows, cols = rng.randint(1, 4), rng.randint(1, 4)
            if 2 <= rows * cols <= nmax:
                break
        order = list(range(rows * cols))
        rng.shuffle(order)
        keep = rng.choice([len(order), len(order), max(2, len(order) - 1)])
        order = order[:keep]
        cont = rng.choice(["rook", "queen", "Rook", "QUEEN", None])
        m = {"n": len(order), "kind": "grid", "edges": entry.grid_edges(
            rows, cols, order, (cont or "rook").lower() == "queen")}
        case.update(rows=rows, cols=cols, order=order, contiguity=cont,
                    index=rng.choice(["range", "range", "shuffled", "str"]))
    else:
        m = gen.make_map(rng, nmax, nmin=2,
                         max_comps=rng.choice([1, 1, 1, 2]))
    nb = gen.nbrs_of(m)
    if via == "gdf" and any(not x for x in nb) and len(nb) > 1:
        # libpysal handles islands of a GeoDataFrame by its own rules
        return gen_(rng, idx, tier)
    n, c = m["n"], len(ref.components(nb))
    case["map"] = m
    case["names"] = entry.names_for(rng, n)
    dim = rng.choice([1, 1, 2, 3])
    case["attr"] = [[round(rng.uniform(-5, 30), 3) for _ in range(dim)]
                    for _ in range(n)]
    case["p"] = rng.choice([min(n, c + 1), rng.randint(c, n)])
    case["scalar_values"] = dim == 1 and rng.random() < .6
    case["attr_as"] = rng.choice(["names", "dict"])
    case["algo"] = fits.gen_algo(rng)
    if case["algo"]["algo"] == "sa":
        case["algo"].update(nonmoving=1, reps=1)
        case["cooling"] = rng.choice([None, .5, .99])
    if rng.random() < .75:
        case["init"] = gen.any_labels(rng, gen.random_partition(
            rng, nb, case["p"]))
    case["init_as"] = rng.choice(["names", "dict"])
    case["method"] = rng.choice(["flow", "order", "tree"])
    case["metric"] = rng.choice(["manhattan", "euclidean", "cosine"])
    case["w_kind"] = rng.choice(["plain", "id_order", "row", "weighted"])
    case["edge_weights"] = rng.random() < .4
    k = rng.choice([1, 1, 2])
    ext = [[float(rng.choice([0, 0, 1, 3, 8])) for _ in range(k)]
           for _ in range(n)]
    for comp in ref.components(nb):
        ext[sorted(comp)[rng.randrange(len(comp))]] = [9.0] * k
    case["ext"] = ext
    lim = [min(sum(ext[i][q] for i in comp) for comp in ref.components(nb))
           for q in range(k)]
    t = [float(rng.randint(0, int(x))) for x in lim]
    case["threshold"] = t if k > 1 and rng.random() < .6 else min(t)
    case["ext_scalar"] = k == 1 and rng.random() < .6
    case["max_it"] = rng.choice([None, 1, 2, 4])
    return case


class Handover:
    """Builds the arguments of an entry point and the canonical problem."""

    def __init__(self, case):
        self.case, self.via = case, case["via"]
        rnd = random.Random(case["seed"])
        nb = gen.nbrs_of(case["map"])
        n = len(nb)
        names = [entry.key(x) for x in case["names"]]
        via = self.via
        self.order = list(range(n))    # canonical position -> area
        self.graph_args = ()
        if via in ("sparse", "fit"):
            self.first = fits.adj_array(case)
        elif via == "dict":
            self.first = entry.neighbor_dict(
                nb, names, rnd, rnd.choice([set, list, tuple]))
            self.order = sorted(range(n), key=lambda i: names[i])
        elif via == "networkx":
            self.first = entry.graph_of(nb, names, rnd)
            if case.get("edge_weights"):
                # lengths of common borders, say: links they are all the same
                for _, _, link in self.first.edges(data=True):
                    link["weight"] = rnd.choice([.3, 2.5, 7, .04, 1])
            pos = {x: i for i, x in enumerate(names)}
            self.order = [pos[x] for x in self.first.nodes()]
        elif via == "w":
            from libpysal import weights
            nd = {k: list(v) for k, v in
                  entry.neighbor_dict(nb, names, rnd, list).items()}
            pos = {x: i for i, x in enumerate(names)}
            if case["w_kind"] == "id_order":
                ids = list(names)
                rnd.shuffle(ids)
                self.first = weights.W(nd, id_order=ids)
            elif case["w_kind"] == "weighted":
                val = {}
                self.first = weights.W(nd, {k: [val.setdefault(
                    frozenset((k, j)), rnd.choice([.3, 2.5, 7.0, .04, 1.0]))
                    for j in v] for k, v in nd.items()})
            else:
                self.first = weights.W(nd)
                if case["w_kind"] == "row":
                    self.first.transform = "r"
            self.order = [pos[x] for x in self.first.id_order]
        else:
            self.first = None
        self.names, self.n, self.rnd = names, n, rnd
        self.inverse = {a: i for i, a in enumerate(self.order)}
        self.nb = [{self.inverse[j] for j in nb[a]} for a in self.order]
        self.attr = [case["attr"][a] for a in self.order]
        self.ext = [case["ext"][a] for a in self.order]
        self.init = None if case.get("init") is None else \
            [case["init"][a] for a in self.order]

    def values(self, rows, scalar):
        return [r[0] if scalar else np.array(r) for r in rows]

    def array(self, rows):
        return np.array(rows)

    def method(self, est):
        return getattr(est, {
            "sparse": "fit_from_scipy_sparse_matrix", "fit": "fit",
            "dict": "fit_from_dict", "networkx": "fit_from_networkx",
            "w": "fit_from_w", "gdf": "fit_from_geodataframe"}[self.via])

    def args(self, with_ext):
        """(first, attr[, ext]) for the entry point"""
        case = self.case
        if self.via in ("sparse", "fit", "w"):
            out = [self.first, np.array(self.attr)]
            return out + ([np.array(self.ext)] if with_ext else [])
        if self.via == "dict":
            out = [self.first, entry.shuffled_dict(
                self.names, self.values(case["attr"], case["scalar_values"]),
                self.rnd)]
            if with_ext:
                out.append(entry.shuffled_dict(self.names, self.values(
                    case["ext"], case["ext_scalar"]), self.rnd))
            return out
        if self.via == "networkx":
            out = [self.first]
            for rows, tag, scalar in (
                    (case["attr"], "a", case["scalar_values"]),
                    (case["ext"], "e", case["ext_scalar"]))[
                        :2 if with_ext else 1]:
                if case["attr_as"] == "dict":
                    out.append(entry.shuffled_dict(
                        self.names, self.values(rows, scalar), self.rnd))
                    continue
                cols = ["%s%d" % (tag, k) for k in range(len(rows[0]))]
                self.rnd.shuffle(cols)
                import networkx as nx
                for k, c in enumerate(cols):
                    nx.set_node_attributes(self.first, {
                        self.names[i]: rows[i][k] for i in range(self.n)}, c)
                out.append(cols[0] if len(cols) == 1 and scalar else cols)
            return out
        index = {"range": None,
                 "shuffled": random.Random(self.n).sample(
                     range(self.n), self.n),
                 "str": ["r%d" % (97 * i % 89) for i in range(self.n)]}[
                     case["index"]]
        gdf = entry.grid_gdf(case["rows"], case["cols"], case["order"],
                             case["attr"], case["ext"], index=index)
        # columns of any names, in any order, between others
        gdf["name"] = ["area %d" % i for i in range(self.n)]
        new = self.rnd.sample(["v%d" % k for k in range(20)],
                              len(gdf.columns) - 2)
        old = [c for c in gdf.columns if c not in ("geometry", "name")]
        new = dict(zip(old, new))
        gdf = gdf.rename(columns=new)[self.rnd.sample(
            list(new.values()) + ["name", "geometry"], len(new) + 2)]
        cols = [new["a%d" % k] for k in range(len(case["attr"][0]))]
        out = [gdf, cols[0] if case["scalar_values"] else cols]
        if with_ext:
            cols = [new["e%d" % k] for k in range(len(case["ext"][0]))]
            out.append(cols[0] if case["ext_scalar"] else cols)
        return out

    def start(self):
        """initial_labels argument"""
        case = self.case
        if self.init is None:
            return None
        if self.via == "dict":
            return entry.shuffled_dict(self.names, case["init"], self.rnd)
        if self.via == "networkx":
            d = entry.shuffled_dict(self.names, case["init"], self.rnd)
            if case["init_as"] == "dict":
                return d
            import networkx as nx
            nx.set_node_attributes(self.first, d, "start")
            return "start"
        return np.array(self.init)

    def options(self):
        if self.via == "gdf" and self.case["contiguity"] is not None:
            return {"contiguity": self.case["contiguity"]}
        return {}


def recording_objective(log):
    from region.objective_function import ObjectiveFunction

    class Rec(ObjectiveFunction):
        def __call__(self, labels, attr):
            log.append(("value", fits.labels_list(labels), np.array(attr)))
            return 0.0

        def update(self, moving_area, recipient_region, labels, attr):
            log.append(("update", fits.labels_list(labels), np.array(attr),
                        int(moving_area), recipient_region))
            return 1e9
    return Rec()


def run(case, mon):
    h = Handover(case)
    mon.count("via_" + case["via"])
    mon.count(case["target"])
    if case["via"] == "gdf":
        mon.count("contiguity_%s" % case["contiguity"])
    mon.nontrivial = h.order != list(range(h.n)) or case["via"] == "gdf"
    {"heuristic": run_heuristic, "exact": run_exact, "maxp": run_maxp,
     "maxp_exact": run_maxp_exact}[case["target"]](case, mon, h)


def check_attr(h, mon, comps, attr, who):
    got = [[float(x) for x in np.atleast_1d(r)] for r in attr]
    want = [[h.attr[i] for i in sorted(c)] for c in comps]
    mon.check(got in want, lambda: "%s via %s saw attributes %s, expected one "
              "of %s" % (who, h.via, got, want))
    for c, w in zip(comps, want):
        if got == w:
            return sorted(c)
    return None


def run_heuristic(case, mon, h):
    log = []
    est = fits.estimator(case["algo"])
    kw = h.options()
    kw["objective_func"] = recording_objective(log)
    start = h.start()
    if start is not None:
        kw["initial_labels"] = start
    if case.get("cooling"):
        kw["cooling_factor"] = case["cooling"]
    args = h.args(False)
    mon.call(h.method(est), *args, case["p"],
             what="%s fit via %s" % (case["algo"]["algo"], case["via"]), **kw)
    labels = fits.labels_list(est.labels_)
    errs = ref.partition_errors(h.nb, labels, case["p"])
    if errs:
        mon.fail("%s via %s: %s" % (case["algo"]["algo"], case["via"], errs))
    if case["algo"]["algo"] == "sa":
        check_cooling(case, mon, h, args, kw)
    if start is not None:
        mon.count("start_given")
        # the recording objective makes every move infinitely bad
        mon.check(ref.partition_key(labels) == ref.partition_key(h.init),
                  lambda: "%s via %s: start labels %s became %s although "
                  "every move is bad" % (case["algo"]["algo"], case["via"],
                                         h.init, labels))
    comps = ref.components(h.nb)
    offered = {}
    for e in log:
        mon.count("objective_calls")
        comp = check_attr(h, mon, comps, e[2], case["algo"]["algo"])
        if comp is None:
            return
        if e[0] == "update":
            # a region is known by its areas; its label may be another inside
            offered.setdefault(tuple(comp), set()).add(
                (e[3], tuple(i for i, l in enumerate(e[1]) if l == e[4])))
    mon.check(bool(log), "the given objective function was not used (%s via "
              "%s)" % (case["algo"]["algo"], case["via"]))
    if start is None:
        return
    # which moves were evaluated shows which contiguity was used
    for comp in comps:
        idx = sorted(comp)
        pos = {a: i for i, a in enumerate(idx)}
        nb = [{pos[w] for w in h.nb[a]} for a in idx]
        init = [h.init[a] for a in idx]
        legal = {(a, tuple(i for i, l in enumerate(init) if l == r))
                 for a, r in ref.legal_moves(nb, init)}
        got = offered.get(tuple(idx), set())
        mon.count("moves_compared", len(legal))
        mon.check(got == legal, lambda: "%s via %s evaluated the moves %s, "
                  "contiguity permits %s" % (
                      case["algo"]["algo"], case["via"], sorted(got),
                      sorted(legal)))


def check_cooling(case, mon, h, args, kw):
    """The cooling factor arrives: an illegal one is refused, and after a
    first hot stage a tiny one freezes the search at once."""
    for bad in (0, 1, 1.5):
        _, e = mon.attempt(h.method(fits.estimator(case["algo"])), *args,
                           case["p"], what="illegal cooling factor",
                           **dict(kw, cooling_factor=bad))
        mon.check(isinstance(e, ValueError), lambda: "cooling factor %r via "
                  "%s: %r instead of a ValueError" % (bad, case["via"], e))
    from region.objective_function import ObjectiveFunctionPairwise
    starts = []

    def generic(a, b):
        # sums of these do not tie
        return float(np.abs(a - b).sum() ** .7317)

    class Counting(ObjectiveFunctionPairwise):
        def __call__(self, labels, attr):
            starts.append(fits.labels_list(labels))
            return super().__call__(labels, attr)
    algo = dict(case["algo"], init_temperature=1e9, max_iterations=1,
                sa_moves_term=1, nonmoving=2, reps=1000)
    comps = len(ref.components(h.nb))
    if case["p"] in (comps, h.n) or any(
            len(set(x)) < h.n for x in zip(*h.attr)):
        return
    mon.call(h.method(fits.estimator(algo)), *args, case["p"],
             what="annealing via " + case["via"], budget=2_000_000,
             **dict(kw, cooling_factor=1e-200, objective_func=Counting(generic)))
    # each run descends into a local optimum: at most one moves anything (and
    # two more if rounding decides)
    mon.count("cooling_checked")
    mon.check(len(starts) <= 6 * comps, lambda: "annealing via %s with "
              "cooling factor 1e-200: %d runs instead of at most 6" % (
                  case["via"], len(starts) // comps))


def own_metric(case, kw):
    """Sometimes makes the metric a function of the user; its calls."""
    calls = []
    if "metric" in kw and case["seed"] % 3:
        name, d = kw["metric"], ref.METRICS[kw["metric"]]

        def own(a, b):
            calls.append(name)
            return d(np.asarray(a).reshape(-1).tolist(),
                     np.asarray(b).reshape(-1).tolist())
        kw["metric"] = own
        return calls


def handed_over(case, mon, h, fitted, est, calls, *args, **kw):
    """The given metric has been used, and the solver gets there, too."""
    if calls is not None and len(set(fitted.labels_)) < h.n:
        mon.count("own_metrics")
        mon.check(calls, lambda: "%s via %s does not use the given metric" % (
            type(est).__name__, case["via"]))
    _, exc = mon.attempt(h.method(est), *args, **dict(kw, solver="none such"))
    mon.check(isinstance(exc, ValueError), lambda: "%s via %s: an unknown "
              "solver is met with %r" % (type(est).__name__, case["via"], exc))


def run_exact(case, mon, h):
    from region.p_regions.exact import PRegionsExact
    est = PRegionsExact()
    kw = h.options()
    if case["max_it"] is not None:      # else: defaults
        kw.update(method=case["method"], metric=case["metric"], solver="cbc")
    metric = case["metric"] if "metric" in kw else "euclidean"
    calls = own_metric(case, kw)
    mon.call(h.method(est), *h.args(False), case["p"],
             what="exact fit via " + case["via"], **kw)
    handed_over(case, mon, h, est, PRegionsExact(), calls, *h.args(False),
                case["p"], **kw)
    labels = fits.labels_list(est.labels_)
    errs = ref.partition_errors(h.nb, labels, case["p"])
    if errs:
        mon.fail("exact via %s: %s" % (case["via"], errs))
    best, _ = ref.best_p_regions(h.nb, h.attr, case["p"], metric)
    value = ref.pairwise_objective(labels, h.attr, metric)
    mon.check(value <= best + 1e-3 * (metric != "cosine") + 2e-5,
              lambda: "exact via %s: %r, optimum %r" % (
                  case["via"], value, best))
    mon.check(str(est.method).lower() == kw.get("method", "flow"),
              "method %r was used" % est.method)


def run_maxp(case, mon, h):
    from region.max_p_regions.heuristics import MaxPRegionsHeu
    from region.p_regions.azp import AZP
    runs, log = [], []

    class Local(AZP):
        def fit_from_scipy_sparse_matrix(self, adj, attr, n_regions,
                                         initial_labels=None,
                                         objective_func=None):
            runs.append((adj.copy(), np.array(attr), objective_func))
            super().fit_from_scipy_sparse_matrix(
                adj, attr, n_regions, initial_labels, objective_func)

    est = MaxPRegionsHeu(local_search=Local(random_state=1),
                         random_state=case["seed"])
    kw = h.options()
    if case["max_it"] is not None:
        kw["max_it"] = case["max_it"]
    obj = fits.objective({"kind": "pairwise", "metric": case["metric"]})
    if case["scalar_values"]:
        kw["objective_func"] = obj
    t = case["threshold"]
    mon.call(h.method(est), *h.args(True),
             np.array(t) if isinstance(t, list) else t,
             what="max-p fit via " + case["via"], **kw)
    labels = fits.labels_list(est.labels_)
    errs = ref.partition_errors(h.nb, labels) + ref.threshold_errors(
        labels, h.ext, t)
    if errs:
        mon.fail("max-p via %s: %s" % (case["via"], errs))
    for adj, attr, func in runs:
        mon.count("local_searches")
        got = [{int(j) for j in adj[i].nonzero()[1]} for i in range(h.n)]
        mon.check(got == h.nb, lambda: "max-p via %s: contiguity %s instead "
                  "of %s" % (case["via"], got, h.nb))
        check_attr(h, mon, [range(h.n)], attr, "max-p local search")
        if "objective_func" in kw:
            mon.check(func is obj, "max-p via %s does not use the given "
                      "objective function" % case["via"])
        if mon.violations:
            return
    if runs and max(t if isinstance(t, list) else [t]) <= min(
            min(e) for e in h.ext):
        # every construction has p = n regions, so each one is searched
        want = 10 if case["max_it"] is None else case["max_it"]
        mon.count("max_it_checked")
        mon.check(len(runs) == want, lambda: "max_it=%s via %s: %d "
                  "constructions" % (case["max_it"], case["via"], len(runs)))


def run_maxp_exact(case, mon, h):
    from region.max_p_regions.exact import MaxPRegionsExact
    est = MaxPRegionsExact()
    kw = h.options()
    metric = "euclidean"
    if case["max_it"] is not None:
        metric = kw["metric"] = case["metric"]
    calls = own_metric(case, kw)
    t = case["threshold"]
    mon.call(h.method(est), *h.args(True),
             np.array(t) if isinstance(t, list) else t,
             what="exact max-p fit via " + case["via"], **kw)
    handed_over(case, mon, h, est, MaxPRegionsExact(), calls, *h.args(True),
                np.array(t) if isinstance(t, list) else t, **kw)
    labels = fits.labels_list(est.labels_)
    errs = ref.partition_errors(h.nb, labels) + ref.threshold_errors(
        labels, h.ext, t)
    if errs:
        mon.fail("exact max-p via %s: %s" % (case["via"], errs))
    p, best, _ = ref.best_max_p(h.nb, h.attr, h.ext, t, metric)
    mon.check(len(set(labels)) == p, lambda: "exact max-p via %s: p=%d, "
              "maximum %d" % (case["via"], len(set(labels)), p))
    value = ref.pairwise_objective(labels, h.attr, metric)
    mon.check(len(set(labels)) != p or value <= best + 5e-3 * (
        metric != "cosine") + 2e-5, lambda: "exact max-p via %s: %r, optimum "
        "%r" % (case["via"], value, best))
