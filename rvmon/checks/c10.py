"""Requests that cannot be met are refused and leave the estimator as it was."""
import numpy as np

from .. import entry, fits, gen, ref
from . import c11

RULE = ("A case = an estimator (sometimes already fitted), one invalid "
        "request from a catalogue of 44 kinds on a random instance, through a "
        "random entry point. It must raise ValueError (max-p heuristic with "
        "an unreachable threshold: any error), leave labels_ untouched, and a "
        "valid request afterwards must work. Non-trivial: the estimator held "
        "labels before.")
CASES = {"quick": 1000, "thorough": 16000}
MIN = {"refused": 300, "kinds_p": 100, "kinds_exact": 50, "kinds_maxp": 50}
CASE_LIMIT = 200
STEP_BUDGET = 3_000_000

P_KINDS = ("too_many_regions", "far_too_many", "too_few_regions", "zero",
           "negative", "init_split_region", "init_count_high",
           "init_count_low", "cooling", "contiguity", "gdf_attr",
           "nx_attr", "nx_missing", "strategy", "reactive_maxit", "sa_moves_term",
           "objective_metric")
EXACT_KINDS = ("too_many_regions", "zero", "negative", "float_regions",
               "method", "method_type", "solver", "solver_type", "metric",
               "metric_type", "too_few_regions", "dict_type", "attr_type",
               "attr_keys_more", "attr_keys_less", "contiguity", "gdf_attr",
               "nx_attr", "nx_missing")
MAXP_KINDS = ("threshold_total", "threshold_component", "threshold_vector",
              "dict_type", "attr_type", "attr_keys", "ext_type", "ext_keys",
              "contiguity", "gdf_attr", "gdf_ext", "nx_attr", "nx_ext",
              "nx_missing", "nx_missing", "nan", "nan", "max_it")
MAXP_EXACT_KINDS = MAXP_KINDS[:-1] + ("threshold_inf", "solver", "metric", "metric_type")


def gen_(rng, idx, tier):
    target = rng.choice(["p", "p", "exact", "maxp", "maxp_exact"])
    nmax = {"p": 10, "exact": 5, "maxp": 8, "maxp_exact": 4}[target]
    kind = rng.choice({"p": P_KINDS, "exact": EXACT_KINDS,
                       "maxp": MAXP_KINDS,
                       "maxp_exact": MAXP_EXACT_KINDS}[target])
    need2 = kind in ("too_few_regions", "threshold_component")
    m = gen.make_map(rng, nmax, nmin=3, max_comps=1)
    if need2 or rng.random() < .2:
        a = gen.make_map(rng, max(2, nmax // 2), nmin=2)
        b = gen.make_map(rng, max(2, nmax // 2), nmin=1)
        m = {"n": a["n"] + b["n"], "kind": "two", "edges": a["edges"] +
             [[x + a["n"], y + a["n"]] for x, y in b["edges"]]}
    nb = gen.nbrs_of(m)
    n, c = m["n"], len(ref.components(nb))
    algo = fits.gen_algo(rng)
    if algo["algo"] == "sa":
        algo.update(nonmoving=1, reps=1)
    k = rng.choice([1, 2])
    return {"target": target, "kind": kind, "map": m, "algo": algo,
            "p": rng.randint(c, n), "attr": [
                [rng.uniform(0, 9) for _ in range(2)] for _ in range(n)],
            "ext": [[float(rng.randint(1, 9)) for _ in range(k)]
                    for _ in range(n)],
            "init": gen.random_partition(rng, nb, rng.randint(c, n)),
            "fitted": rng.random() < .6, "names": entry.names_for(rng, n),
            "via": rng.choice(["sparse", "dict", "networkx", "w"]),
            "bad": rng.choice(["foo", "", "Floww", "bishop"]),
            "pick": rng.randrange(100), "scalar_values": False,
            "ext_scalar": False, "attr_as": "dict", "init_as": "dict",
            "w_kind": "plain", "max_it": 1}


def good_fit(case, est, h, mon, what):
    via, args = h.method(est), h.args(case["target"].startswith("maxp"))
    if case["target"] == "p" or case["target"] == "exact":
        mon.call(via, *args, case["p"], what=what)
    else:
        mon.call(via, *args, 1.0, what=what)


def snapshot(est):
    l = getattr(est, "labels_", None)
    return None if l is None else fits.labels_list(l)


def make(case):
    if case["target"] == "p":
        return fits.estimator(case["algo"])
    if case["target"] == "exact":
        from region.p_regions.exact import PRegionsExact
        return PRegionsExact()
    if case["target"] == "maxp":
        from region.max_p_regions.heuristics import MaxPRegionsHeu
        return MaxPRegionsHeu(random_state=case["seed"])
    from region.max_p_regions.exact import MaxPRegionsExact
    return MaxPRegionsExact()


def gdf_for(case):
    n = case["map"]["n"]
    return entry.grid_gdf(1, n, list(range(n)), case["attr"], case["ext"])


def request(case, h, est):
    """(callable doing the invalid request) or None if not applicable"""
    t, kind, p = case["target"], case["kind"], case["p"]
    n = case["map"]["n"]
    c = len(ref.components(h.nb))
    f = h.method(est)
    ext = t.startswith("maxp")
    args = h.args(ext)
    bad = case["bad"]
    if kind in ("contiguity", "gdf_attr", "gdf_ext"):
        gdf = gdf_for(case)
        last = 1.0 if ext else p
        e = ["e0"] if ext else []
        g = est.fit_from_geodataframe
        if kind == "contiguity":
            x = [bad, 3, None][case["pick"] % 3]
            return lambda: g(gdf, "a0", *e, last, contiguity=x)
        x = [3, {"a0": 1}, ["a0", 3], 2.5][case["pick"] % 4]
        if kind == "gdf_attr":
            return lambda: g(gdf, x, *e, last)
        return lambda: g(gdf, "a0", x, last)
    if kind in ("nx_attr", "nx_ext"):
        import random
        graph = entry.graph_of(gen.nbrs_of(case["map"]), h.names,
                               random.Random(1))
        d = {x: 1.0 for x in h.names}
        a = [d, d] if ext else [d]
        a[1 if kind == "nx_ext" else 0] = [3, 2.5][case["pick"] % 2]
        return lambda: est.fit_from_networkx(graph, *a, 1.0 if ext else p)
    if kind == "nx_missing":
        return missing(case, h, est, ext)
    if kind == "max_it":
        return lambda: f(*args, 1.0, max_it=[0, -1][case["pick"] % 2])
    if kind == "threshold_inf":
        return lambda: f(*args, float("inf"))
    if kind == "nan":
        h.ext = [list(r) for r in h.ext]
        case_ext = [list(r) for r in case["ext"]]
        t = 1.0
        if case["pick"] % 4 == 0:
            t = float("nan")
        elif case["pick"] % 4 == 1 and len(case_ext[0]) > 1:
            t = np.array([1.0, float("nan")])
        else:
            row = case["pick"] % n
            case_ext[row][-1] = float("nan")
        broken = c11.Handover(dict(case, ext=case_ext))
        return lambda: broken.method(est)(*broken.args(True), t)
    if kind == "metric" or kind == "metric_type":
        x = ["foo", "euclid", ""][case["pick"] % 3] if kind == "metric" else \
            [3, ["euclidean"]][case["pick"] % 2]
        return lambda: f(*args, 1.0 if ext else p, metric=x)
    if kind in ("solver", "solver_type"):
        x = ["foo", "cbcc", ""][case["pick"] % 3] if kind == "solver" else \
            [3, ["cbc"]][case["pick"] % 2]
        return lambda: f(*args, 1.0 if ext else p, solver=x)
    if kind in ("method", "method_type"):
        x = ["foo", "flows", ""][case["pick"] % 3] if kind == "method" else \
            [3, ["flow"]][case["pick"] % 2]
        return lambda: f(*args, p, method=x)
    if kind in ("dict_type", "attr_type", "ext_type", "attr_keys",
                "attr_keys_more", "attr_keys_less", "ext_keys"):
        nb = {i: sorted(x) for i, x in enumerate(gen.nbrs_of(case["map"]))}
        a = {i: r[0] for i, r in enumerate(case["attr"])}
        e = {i: r[0] for i, r in enumerate(case["ext"])}
        which = e if kind == "ext_keys" else a
        less = kind.endswith("less") or (not kind.endswith("more")
                                         and case["pick"] % 2)
        if "keys" in kind:
            if less:
                del which[case["pick"] % n]
            else:
                which["new" if case["pick"] % 4 == 0 else n] = 1.0
        if kind == "dict_type":
            nb = list(nb.items())
        if kind == "attr_type":
            a = list(a.values())
        if kind == "ext_type":
            e = np.array(list(e.values()))
        rest = [e, 1.0] if ext else [p]
        return lambda: est.fit_from_dict(nb, a, *rest)
    if kind == "too_many_regions":
        return lambda: f(*args, n + 1)
    if kind == "far_too_many":
        return lambda: f(*args, n + 2 + case["pick"])
    if kind == "too_few_regions":
        return (lambda: f(*args, c - 1)) if c > 1 else None
    if kind == "zero":
        return lambda: f(*args, 0)
    if kind == "negative":
        return lambda: f(*args, -1 - case["pick"] % 3)
    if kind == "float_regions":
        return lambda: f(*args, [p + .5, float(p), str(p)][case["pick"] % 3])
    if kind in ("init_split_region", "init_count_high", "init_count_low"):
        init = list(case["init"])
        q = len(set(init))
        if kind == "init_count_high":
            q -= 1
        elif kind == "init_count_low":
            q += 1
        else:
            # join two regions that do not touch, or split one
            lab = sorted(set(init))
            for x in lab:
                for y in lab:
                    j = [y if v == x else v for v in init]
                    if x != y and ref.partition_errors(
                            gen.nbrs_of(case["map"]), j, q - 1):
                        init, q = j, q - 1
                        break
                else:
                    continue
                break
            else:
                return None
        h.init = [init[a] for a in h.order]
        h.case = dict(case, init=init)
        start = h.start()
        return lambda: f(*args, q, initial_labels=start)
    if kind == "cooling":
        if case["algo"]["algo"] != "sa":
            return None
        x = [0, 1, -.5, 1.5, 0.0, 1.0][case["pick"] % 6]
        return lambda: f(*args, p, cooling_factor=x)
    if kind == "strategy":
        from region.p_regions.azp import AZP
        x = [3, "azp", object(), lambda a, r, l: True][case["pick"] % 4]
        return lambda: AZP(allow_move_strategy=x)
    if kind == "reactive_maxit":
        from region.p_regions.azp import AZPReactiveTabu
        x = [0, -1][case["pick"] % 2]
        return lambda: AZPReactiveTabu(max_iterations=x, k1=1, k2=1)
    if kind == "sa_moves_term":
        from region.p_regions.azp_util import AllowMoveAZPSimulatedAnnealing
        x = [0, -1, 1.5, "3"][case["pick"] % 4]
        return lambda: AllowMoveAZPSimulatedAnnealing(1.0, sa_moves_term=x)
    if kind == "objective_metric":
        from region import objective_function as of
        x = ["foo", 3, "", ["manhattan"]][case["pick"] % 4]
        cls = [of.ObjectiveFunctionPairwise,
               of.ObjectiveFunctionCenter][case["pick"] % 2]
        return lambda: cls(metric=x)
    # unreachable thresholds
    k = len(case["ext"][0])
    tot = [sum(r[j] for r in case["ext"]) for j in range(k)]
    if kind == "threshold_total":
        return lambda: f(*args, max(tot) + 1)
    if kind == "threshold_vector":
        if k == 1:
            return None
        comps = ref.components(h.nb)
        x = [1.0] * k
        x[case["pick"] % k] = tot[case["pick"] % k] + 0.5
        return lambda: f(*args, np.array(x))
    comps = ref.components(h.nb)
    if c < 2:
        return None
    low = [min(sum(h.ext[i][j] for i in comp) for comp in comps)
           for j in range(k)]
    if min(low) + .5 > max(tot):
        return None
    return lambda: f(*args, min(low) + .5)


def missing(case, h, est, ext):
    """A node attribute that does not exist, or only at some nodes."""
    import random
    pick, n = case["pick"], case["map"]["n"]
    graph = entry.graph_of(gen.nbrs_of(case["map"]), h.names,
                           random.Random(1))
    rows = {x: i for i, x in enumerate(h.names)}
    for x in graph.nodes():
        i = rows[x]
        graph.nodes[x].update(a=case["attr"][i][0], b=case["attr"][i][1],
                              e=case["ext"][i][0], s=case["init"][i])
    if pick % 3 == 0:
        # two half attributes look like a whole one
        for x in h.names[:n // 2]:
            del graph.nodes[x]["b"]
        for x in h.names[n // 2:]:
            del graph.nodes[x]["e"]
        wrong = ["b", "e"]
        for x in h.names:
            graph.nodes[x]["e2"] = 1.0
        good = "e2"
    else:
        wrong = ["nosuch", ["e", "nosuch"], ["nosuch", "b"]][pick % 2 +
                                                           pick % 3 - 1]
        good = "e"
    last = 1.0 if ext else case["p"]
    if ext:
        which = [wrong, good] if pick % 2 else ["a", wrong]
        return lambda: est.fit_from_networkx(graph, *which, last)
    return lambda: est.fit_from_networkx(graph, wrong, last)


def run(case, mon):
    h = c11.Handover(case)
    est = make(case)
    if case["fitted"]:
        good_fit(case, est, h, mon, "valid fit before")
    before = snapshot(est)
    req = request(case, h, est)
    if req is None:
        mon.count("not_applicable")
        return
    kind = "%s/%s" % (case["target"], case["kind"])
    result, exc = mon.attempt(req, what=kind)
    if exc is None:
        mon.fail("%s via %s was accepted (labels %s)" % (
            kind, case["via"], snapshot(est)))
    if case["target"] == "maxp" and case["kind"].startswith("threshold_"):
        pass
    else:
        mon.check(isinstance(exc, ValueError), lambda: "%s via %s raised %s "
                  "(%s) instead of ValueError" % (
                      kind, case["via"], type(exc).__name__, exc))
    mon.count("refused")
    mon.count("kinds_" + case["target"])
    mon.seen("kinds", kind)
    mon.check(snapshot(est) == before, lambda: "%s changed labels_ from %s to "
              "%s" % (kind, before, snapshot(est)))
    h2 = c11.Handover(case)
    good_fit(case, est, h2, mon, "valid fit after refused " + kind)
    errs = ref.partition_errors(h2.nb, snapshot(est), case["p"] if
                                case["target"] in ("p", "exact") else None)
    mon.check(not errs, lambda: "after refused %s: %s" % (kind, errs))
    mon.nontrivial = before is not None
