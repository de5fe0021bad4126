"""Threshold-preserving moves, for attributes of any sign."""
import random

import numpy as np

from .. import fits, gen, ref

RULE = ("A case = random split map, contiguous regions, spatially extensive "
        "attributes of any sign (1 to 3, exact binary fractions), thresholds "
        "all regions reach; then either a random sequence of proposed moves "
        "put to the threshold condition wrapped around a recording strategy, "
        "or a whole AZP run with it. Oracle: the sums, before and after. "
        "Non-trivial: moves both allowed and vetoed by the threshold.")
CASES = {"quick": 2000, "thorough": 40000}
MIN = {"proposals": 5000, "vetoed": 500, "allowed": 500, "azp_runs": 100,
       "negative_area_moves": 300, "taken_back": 300}
STEP_BUDGET = 2_000_000


def gen_(rng, idx, tier):
    m = gen.make_map(rng, rng.choice([4, 7, 10, 14]),
                     nmin=3, max_comps=rng.choice([1, 1, 2]))
    nb = gen.nbrs_of(m)
    n, c = m["n"], len(ref.components(nb))
    init = gen.random_partition(rng, nb, rng.choice(
        [min(n, c + 1), min(n, c + 2), rng.randint(c, n)]))
    k = rng.choice([1, 1, 2, 3])
    kind = rng.choice(["mixed", "mixed", "positive", "few_negative", "signs",
                       "zeros", "big", "huge"])
    f = {"mixed": lambda: rng.randrange(-40, 60) / 8,
         "positive": lambda: rng.randrange(1, 60) / 8,
         "few_negative": lambda: (-rng.randrange(1, 20) if rng.random() < .2
                                  else rng.randrange(0, 60)) / 8,
         # sums are exact in doubles, not in single precision
         "huge": lambda: float(rng.randint(-2, 3) * 2**30 +
                               rng.randint(0, 5)),
         # near the ends of the range of int8
         "big": lambda: float(rng.choice([-100, -20, 0, 60, 100, 127])),
         "signs": lambda: float(rng.choice([-1, 0, 1])),
         "zeros": lambda: float(rng.choice([0, 0, 0, 2, -1]))}[kind]
    ext = [[f() for _ in range(k)] for _ in range(n)]
    sums = ref.region_sums(init, ext).values()
    low = [min(s[j] for s in sums) for j in range(k)]
    if k == 1 or rng.random() < .4:
        t = min(low) - rng.choice([0, 0, 0.125, 0.5, 2])
    else:
        t = [x - rng.choice([0, 0, 0.125, 0.5, 2]) for x in low]
    return {"map": m, "init": init, "ext": ext, "threshold": t,
            "attr": gen.make_attr(rng, n, dims=(1, 2)),
            "ext_flat": k == 1 and rng.random() < .3,
            "ext_dtype": rng.choice(["float64", "int64", "int8", "int16"])
            if kind in ("signs", "big", "zeros") else
            rng.choice(["float64", "int64"]) if kind == "huge" else "float64",
            "mode": rng.choice(["proposals", "proposals", "azp"]),
            "accept": rng.choice([1.0, 1.0, 0.6])}


def run(case, mon):
    from region.objective_function import ObjectiveFunctionPairwise
    from region.p_regions import azp, azp_util
    nb_all = gen.nbrs_of(case["map"])
    ext = np.array(case["ext"], dtype=case["ext_dtype"])
    if case["ext_flat"]:
        ext = ext[:, 0]
    t = case["threshold"]
    t = np.array(t) if isinstance(t, list) else t
    attr = np.array(case["attr"])
    init = np.array(case["init"])
    rnd = random.Random(case["seed"])
    log = []

    class Inner(azp_util.AllowMoveStrategy):
        def start_new_component(self, labels, attr, objective_func, comp_idx):
            super().start_new_component(labels, attr, objective_func,
                                        comp_idx)
            self.objective_val = 0.0
            self.started = [int(i) for i in comp_idx]
            self.left = 40

        def __call__(self, area, new, labels):
            ok = rnd.random() < case["accept"] and self.left > 0
            if ok:
                self.left -= 1
                self.objective_val -= 1.0
            log.append((int(area), int(new), fits.labels_list(labels), ok))
            return ok

    inner = Inner()
    strat = azp_util.AllowMoveAZPMaxPRegions(ext, t, inner)

    def good(labels, idx):
        return not ref.threshold_errors(
            labels, [case["ext"][i] for i in idx], case["threshold"], tol=0)

    if case["mode"] == "azp":
        mon.count("azp_runs")
        est = azp.AZP(allow_move_strategy=strat, random_state=case["seed"])
        mon.call(est.fit_from_scipy_sparse_matrix, fits.adj_array(case), attr,
                 len(set(case["init"])), initial_labels=init.copy(),
                 what="AZP fit with threshold")
        labels = fits.labels_list(est.labels_)
        for e in ref.partition_errors(nb_all, labels, len(set(case["init"]))):
            mon.bad(e)
        for e in ref.threshold_errors(labels, case["ext"], case["threshold"],
                                      tol=0):
            mon.bad("after AZP with the threshold condition: " + e)
        mon.count("inner_consultations", len(log))
        for area, new, before, ok in log:
            if not ok:
                continue
            mon.count("accepted_in_azp")
        mon.nontrivial = ref.partition_key(labels) != ref.partition_key(
            case["init"])
        return
    vetoed = allowed = 0
    for comp in ref.components(nb_all):
        idx = sorted(comp)
        pos = {a: i for i, a in enumerate(idx)}
        nb = [{pos[w] for w in nb_all[a]} for a in idx]
        labels = init[idx]
        mon.call(strat.start_new_component, labels, attr[idx],
                 ObjectiveFunctionPairwise(), np.array(idx),
                 what="start_new_component")
        mon.check(getattr(inner, "started", None) == idx,
                  "the wrapped strategy was not told about the component")
        for _ in range(12):
            moves = sorted(ref.legal_moves(nb, fits.labels_list(labels)))
            if not moves:
                break
            area, new = rnd.choice(moves)
            before = fits.labels_list(labels)
            after = list(before)
            after[area] = new
            feasible = good(after, idx)
            n_log = len(log)
            ok = bool(mon.call(strat, area, new, labels, what="allow_move"))
            mon.count("proposals")
            if any(x < 0 for x in case["ext"][idx[area]]):
                mon.count("negative_area_moves")
            mon.check(fits.labels_list(labels) == before,
                      "asking for permission changed the labels")
            inner_ok = len(log) > n_log and log[-1][3]
            if not feasible:
                vetoed += 1
                mon.count("vetoed")
                mon.check(not ok, lambda: "move of area %d to region %d of %s "
                          "breaks the threshold %s (attributes %s) but is "
                          "allowed" % (area, new, before, case["threshold"],
                                       [case["ext"][i] for i in idx]))
                mon.check(not inner_ok, "the wrapped strategy booked a move "
                          "that the threshold forbids")
                if ok:
                    return
                continue
            allowed += 1
            mon.count("allowed")
            mon.check(len(log) == n_log + 1, lambda: "move of area %d to "
                      "region %d of %s keeps the threshold %s (attributes %s) "
                      "but the wrapped strategy was asked %d times" % (
                          area, new, before, case["threshold"],
                          [case["ext"][i] for i in idx], len(log) - n_log))
            mon.check(ok == inner_ok, "the wrapped strategy's decision was "
                      "overruled")
            mon.check(float(strat.objective_val) == inner.objective_val,
                      "the objective value seen from outside is stale")
            if ok and rnd.random() < .2:
                # the caller may take a move back (as tabu search does if an
                # aspiration turns out to be illegal)
                mon.count("taken_back")
            elif ok:
                labels[area] = new
    mon.nontrivial = vetoed > 0 and allowed > 0
