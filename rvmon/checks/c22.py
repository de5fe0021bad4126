"""Acceptance rules: AZP, simulated annealing (statistics), bookkeeping."""
import math
import random

import numpy as np

from .. import fits, gen, ref

RULE = ("A case = random labels/attributes/objective and an acceptance "
        "strategy (AZP or simulated annealing at a random temperature), asked "
        "about random moves. Oracle: reference change of the objective; "
        "improving or equal moves always accepted; AZP refuses worsening "
        "ones; annealing accepts a worsening move with probability "
        "exp(-change/temperature), judged by a 6-sigma binomial test over 200 "
        "draws of the same move; objective_val, the counter of worsening "
        "moves and the observers follow exactly the accepted moves; "
        "update_temperature takes effect. Non-trivial: improving and "
        "worsening moves both seen.")
CASES = {"quick": 700, "thorough": 9000}
MIN = {"sa_draws": 40000, "azp_decisions": 1500, "observer_calls": 1000}
STEP_BUDGET = 2_000_000


def gen_(rng, idx, tier):
    n = rng.choice([4, 6, 9])
    k = rng.randint(2, 3)
    labels = list(range(k)) + [rng.randrange(k) for _ in range(n - k)]
    rng.shuffle(labels)
    exact = rng.random() < .35
    return {"labels": labels, "exact": exact,
            "objective": {"kind": "pairwise", "metric": rng.choice(
                ["manhattan", "cityblock", "l1"])} if exact
            else fits.gen_objective(rng),
            "attr": gen.dyadic_attr(rng, n) if exact else
            gen.make_attr(rng, n, rng.choice(gen.GENERIC), dim=3),
            "what": rng.choice(["azp", "sa", "sa"]),
            "term": rng.choice([1, 2, 3, 7, 20]),
            "flat_moves": rng.random() < .1,
            "temp_factor": rng.choice([0.2, 0.5, 1, 2, 5]),
            "temp_change": rng.choice([None, 0.5, 2.0, 0.85])}


def run(case, mon):
    from region.p_regions import azp_util
    spec = case["objective"]
    obj = fits.objective(spec)
    attr = np.array(case["attr"])
    labels = np.array(case["labels"])
    if case["flat_moves"]:
        return neutral(case, mon, azp_util, labels)
    rnd = random.Random(case["seed"])
    base = fits.ref_objective(spec, case["labels"], case["attr"])
    size = max(abs(x) for r in case["attr"] for x in r) * len(labels)
    if spec["metric"] == "cosine":
        size = max(1.0, len(labels))
    tol = 0 if case["exact"] else 4e-7 * size

    def diff_of(area, new, cur):
        moved = list(cur)
        moved[area] = new
        return fits.ref_objective(spec, moved, case["attr"]) - \
            fits.ref_objective(spec, cur, case["attr"])

    def moves(cur):
        out = [(a, l) for a in range(len(cur)) for l in sorted(set(cur))
               if l != cur[a] and cur.count(cur[a]) > 1]
        rnd.shuffle(out)
        return out

    idx = np.arange(len(labels))
    if case["what"] == "azp":
        s = azp_util.AllowMoveAZP()
        s.start_new_component(labels, attr, obj, idx)
        value = base
        mon.check(abs(float(s.objective_val) - base) <= tol,
                  "initial objective value is wrong")
        up = down = 0
        for _ in range(12):
            cur = fits.labels_list(labels)
            ms = moves(cur)
            if not ms:
                break
            a, l = ms[0]
            d = diff_of(a, l, cur)
            ok = bool(mon.call(s, a, l, labels, what="AllowMoveAZP"))
            mon.count("azp_decisions")
            if case["exact"] and d == 0:
                mon.check(ok, "a move that leaves the objective unchanged was "
                          "refused")
            if abs(d) > tol:
                mon.count("exact_decisions", case["exact"])
                mon.check(ok == (d < 0), lambda: "a move changing the "
                          "objective by %r was %s" % (
                              d, "allowed" if ok else "refused"))
                up, down = up + (d > 0), down + (d < 0)
            if ok:
                value += d
                labels[a] = l
            mon.check(abs(float(s.objective_val) - value) <= 20 * tol,
                      lambda: "objective_val is %r, the objective is %r" % (
                          float(s.objective_val), value))
        mon.nontrivial = up > 0 and down > 0
        return
    # simulated annealing
    cur = fits.labels_list(labels)
    ms = moves(cur)
    diffs = [(diff_of(a, l, cur), a, l) for a, l in ms[:12]]
    worse = [x for x in diffs if x[0] > 50 * tol]
    better = [x for x in diffs if x[0] < -tol]
    if not worse:
        return
    t = worse[0][0] * case["temp_factor"]
    others = [azp_util.AllowMoveAZPSimulatedAnnealing(t, case["term"])]
    s = azp_util.AllowMoveAZPSimulatedAnnealing(t, case["term"])
    others.append(azp_util.AllowMoveAZPSimulatedAnnealing(t, case["term"]))
    told = []    # by rules which make no moves
    for o in others:
        o.register_sa_moves_term(lambda: told.append("term"))
        o.register_move_made(lambda: told.append("move"))
    calls = {"term": 0, "move": 0, "term2": 0}
    s.register_sa_moves_term(lambda: calls.__setitem__(
        "term", calls["term"] + 1))
    s.register_sa_moves_term(lambda: calls.__setitem__(
        "term2", calls["term2"] + 1))
    s.register_move_made(lambda: calls.__setitem__("move", calls["move"] + 1))
    s.start_new_component(labels, attr, obj, idx)
    if case["temp_change"]:
        t *= case["temp_change"]
        s.update_temperature(t)
    value, n_sa, n_moves, n_term = base, 0, 0, 0
    random.seed(case["seed"])
    for d, a, l in worse[:2]:
        k = 200
        acc = 0
        for _ in range(k):
            ok = bool(mon.call(s, a, l, labels, what="annealing decision"))
            mon.count("sa_draws")
            if ok:
                acc += 1
                n_sa += 1
                n_moves += 1
                value += d
                if n_sa >= case["term"]:
                    n_term += 1
            mon.check(calls["move"] == n_moves, lambda: "%d moves made, "
                      "observers told of %d" % (n_moves, calls["move"]))
            mon.check((calls["term"] > 0) == (n_term > 0), lambda: "%d "
                      "annealing moves of %d: termination observers called "
                      "%d times" % (n_sa, case["term"], calls["term"]))
            if mon.violations:
                return
        prob = math.exp(-d / t)
        sigma = math.sqrt(k * prob * (1 - prob)) + 1
        mon.check(abs(acc - k * prob) <= 6 * sigma, lambda: "a move worse by "
                  "%r at temperature %r was accepted %d times of %d, expected "
                  "%.1f" % (d, t, acc, k, k * prob))
        mon.seen("prob_bucket", round(prob, 1))
    mon.check(calls["term"] == calls["term2"],
              "observers were notified unequally")
    for d, a, l in better[:3]:
        ok = bool(mon.call(s, a, l, labels, what="annealing decision"))
        mon.check(ok, "annealing refused an improving move (%r)" % d)
        value += d
        n_moves += 1
        mon.count("improving_moves")
    mon.check(calls["move"] == n_moves, "observers missed an improving move")
    mon.count("observer_calls", calls["move"] + calls["term"])
    mon.check(abs(float(s.objective_val) - value) <= 1e-6 * (
        abs(value) + abs(base) + n_moves * size),
        lambda: "objective_val %r, accepted changes add up to %r" % (
            float(s.objective_val), value))
    mon.check(not told, lambda: "observers of other rules were told of %d "
              "moves and ends" % len(told))
    # after a reset counting starts anew
    s.reset()
    before = calls["term"]
    d, a, l = worse[0]
    got = 0
    for _ in range(400):
        if got >= case["term"] or got >= 3:
            break
        ok = bool(mon.call(s, a, l, labels, what="annealing decision"))
        if ok:
            got += 1
            if got < case["term"]:
                mon.check(calls["term"] == before, "termination announced "
                          "%d moves after a reset, expected %d" % (
                              got, case["term"]))
            else:
                mon.check(calls["term"] > before, "termination not announced "
                          "after %d moves" % got)
    # frozen: probabilities below 1e-13
    s.update_temperature(d / rng_choice(case, (30, 50, 300)))
    for _ in range(60):
        mon.count("frozen_draws")
        if not mon.check(not mon.call(s, a, l, labels,
                                      what="annealing decision"),
                         lambda: "a move worse by %r was accepted at "
                         "temperature %r" % (d, s.t)):
            break
    mon.nontrivial = bool(better)


def rng_choice(case, options):
    return options[case["seed"] % len(options)]


def neutral(case, mon, azp_util, labels):
    """Moves that change nothing are allowed and are no annealing moves."""
    from region.objective_function import ObjectiveFunctionPairwise
    n = len(labels)
    # regions of two areas each, all attributes equal: swapping an area with
    # itself elsewhere leaves the manhattan objective at exactly zero
    attr = np.full((n, 2), 3.0)
    if case["what"] == "azp":
        s = azp_util.AllowMoveAZP()
    else:
        s = azp_util.AllowMoveAZPSimulatedAnnealing(1e-3, case["term"])
        told = []
        s.register_sa_moves_term(lambda: told.append(1))
    s.start_new_component(labels, attr, ObjectiveFunctionPairwise(),
                          np.arange(n))
    for a in range(n):
        for l in sorted(set(case["labels"])):
            if l != labels[a]:
                mon.count("neutral_moves")
                mon.check(bool(mon.call(s, a, l, labels, what="decision")),
                          "a move that leaves the objective unchanged was "
                          "refused")
    mon.check(float(s.objective_val) == 0, "objective value drifts")
    if case["what"] == "sa":
        mon.check(not told, "moves that do not worsen the objective were "
                  "counted as annealing moves")
