"""Tabu search: best move that is not tabu, tabu ones only if they improve."""
from .. import fits, gen, ref

RULE = ("A case = basic (or reactive) tabu on a connected map from given "
        "labels, with a recording acceptance rule (all moves, only improving "
        "or equal ones, random refusals). The recorded states are replayed "
        "against a reference tabu list. Checked: consecutive states differ "
        "by one legal move; a non-tabu move is one of the best legal non-tabu "
        "moves of its state; a tabu move improves the objective and is made "
        "only if no non-tabu move keeps it from worsening; a state is not "
        "left more often than allowed (nor does the search end earlier while "
        "there are moves to make); the answer is the last state. "
        "Non-trivial: a move was judged while another one was tabu.")
CASES = {"quick": 1600, "thorough": 20000}
MIN = {"fits": 500, "moves": 1500}
STEP_BUDGET = 2_000_000
DEFAULT_REPS = 5    # as documented
ASSUMPTIONS = ["exact sums (dyadic attributes), so that rounding decides "
               "nothing", "single component"]


def gen_(rng, idx, tier):
    m = gen.make_map(rng, rng.choice([4, 6, 8, 10, 12]), nmin=3)
    nb = gen.nbrs_of(m)
    n = m["n"]
    p = rng.choice([2, 2, 3, rng.randint(1, n)])
    p = min(p, n)
    return {"map": m, "p": p, "init": gen.random_partition(rng, nb, p),
            "attr": gen.dyadic_attr(rng, n) if rng.random() < .8 else
            gen.make_attr(rng, n, "ties"),
            "tabu": rng.choice([1, 2, 3, 5, 10, 40]),
            "reps": rng.choice([1, 1, 2, 3, None]),
            "mode": rng.choice(["all", "all", "all", "improving", "random"]),
            "rate": rng.choice([.5, .8, .95]),
            "limit": rng.choice([20, 60, 300]),
            "refit": rng.random() < .25,
            "reactive": rng.random() < .25,
            "maxit": rng.choice([1, 2, 3, 8, 100]),
            "k1": rng.choice([0, 0, 1, 2]), "k2": rng.choice([0, 1, 5]),
            "random_state": rng.randrange(10 ** 6)}


def run(case, mon):
    import random

    from region.p_regions import azp
    from region.p_regions.azp_util import AllowMoveStrategy
    rnd = random.Random(case["seed"])
    nb = gen.nbrs_of(case["map"])
    attr = [list(r) for r in case["attr"]]
    log = []

    class Recorder(AllowMoveStrategy):
        def __call__(self, area, new, labels):
            diff = self.objective_func.update(area, new, labels, self.attr)
            ok = case["mode"] == "all" or diff <= 0 or (
                case["mode"] == "random" and rnd.random() < case["rate"])
            if sum(e[3] for e in log) >= case["limit"]:
                ok = ok and diff < 0
            log.append((int(area), fits.labels_list([new])[0],
                        fits.labels_list(labels), bool(ok)))
            if ok:
                self.objective_val += diff
            return bool(ok)

    if case["reactive"]:
        est = azp.AZPReactiveTabu(max_iterations=case["maxit"], k1=case["k1"],
                                  k2=case["k2"],
                                  random_state=case["random_state"])
    else:
        limit = {} if case["reps"] is None else {
            "repetitions_before_termination": case["reps"]}
        est = azp.AZPBasicTabu(tabu_length=case["tabu"],
                               random_state=case["random_state"], **limit)
    est.allow_move_strategy = Recorder()
    for again in range(1 + case["refit"]):
        # (earlier fits of the same object change nothing)
        log.clear()
        mon.call(est.fit_from_scipy_sparse_matrix, gen.adj_of(case["map"]),
                 fits.attr_array(case), case["p"],
                 initial_labels=fits.label_array(case["seed"], case["init"]),
                 what="tabu search")
        mon.count("fits")
        mon.count("refits", again)
    final = fits.labels_list(est.labels_)
    if case["p"] == 1:
        return mon.check(final == case["init"], "labels changed")
    # replay
    state = list(case["init"])
    tabu = []               # reversals of the last moves made
    unsure = 0              # moves until the list is known again
    value = ref.pairwise_objective(state, attr, "manhattan")
    worst_tie = False
    values = []
    visits = [list(state)]
    size = case["tabu"] if not case["reactive"] else 1
    restarts = case["reactive"] and case["k1"] == case["k2"] == 0
    first = True
    for k, (area, new, before, ok) in enumerate(log):
        if before != state:
            mon.fail("the search is in %s, the last move led to %s" % (
                before, state))
        if not ok:
            continue
        nxt = log[k + 1][2] if k + 1 < len(log) else final
        if case["reactive"] and k + 1 == len(log):
            # the answer may be the state before a worsening move
            nxt = list(before)
            nxt[area] = new
        legal = ref.legal_moves(nb, state)
        moved = list(state)
        moved[area] = new
        if nxt == state:
            # an allowed move that was taken back
            mon.count("taken_back")
            mon.check((area, new) not in legal, lambda: "the legal move %d -> "
                      "%s was allowed in %s but not made" % (area, new, state))
            unsure = size
            continue
        if nxt != moved:
            mon.fail("allowed: %d -> %s in %s; the next state is %s" % (
                area, new, state, nxt))
        if not mon.check((area, new) in legal, lambda: "illegal move %d -> %s "
                         "made in %s" % (area, new, state)):
            return
        mon.count("moves")
        mon.seen("states", tuple(state))
        diff = ref.pairwise_objective(moved, attr, "manhattan") - value
        is_tabu = (area, state[area], new) in tabu
        judged = (not restarts or first) and not unsure
        if judged:
            free = {}
            for a, l in legal:
                if (a, state[a], l) not in tabu:
                    t = list(state)
                    t[a] = l
                    free[a, l] = ref.pairwise_objective(
                        t, attr, "manhattan") - value
            least = min(free.values(), default=None)
            mon.count("judged")
            if len(free) < len(legal):
                mon.count("judged_with_tabu")
                mon.nontrivial = True
            if is_tabu:
                mon.count("aspirations")
                mon.check(diff < 0 and not case["reactive"], lambda: "tabu move %d -> %s was made in "
                          "%s although it changes the objective by %r" % (
                              area, new, state, diff))
                refused = any(e[2] == state and not e[3] for e in log[:k])
                mon.check(least is None or least > 0 or refused, lambda:
                          "tabu move %d -> %s was made in %s although a "
                          "non-tabu move changes the objective by %r" % (
                              area, new, state, least))
            else:
                mon.check(diff == least, lambda: "move %d -> %s in %s changes "
                          "the objective by %r, the best non-tabu move by %r"
                          " (tabu: %s)" % (area, new, state, diff, least,
                                           tabu))
                if diff > 0 and not case["reactive"]:
                    mon.count("worsening_moves")
                    better = [t for t in tabu if state[t[0]] == t[1] and
                              (t[0], t[2]) in legal and
                              gain(state, t, attr, value) < 0]
                    refused = any(e[2] == state and not e[3] for e in log[:k])
                    mon.check(not better or refused, lambda: "worsening move "
                              "%d -> %s in %s although the tabu move %s "
                              "improves" % (area, new, state, better[0]))
        worst_tie = worst_tie or diff >= 0
        first = False
        if unsure:
            unsure -= 1
        tabu.append((area, new, state[area]))
        tabu = tabu[-size:]
        state = moved
        value += diff
        values.append(value)
        visits.append(state)
    if case["reactive"]:
        if not mon.check(not ref.partition_errors(nb, final, case["p"]),
                         "invalid result"):
            return
        got = ref.pairwise_objective(final, attr, "manhattan")
        mon.check(got == min(values or [value]), lambda: "reactive tabu "
                  "answers with objective %r, its solutions had %s" % (
                      got, values))
        mon.count("reactive_answers")
        if case["mode"] == "improving" and not worst_tie and \
                len(values) < case["maxit"]:
            mon.count("reactive_optima")
            least = min((gain(state, (a, state[a], l), attr, value)
                         for a, l in ref.legal_moves(nb, state)), default=0)
            mon.check(least >= 0, lambda: "reactive tabu stopped after %d of "
                      "%d iterations although a move changes the objective "
                      "by %r" % (len(values), case["maxit"], least))
        return
    mon.check(final == state, lambda: "the answer is %s, the search ended in "
              "%s" % (final, state))
    if case["mode"] == "all" and len(log) == len(visits) - 1 < case["limit"]:
        # every move was made: the search ends as it returns to a state
        reps = DEFAULT_REPS if case["reps"] is None else case["reps"]
        most = max(visits.count(v) for v in visits)
        mon.count("ends_judged")
        mon.check(most <= reps + 1, lambda: "the search went on after %d "
                  "visits of a state (limit %d)" % (most, reps))
        stuck = all((a, state[a], l) in tabu
                    for a, l in ref.legal_moves(nb, state))
        mon.check(stuck or visits.count(state) >= reps, lambda: "the search "
                  "ended with %d visits of its last state (limit %d) and "
                  "moves to make" % (visits.count(state), reps))


def gain(state, t, attr, value):
    s = list(state)
    s[t[0]] = t[2]
    return ref.pairwise_objective(s, attr, "manhattan") - value
