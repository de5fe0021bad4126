"""Simulated annealing: temperatures, lengths of stages, termination."""
import math
import random

import numpy as np

from .. import fits, gen, ref

RULE = ("A case = simulated annealing with an objective function of the "
        "caller which records all it is asked and answers that every move "
        "worsens the objective by d. Stages are told apart by the calls. "
        "cooling: one or more AZP runs per stage; the number of accepted moves "
        "in stage k must fit acceptance with probability exp(-d / (T0 c^k)) "
        "(6-sigma test per stage); frozen: no move is possible at T ~ 0, the "
        "number of runs is the number of non-moving steps asked for (fewer "
        "only if a solution was returned more often than allowed); stage: the "
        "first stage is hot, the second frozen, so that the length of the "
        "first one shows: it ends with the run that brings the moves to "
        "sa_moves_term, or after max_iterations runs, or with a run that "
        "changes nothing; history: a whole annealing, replayed run by run "
        "(some moves may be neutral, limits may be left to their defaults): "
        "every stage ends where it has to, and so does the annealing. "
        "Non-trivial: at least two runs observed.")
CASES = {"quick": 875, "thorough": 9000}
MIN = {"fits": 400}
STEP_BUDGET = 3_000_000


def gen_(rng, idx, tier):
    what = ("cooling", "frozen", "stage", "history", "frozen")[idx % 5]
    small = what == "frozen" and rng.random() < .7
    m = gen.make_map(rng, 4 if small else rng.choice([6, 9, 12, 16]),
                     nmin=3 if small else 5)
    nb = gen.nbrs_of(m)
    n = m["n"]
    p = rng.randint(2, max(2, n // 2))
    case = {"what": what, "map": m, "p": p,
            "init": gen.random_partition(rng, nb, p),
            "d": rng.choice([0.01, 1.0, 300.0]),
            "refit": rng.choice([0, 0, 1, 1, 2]) if what != "cooling" else
            int(rng.random() < .3), "was": rng.choice([1e-3, .3, 1, 3]),
            "random_state": rng.randrange(10 ** 6)}
    if what == "cooling":
        case.update(hot=rng.choice([1, 2, 4]),
                    cool=rng.choice([.5, .7, .85, .95, .3]),
                    nonmoving=rng.choice([1, 2]), reps=rng.choice([3, 50]),
                    max_iterations=rng.choice([1, 1, 2, 3, 5]), fits=12)
    elif what == "frozen":
        case.update(hot=1e-3, cool=rng.choice([.5, .85, .99]),
                    nonmoving=rng.choice([1, 2, 3, 5, 8]),
                    reps=rng.choice([1, 2, 4, 100]),
                    max_iterations=rng.choice([1, 2, 7, None]),
                    refit=rng.choice([0, 1, 3]), was=rng.choice([.3, 1, 3]),
                    start=rng.random() < .8)
    elif what == "history":
        case.update(hot=rng.choice([.3, 1, 3]),
                    cool=rng.choice([.2, .5, .7, .85]),
                    nonmoving=rng.choice([1, 2, 3, 4, None]),
                    reps=rng.choice([1, 2, 3, 7, None, None]),
                    max_iterations=rng.choice([1, 2, 3, 6]),
                    term=rng.choice([1, 2, 3, 5, 10, 20]),
                    neutral=rng.choice([None, None, rng.randrange(n)]))
    else:
        case.update(hot=rng.choice([1, 5, 30]), cool=1e-4, nonmoving=1,
                    reps=50, max_iterations=rng.choice([1, 2, 3, 6]),
                    term=rng.choice([1, 2, 5, 10, 30, 1000]))
    return case


class Log:
    """Runs of AZP: start labels and proposals with their fate."""

    def __init__(self, nb):
        self.nb = nb
        self.runs = []

    def started(self, labels):
        self.close(labels)
        if self.runs and not self.runs[-1]["moves"] and ref.legal_moves(
                self.nb, self.runs[-1]["start"]):
            self.runs.pop()    # an evaluation which started no run
        self.runs.append({"start": labels, "moves": []})

    def asked(self, area, new, labels):
        if not self.runs:
            self.runs.append({"start": labels, "moves": []})
        moves = self.runs[-1]["moves"]
        if moves and moves[-1][:3] == [area, new, labels]:
            return    # asked twice about one proposal
        if moves:
            moves[-1][3] = moves[-1][2] != labels
        moves.append([area, new, labels, False])

    def close(self, labels):
        if self.runs:
            run = self.runs[-1]
            if run["moves"]:
                run["moves"][-1][3] = run["moves"][-1][2] != labels
            run["end"] = labels

    def finish(self, labels):
        self.started(labels)
        self.runs.pop()


def fit(case, mon, seed, **kw):
    from region.objective_function import ObjectiveFunctionPairwise
    from region.p_regions.azp import AZPSimulatedAnnealing
    log = Log(gen.nbrs_of(case["map"]))
    scale = [case["d"]]

    class Recorder(ObjectiveFunctionPairwise):
        def __call__(self, labels, attr):
            log.started(fits.labels_list(labels))
            return 0.0

        def update(self, area, new, labels, attr):
            log.asked(int(area), fits.labels_list([new])[0],
                      fits.labels_list(labels))
            return 0.0 if area == case.get("neutral") else scale[0]

    est = AZPSimulatedAnnealing(random_state=seed, **kw)
    init = fits.label_array(case["seed"], case["init"]) \
        if case.get("start", True) else None
    args = dict(initial_labels=init, objective_func=Recorder())
    for again in range(1 + case["refit"]):
        # (earlier fits of the same object change nothing)
        log.runs.clear()
        last = again == case["refit"]
        scale[0] = case["d"] if last else kw["init_temperature"] / case["was"]
        mon.call(est.fit_from_scipy_sparse_matrix, gen.adj_of(case["map"]),
                 np.zeros((case["map"]["n"], 1)), case["p"],
                 what="annealing fit",
                 cooling_factor=case["cool"] if last else .5, **args)
        mon.count("refits", again)
    mon.count("fits")
    log.finish(fits.labels_list(est.labels_))
    mon.count("runs", len(log.runs))
    if len(log.runs) > 1:
        mon.nontrivial = True
    return log.runs


def accepted(run):
    return sum(m[3] for m in run["moves"])


def chain(mon, case, runs):
    """Every run continues where the last one ended."""
    if case.get("start", True) and runs:
        mon.check(runs[0]["start"] == case["init"], lambda: "annealing starts "
                  "from %s, not from the given %s" % (runs[0]["start"],
                                                      case["init"]))
    for a, b in zip(runs, runs[1:]):
        mon.check(b["start"] == a["end"], lambda: "a run starts from %s, the "
                  "one before ended in %s" % (b["start"], a["end"]))


def run(case, mon):
    globals()[case["what"]](case, mon)


def cooling(case, mon):
    d, c = case["d"], case["cool"]
    t0 = d * case["hot"]
    tried, taken = {}, {}
    longest = case["max_iterations"]
    nb = gen.nbrs_of(case["map"])
    for f in range(case["fits"]):
        runs = fit(case, mon, case["random_state"] + f, init_temperature=t0,
                   max_iterations=longest, sa_moves_term=10 ** 9,
                   nonmoving_steps_before_stop=case["nonmoving"],
                   repetitions_before_termination=case["reps"])
        chain(mon, case, runs)
        if longest > 1 and any(not ref.legal_moves(nb, r["start"])
                               for r in runs):
            continue     # runs without proposals cannot be told apart
        k, length = 0, 0
        for r in runs:
            tried[k] = tried.get(k, 0) + len(r["moves"])
            taken[k] = taken.get(k, 0) + accepted(r)
            length += 1
            if length == longest or r["start"] == r["end"]:
                # (a stage ends early with a run that changes nothing)
                k, length = k + 1, 0
        mon.count("stages_of_runs", k if longest > 1 else 0)
        if longest == 1:
            ends_properly(case, mon, runs)
        if mon.violations:
            return
        if mon.counts["steps"] > 60_000:
            break    # slow coolings of large maps: enough seen
    for k in tried:
        p = math.exp(-d / (t0 * c ** k))
        n = tried[k]
        sigma = math.sqrt(n * p * (1 - p)) + 1
        mon.count("stages_judged", n * p * (1 - p) > 4)
        mon.check(abs(taken[k] - n * p) <= 6 * sigma, lambda: "stage %d: %d "
                  "of %d moves accepted, expected %.1f (T0 = %r, cooling "
                  "factor %r)" % (k, taken[k], n, n * p, t0, c))
    mon.count("stages", len(tried))


def ends_properly(case, mon, runs):
    """One run per stage: the end comes with enough non-moving stages or a
    solution returned too often."""
    if not runs:
        return
    still = [accepted(r) == 0 for r in runs]
    ends = [tuple(r["end"]) for r in runs]
    often = ends.count(ends[-1])
    reps, need = case["reps"], case["nonmoving"]
    mon.check(sum(still) <= need + 1, lambda: "%d stages without moves, "
              "asked for %d" % (sum(still), need))
    mon.check(max(ends.count(e) for e in ends) <= reps + 1, lambda: "a "
              "solution was returned by %d runs, the limit is %d" % (
                  max(ends.count(e) for e in ends), reps))
    mon.check(sum(still) >= need or often >= reps, lambda: "ended after %d "
              "stages without moves (asked for %d) and %d returns of the "
              "same solution (limit %d)" % (sum(still), need, often, reps))


def frozen(case, mon):
    kw = {} if case["max_iterations"] is None else {
        "max_iterations": case["max_iterations"]}
    runs = fit(case, mon, case["random_state"],
               init_temperature=case["d"] * case["hot"],
               sa_moves_term=10,
               nonmoving_steps_before_stop=case["nonmoving"],
               repetitions_before_termination=case["reps"], **kw)
    chain(mon, case, runs)
    mon.count("frozen")
    if not runs:
        return
    mon.check(not any(accepted(r) for r in runs),
              "moves that worsen the objective were made at T ~ 0")
    want = case["nonmoving"]
    n = len(runs)
    if case["start"]:
        mon.check(n <= want and (n == want or n >= case["reps"]), lambda: "%d "
                  "runs of a frozen annealing, asked for %d non-moving steps "
                  "(a solution may return %d times)" % (n, want,
                                                        case["reps"]))
        mon.count("frozen_judged")
    else:
        mon.check(n <= want + 1, lambda: "%d runs of a frozen annealing, "
                  "asked for %d non-moving steps" % (n, want))


def stage(case, mon):
    runs = fit(case, mon, case["random_state"],
               init_temperature=case["d"] * case["hot"],
               max_iterations=case["max_iterations"],
               sa_moves_term=case["term"], nonmoving_steps_before_stop=1,
               repetitions_before_termination=50)
    chain(mon, case, runs)
    if len(runs) < 2:
        mon.check(not runs or accepted(runs[0]) == 0, "annealing ended after "
                  "one stage although moves were made in it")
        return
    # which runs belong to the first stage?
    want, moves = 0, 0
    for r in runs:
        want += 1
        moves += accepted(r)
        if moves >= case["term"] or want == case["max_iterations"] or \
                r["end"] == r["start"]:
            break
    later = runs[want:]
    if moves == 0:
        # the first stage was non-moving already
        mon.check(len(runs) == want, "annealing went on after the only "
                  "non-moving stage")
        return
    mon.count("stages_measured")
    mon.check(len(later) == 1 and accepted(later[0]) == 0, lambda: "a hot "
              "stage should have ended after %d runs (%d moves, limits: %d "
              "runs, %d moves), followed by one frozen run; later runs "
              "accepted %s" % (want, moves, case["max_iterations"],
                               case["term"],
                               [accepted(r) for r in later]))


DEFAULTS = {"nonmoving": 3, "reps": 5}     # as documented


def history(case, mon):
    limits = {"nonmoving": "nonmoving_steps_before_stop",
              "reps": "repetitions_before_termination"}
    given = {arg: case[k] for k, arg in limits.items() if case[k] is not None}
    need, reps = (DEFAULTS[k] if case[k] is None else case[k] for k in limits)
    runs = fit(case, mon, case["random_state"],
               init_temperature=case["d"] * case["hot"],
               max_iterations=case["max_iterations"],
               sa_moves_term=case["term"], **given)
    chain(mon, case, runs)
    nb = gen.nbrs_of(case["map"])
    if mon.violations or any(not ref.legal_moves(nb, r["start"])
                             for r in runs):
        return     # runs without proposals cannot be told apart
    i, stages, still, returned = 0, 0, 0, []
    while i < len(runs):
        length, moves, worse, over = 0, 0, 0, False
        while i < len(runs) and not over:
            r = runs[i]
            i, length = i + 1, length + 1
            moves += accepted(r)
            worse += sum(m[3] for m in r["moves"]
                         if m[0] != case["neutral"])
            over = worse >= case["term"] or r["start"] == r["end"] or \
                length == case["max_iterations"]
        if not mon.check(over, lambda: "annealing ended within a stage of %d "
                         "runs with %d worsening moves (limits: %d runs, %d "
                         "moves)" % (length, worse, case["max_iterations"],
                                     case["term"])):
            return
        stages += 1
        still += moves == 0
        before = returned.count(r["end"])
        returned.append(r["end"])
        mon.count("stages_replayed")
        told = (stages, still, need, before + 1, reps)
        text = ("%d stages, %d of them without moves (limit %d), the last "
                "solution returned %d times (limit %d)")
        if i == len(runs):
            mon.check(still >= need or before + 1 >= reps, lambda:
                      "annealing ended after " + text % told)
        elif not mon.check(still < need and before < reps, lambda:
                           "annealing went on after " + text % told):
            return
    mon.count("histories")
