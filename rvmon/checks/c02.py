"""AZP moves: legal, exactly the allowed ones, and all legal ones considered."""
import random

from .. import fits, gen, ref

RULE = ("A case = random connected or split map, feasible initial labels, and "
        "an allow-move strategy object passed by the caller which records "
        "every consultation and answers at random (accept rate 0..1), "
        "by adversarial rule, or by the real objective. The recorded event "
        "log is checked against a reference transition system. Non-trivial: "
        "at least one accepted and one refused move.")
CASES = {"quick": 1500, "thorough": 24000}
MIN = {"consultations": 3000, "accepted": 300, "final_passes": 200}
STEP_BUDGET = 2_000_000


def gen_(rng, idx, tier):
    m = gen.make_map(rng, rng.choice([3, 5, 8, 12, 16, 24]),
                     max_comps=rng.choice([1, 1, 1, 3]))
    nb = gen.nbrs_of(m)
    n, c = m["n"], len(ref.components(nb))
    p = rng.choice([rng.randint(c, n), min(n, c + 1), min(n, c + 2),
                    min(n, c + 3)])
    init = gen.random_partition(rng, nb, p)
    if rng.random() < 0.5:
        init = gen.any_labels(rng, init)
    case = {"map": m, "p": p, "init": init, "attr": gen.make_attr(rng, n),
            "mode": rng.choice(["random", "random", "first", "never",
                                "objective", "to_small", "pingpong"]),
            "rate": rng.choice([0.05, 0.3, 0.7, 1.0]),
            "max_accepts": rng.choice([1, 3, 10, 40]),
            # the objective value the rule shows
            "value": rng.choice([0.0, 0.0, 1.0, 2.0**40, -2.0**40]),
            "gain": rng.choice([1.0, 1.0, 2.0**-12])}
    if rng.random() < 0.15:
        case["init_none"] = True
    return fits.decorate(rng, case)


def run(case, mon):
    from region.p_regions.azp import AZP
    from region.p_regions.azp_util import AllowMoveStrategy
    nb_all = gen.nbrs_of(case["map"])
    rnd = random.Random(case["seed"])
    log = []    # one entry per component: dict(idx, events)

    class Recorder(AllowMoveStrategy):
        def start_new_component(self, initial_labels, attr, objective_func,
                                comp_idx):
            super().start_new_component(initial_labels, attr, objective_func,
                                        comp_idx)
            self.objective_val = case.get("value", 0.0)
            self.accepts = 0
            self.comp = {"idx": [int(i) for i in comp_idx],
                         "init": fits.labels_list(initial_labels),
                         "attr": [list(map(float, r)) for r in attr],
                         "events": []}
            log.append(self.comp)

        def __call__(self, moving_area, new_region, labels):
            before = fits.labels_list(labels)
            ok = self.decide(int(moving_area), new_region, labels)
            ok = bool(ok) and self.accepts < case["max_accepts"]
            if ok:
                self.accepts += 1
                self.objective_val -= case.get("gain", 1.0)
            self.comp["events"].append(
                (int(moving_area), fits.labels_list([new_region])[0], before,
                 ok))
            return ok

        def decide(self, area, new, labels):
            mode = case["mode"]
            if mode == "never":
                return False
            if mode == "first":
                return True
            if mode == "objective":
                return self.objective_func.update(area, new, labels,
                                                  self.attr) <= 0
            if mode == "to_small":
                return sum(labels == new) < sum(labels == labels[area])
            if mode == "pingpong":
                return area % 2 == 0
            return rnd.random() < case["rate"]

    est = AZP(allow_move_strategy=Recorder(), random_state=case["seed"])
    init = None if case.get("init_none") else \
        fits.label_array(case["seed"], case["init"])
    mon.call(est.fit_from_scipy_sparse_matrix, fits.adj_array(case),
             fits.attr_array(case), case["p"], initial_labels=init,
             what="AZP fit with a custom strategy")
    final = fits.labels_list(est.labels_)
    attr = ref.rows(case["attr"])
    covered = []
    # the strategy may see other names of the regions than the caller uses
    names = {}
    if init is not None:
        for comp in log:
            names.update(zip(comp["init"],
                             (case["init"][a] for a in comp["idx"])))
        mon.check(len(set(names.values())) == len(names),
                  "two names for one region: %s" % names)
    for comp in log:
        idx = comp["idx"]
        if init is not None:
            comp["init"] = [names.get(l, l) for l in comp["init"]]
            comp["events"] = [
                (area, names.get(new, new), [names.get(l, l) for l in before],
                 ok) for area, new, before, ok in comp["events"]]
        covered += idx
        pos = {a: k for k, a in enumerate(idx)}
        nb = [{pos[w] for w in nb_all[a] if w in pos} for a in idx]
        mon.check(sorted(idx) in [sorted(c) for c in
                                  ref.components(nb_all)],
                  "areas %s announced as a component are none" % idx)
        if init is not None:
            mon.check(comp["init"] == [case["init"][a] for a in idx],
                      lambda: "component starts from %s instead of the given "
                      "labels %s" % (comp["init"],
                                     [case["init"][a] for a in idx]))
        mon.check(comp["attr"] == [attr[a] for a in idx],
                  "the strategy got other areas' attributes")
        state = list(comp["init"])
        offered = set()
        for area, new, before, ok in comp["events"]:
            mon.count("consultations")
            if before != state:
                mon.fail("labels changed outside of an allowed move: "
                         "expected %s, strategy saw %s" % (state, before))
            legal = (area, new) in ref.legal_moves(nb, state)
            if not legal:
                mon.fail("illegal move offered: area %d -> region %s in %s"
                         % (area, new, state))
            offered.add((area, new))
            if ok:
                mon.count("accepted")
                state[area] = new
                offered = set()
            else:
                mon.count("refused")
            mon.seen("states", tuple(state))
        if [final[a] for a in idx] != state:
            mon.fail("final labels %s are not the initial ones plus the "
                     "allowed moves %s" % ([final[a] for a in idx], state))
        missing = ref.legal_moves(nb, state) - offered
        if missing:
            mon.fail("run ended in %s without considering legal moves %s"
                     % (state, sorted(missing)[:5]))
        mon.count("final_passes")
    mon.check(sorted(covered) == list(range(len(nb_all))),
              "not every area was part of exactly one component")
    mon.nontrivial = mon.counts["accepted"] > 0 and mon.counts["refused"] > 0
