"""Same random_state, same result: whatever ran before, in any process."""
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import gen, jobs, ref

KINDS = jobs.HEU + ("maxp", "skater")     # exact methods take no random_state

RULE = ("A case = a batch of fits (every heuristic and SKATER, every entry point, string "
        "and integer area names) run several times: in this process with "
        "different prior activity (random numbers drawn, other fits, an "
        "explicit reseeding), in another order, and in fresh processes with "
        "other PYTHONHASHSEED values. Oracle: the label arrays of all runs "
        "of a fit are equal. Non-trivial: a fit of more than two areas with "
        "1 < p < n.")
CASES = {"quick": 90, "thorough": 1500}
MIN = {"reruns": 500, "fresh_process_fits": 80, "stochastic": 300,
       "state_falsy int": 20, "state_falsy str": 10, "state_bytes": 10,
       "state_bytearray": 10}
SPAWNS = True
CASE_LIMIT = 240


def gen_(rng, idx, tier):
    fresh = idx % 5 == 0
    k = 14 if fresh else 8
    js = []
    for _ in range(k):
        j = jobs.gen_job(rng, rng.choice([4, 8, 12]), KINDS,
                         generic=rng.random() < .5)
        if "algo" in j and rng.random() < .4:
            text = "seed%d" % rng.randrange(999)
            j["algo"]["random_state"] = rng.choice([
                0, 0, -7, 2 ** 70, "", {"bytes": text}, {"bytearray": text},
                {"bytes": ""}])
        if j["kind"] == "maxp" and rng.random() < .3:
            j["default_local"] = True
        if j["kind"] == "maxp" and rng.random() < .5:
            # many equally good choices
            j["attr"] = gen.make_attr(rng, j["map"]["n"],
                                      rng.choice(["constant", "ties"]))
            j["ext"] = [[1.0] * len(r) for r in j["ext"]]
            small = min(len(c) for c in
                        ref.components(gen.nbrs_of(j["map"])))
            j["threshold"] = float(rng.randint(1, max(1, min(small, 4))))
        js.append(j)
    return {"jobs": js,
            "hash_seed": rng.choice([0, 1, 7, 12345, "random"]),
            "fresh": fresh, "prior": rng.randrange(10 ** 6)}


def one(job, mon=None):
    """Labels of one run: construct, then fit."""
    args = jobs.Args(job)
    if jobs.small_island(args):
        return None
    if mon is None:
        return jobs.fit(jobs.make(job), args)

    def go():
        return jobs.fit(jobs.make(job), args)
    return mon.call(go, what=job["kind"] + " fit", budget=jobs.budget(job))


def disturb(rnd, js):
    """Prior activity that must not matter."""
    k = rnd.randrange(4)
    if k == 0:
        random.seed(rnd.randrange(99))
        np.random.seed(rnd.randrange(99))
    elif k == 1:
        [random.random() for _ in range(rnd.randrange(1, 50))]
        np.random.rand(rnd.randrange(1, 50))
    elif k == 2:
        one(rnd.choice(js))
    return k


def run(case, mon):
    js = case["jobs"]
    rnd = random.Random(case["prior"])
    first = []
    for j in js:
        first.append(one(j, mon))
    order = list(range(len(js)))
    for _ in range(2):
        rnd.shuffle(order)
        for i in order:
            d = disturb(rnd, [j for j in js if j["kind"] in jobs.HEU] or js)
            again = one(js[i], mon)
            mon.count("reruns")
            mon.count("rerun_after_%d" % d)
            if js[i]["kind"] in jobs.HEU + ("maxp",):
                mon.count("stochastic")
            mon.check(again == first[i], lambda: "%s (via %s) with the same "
                      "random_state: %s, then %s" % (
                          js[i]["kind"], js[i]["via"], first[i], again))
    for j, l in zip(js, first):
        mon.seen("results", (j["map"]["edges"], l))
        mon.count("fits_" + j["kind"])
        mon.count("via_" + j["via"])
        if "algo" in j:
            state = j["algo"]["random_state"]
            mon.count("state_" + ("falsy " if not state or not all(
                state.values() if isinstance(state, dict) else [1]) else "") +
                (list(state)[0] if isinstance(state, dict)
                 else type(state).__name__))
    mon.nontrivial = any(2 < j["map"]["n"] and 1 < j["p"] < j["map"]["n"]
                         for j in js)
    if not case["fresh"]:
        return
    env = dict(os.environ, PYTHONHASHSEED=str(case["hash_seed"]))
    order = list(range(len(js)))
    rnd.shuffle(order)
    r = subprocess.run([sys.executable, "-m", "rvmon.checks.c12"], env=env,
                       input=json.dumps([js[i] for i in order]),
                       capture_output=True, text=True, timeout=200)
    if r.returncode:
        raise RuntimeError("child failed: " + r.stderr[-800:])
    out = json.loads(r.stdout.strip().splitlines()[-1])
    for i, got in zip(order, out):
        mon.count("fresh_process_fits")
        mon.check(got == first[i], lambda: "%s (via %s) with the same "
                  "random_state in a fresh process (PYTHONHASHSEED=%s): %s, "
                  "there %s" % (js[i]["kind"], js[i]["via"],
                                case["hash_seed"], first[i], got))


def child():
    js = json.load(sys.stdin)
    keep = os.dup(1)
    from ..run import quiet
    quiet()
    out = [one(j) for j in js]
    os.dup2(keep, 1)
    print()
    print(json.dumps(out))


if __name__ == "__main__":
    child()
