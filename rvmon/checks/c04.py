"""Objective functions: value = definition, update = actual change."""
import numpy as np

from .. import fits, gen, ref

RULE = ("A case = random labels (any integers, also negative or float), "
        "random attributes (incl. zeros, ties, 1e6 and 1e-3 scales), random "
        "objective, and several random single-area moves (donor may vanish, "
        "recipient may be new to the area). Non-trivial: at least two regions "
        "and a move with non-zero effect.")
CASES = {"quick": 3000, "thorough": 60000}
MIN = {"values": 1000, "updates": 3000}
STEP_BUDGET = 2_000_000
ASSUMPTIONS = ["tolerance: sklearn's euclidean distance of close points is "
               "accurate to about 1e-7 of their norm"]


def gen_(rng, idx, tier):
    n = rng.choice([1, 2, 3, 5, 8, 13, 20])
    k = rng.randint(1, min(n, 5))
    labels = list(range(k)) + [rng.randrange(k) for _ in range(n - k)]
    rng.shuffle(labels)
    if rng.random() < 0.3:
        names = rng.sample(range(-9, 60), k)
        labels = [names[x] for x in labels]
    spec = fits.gen_objective(rng)
    if spec["kind"] == "center" and rng.random() < 0.3:
        spec["reduction"] = "median"
    exact = rng.random() < .15
    if exact:
        spec = {"kind": "pairwise", "metric": rng.choice(
            ["manhattan", "cityblock", "l1"])}
    case = {"labels": labels, "attr": gen.dyadic_attr(rng, n) if exact
            else gen.make_attr(rng, n),
            "objective": spec, "exact": exact,
            "moves": [[rng.randrange(n), rng.choice(labels)]
                      for _ in range(6)],
            "dtype": rng.choice(["int32", "int64", "float64"]),
            "via": rng.choice(["name", "name", "func", "default"])}
    if not exact and rng.random() < .15:
        case["attr_dtype"] = rng.choice(["int64", "uint8", "int8", "uint64"])
        case["attr"] = [[rng.randint(0, 120) for _ in r]
                        for r in case["attr"]]
    return case


def build(case):
    from region import objective_function as of
    spec = case["objective"]
    if case["via"] == "func" and ":" not in spec["metric"]:
        from sklearn.metrics.pairwise import distance_metrics
        metric = distance_metrics()[spec["metric"]]
    else:
        metric = fits.metric(spec["metric"])
    if spec["kind"] == "pairwise":
        return of.ObjectiveFunctionPairwise(metric)
    if case["via"] == "default" and spec["center"] == "mean" and \
            spec["reduction"] == "sum":
        return of.ObjectiveFunctionCenter(metric)
    return of.ObjectiveFunctionCenter(
        metric, center=getattr(np, spec["center"]),
        reduction=getattr(np, spec["reduction"]))


def scalar(x):
    a = np.asarray(x, dtype=float)
    return float(a.reshape(-1)[0]) if a.size == 1 else None


def run(case, mon):
    labels = np.array(case["labels"], dtype=case["dtype"])
    attr = fits.attr_array(case)
    obj = build(case)
    spec = case["objective"]
    lab0, att0 = labels.copy(), attr.copy()
    got = scalar(mon.call(obj, labels, attr, what="objective value"))
    want = fits.ref_objective(spec, case["labels"], case["attr"])
    size = max(abs(x) for r in case["attr"] for x in r) * len(labels)
    if spec["metric"] == "cosine":
        size = max(1.0, len(labels))
    tol = 0 if case["exact"] else 2e-7 * size + 1e-12
    mon.count("values")
    mon.check(got is not None and abs(got - want) <= tol,
              lambda: "value is %r, by definition %r (%s)" % (got, want, spec))
    mon.check((labels == lab0).all() and (attr == att0).all(),
              "evaluating the objective changed its arguments")
    big = False
    for area, new in case["moves"]:
        moved = list(case["labels"])
        moved[area] = new
        if moved == case["labels"]:
            continue
        diff = scalar(mon.call(obj.update, area, new, labels, attr,
                               what="objective update"))
        real = fits.ref_objective(spec, moved, case["attr"]) - want
        mon.count("updates")
        if abs(real) > tol:
            big = True
        if case["labels"].count(case["labels"][area]) == 1:
            mon.count("updates_emptying_the_donor")
        mon.check(diff is not None and abs(diff - real) <= 2 * tol,
                  lambda: "update(%d -> %s) of %s is %r, the real change is "
                  "%r (%s)" % (area, new, case["labels"], diff, real, spec))
        if not mon.check((labels == lab0).all() and (attr == att0).all(),
                         "update changed its arguments"):
            break
    # the value depends on the clustering only
    names = {l: 100 - 3 * i for i, l in enumerate(sorted(set(case["labels"])))}
    perm = list(range(len(labels)))[::-1]
    other = scalar(mon.call(
        obj, np.array([names[case["labels"][i]] for i in perm]), attr[perm],
        what="objective value"))
    mon.check(other is not None and abs(other - got) <= tol,
              lambda: "renaming regions and reordering areas changes the value "
              "from %r to %r" % (got, other))
    mon.nontrivial = big and len(set(case["labels"])) > 1
