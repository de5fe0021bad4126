"""Fits leave the process as it was: files, settings, handles."""
import contextlib
import math
import gc
import multiprocessing
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np

from .. import fits, jobs

RULE = ("A case = fits of estimators of any kind through any entry point "
        "(some refused, some broken off by a function of the user that "
        "raises) in an empty working and temporary directory. Before and "
        "after each fit a snapshot is taken of files, open file descriptors, "
        "threads, child processes, working directory, environment, numpy's "
        "error and print settings, warning filters, recursion limit, signal "
        "handlers and standard streams. One estimator then solves the same "
        "problem again and again: its pickled size must neither grow much nor "
        "with every fit. Non-trivial: at least one "
        "fit succeeded.")
CASES = {"quick": 400, "thorough": 6000}
MIN = {"fits": 300, "broken_off": 30, "refused": 30, "solver_runs": 30,
       "repeated": 100}
ASSUMPTIONS = ["Python's random state is the one thing a fit may use up"]


def gen_(rng, idx, tier):
    kinds = jobs.HEU + ("maxp", "maxp", "exact", "exact", "maxp_exact",
                        "skater")
    js = [jobs.gen_job(rng, rng.choice([3, 6, 10]), kinds)
          for _ in range(rng.choice([1, 2, 3]))]
    return {"jobs": js, "how": [rng.choice(["fit", "fit", "refused", "broken"])
                                for _ in js],
            "pick": rng.randrange(100),
            "settings": rng.choice([None, None, "strict", "odd"]),
            "again": rng.choice([3, 7])}


class Broken(Exception):
    pass


def handles():
    out = []
    for fd in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            out.append((fd, os.readlink("/proc/self/fd/" + fd)))
    return sorted(x for x in out if "/proc/" not in x[1])


def children():
    with contextlib.suppress(OSError):
        with open("/proc/self/task/%d/children" % threading.get_native_id()) \
                as f:
            return sorted(f.read().split())
    return []


def files(root):
    return sorted(os.path.join(d, f) for d, ds, fs in os.walk(root)
                  for f in fs + ds)


def snapshot(root):
    return {
        "files": files(root),
        "file descriptors": handles(),
        "threads": sorted(t.name for t in threading.enumerate()),
        "child processes": children() + [
            str(p.pid) for p in multiprocessing.active_children()],
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "numpy's error settings": np.geterr(),
        "numpy's print settings": repr(np.get_printoptions()),
        "warning filters": [repr(f) for f in warnings.filters],
        "recursion limit": sys.getrecursionlimit(),
        "signal handlers": [signal.getsignal(s) for s in (
            signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "garbage collection": gc.isenabled(),
    }


def unmeetable(args, pick):
    """Makes the request impossible."""
    kind = args.job["kind"]
    if kind == "skater":
        args.kwargs["quorum"] = args.job["map"]["n"] + 1
        args.args[0] = 2
    elif kind in ("maxp", "maxp_exact"):
        args.args[3] = [1e9, 1e9, math.inf, math.nan][pick % 4]
    elif kind == "exact" and pick % 2:
        args.kwargs["solver"] = "none such"
    else:
        args.args[2] = args.job["map"]["n"] + 1 + pick % 3


def breaking(est, args, after):
    """Makes a function of the user raise after some calls."""
    from region.objective_function import ObjectiveFunctionPairwise
    kind = args.job["kind"]
    left = [after]

    def tick():
        left[0] -= 1
        if left[0] < 0:
            raise Broken()

    def metric(a, b=None, X=None, Y=None):
        tick()
        return float(np.abs(np.asarray(a) - np.asarray(b)).sum())

    class Objective(ObjectiveFunctionPairwise):
        def __call__(self, *a, **k):
            tick()
            return super().__call__(*a, **k)

        def update(self, *a, **k):
            tick()
            return super().update(*a, **k)
    if kind in ("exact", "maxp_exact"):
        args.kwargs["metric"] = metric
    elif kind == "skater":
        real = est.reduction

        def reduction(x):
            tick()
            return real(x)
        est.reduction = reduction
    else:
        args.kwargs["objective_func"] = Objective()


@contextlib.contextmanager
def surroundings(case):
    """Empty directories, unusual settings; all undone afterwards."""
    root = tempfile.mkdtemp(prefix="rvmon-c29-")
    cwd, env, tmp = os.getcwd(), dict(os.environ), tempfile.tempdir
    try:
        for d in ("cwd", "tmp"):
            os.mkdir(os.path.join(root, d))
        for k in ("TMPDIR", "TMP", "TEMP"):
            os.environ[k] = os.path.join(root, "tmp")
        tempfile.tempdir = os.path.join(root, "tmp")
        os.chdir(os.path.join(root, "cwd"))
        with np.errstate(), np.printoptions(), warnings.catch_warnings():
            if case["settings"] == "strict":
                np.seterr(divide="warn", invalid="print", over="warn")
                warnings.simplefilter("ignore")
            elif case["settings"] == "odd":
                np.set_printoptions(precision=3, threshold=5)
                warnings.filterwarnings("ignore", "never said")
            yield root
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        tempfile.tempdir = tmp
        shutil.rmtree(root, ignore_errors=True)


def run(case, mon):
    with surroundings(case) as root:
        observe(case, mon, root)


def observe(case, mon, root):
    for job, how in zip(case["jobs"], case["how"]):
        args = jobs.Args(job)
        est = jobs.make(job)
        if how == "fit" and jobs.small_island(args):
            how = "refused"
        elif how == "refused":
            unmeetable(args, case["pick"])
        elif how == "broken":
            breaking(est, args, case["pick"] % 12)
        before = snapshot(root)
        _, exc = mon.attempt(jobs.fit, est, args, budget=jobs.budget(job))
        if how == "fit" and exc is not None:
            mon.fail("%s fit raised %r" % (job["kind"], exc))
        mon.count("fits")
        mon.count("refused", how == "refused" and exc is not None)
        mon.count("broken_off", isinstance(exc, Broken))
        mon.count("solver_runs", job["kind"] in ("exact", "maxp_exact") and
                  exc is None)
        exc = None
        compare(mon, before, snapshot(root), job, how)
        mon.nontrivial = mon.nontrivial or how == "fit"
        mon.seen("kinds", (job["kind"], job["via"], how))
        if mon.violations:
            return
    repeat(case, mon, root)


def compare(mon, a, b, job, how):
    for k in a:
        mon.check(a[k] == b[k], lambda: "%s of the process differ after a %s "
                  "fit via %s (%s): %s" % (k, job["kind"], job["via"], how,
                                           difference(a[k], b[k])))


def difference(a, b):
    if isinstance(a, dict):
        return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
    if isinstance(a, list):
        return "before %s, after %s" % ([x for x in a if x not in b],
                                        [x for x in b if x not in a])
    return "before %r, after %r" % (a, b)


def repeat(case, mon, root):
    """One estimator, one problem, many fits."""
    job = case["jobs"][0]
    if jobs.small_island(jobs.Args(job)):
        return
    est = jobs.make(job, seeded=False)
    sizes = []
    for _ in range(case["again"]):
        random.seed(case["pick"])
        mon.call(jobs.fit, est, jobs.Args(job), budget=jobs.budget(job),
                 what="repeated %s fit" % job["kind"])
        try:
            sizes.append(len(pickle.dumps(est)))
        except Exception:
            return mon.count("not_pickled")
    mon.count("repeated")
    rises = len(sizes) > 5 and all(a < b for a, b in zip(sizes, sizes[1:]))
    mon.check(sizes[-1] <= 1.1 * sizes[0] + 200 and not rises, lambda: "the pickled size "
              "of a %s estimator grows with the number of its fits: %s" % (
                  job["kind"], sizes))
