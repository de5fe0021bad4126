"""Jobs: one fit of any of region's methods through any entry point.

Used by the checks about reproducibility, refits, inputs and concurrency.
"""
import random

import networkx as nx
import numpy as np
import scipy.sparse as sp

from . import entry, fits, gen, ref

HEU = ("azp", "sa", "basic", "reactive")
ALL = HEU + ("maxp", "exact", "maxp_exact", "skater")


def gen_job(rng, nmax=10, kinds=ALL, vias=None, generic=True, max_comps=2,
            nmin=2):
    kind = rng.choice(kinds)
    if kind == "exact":
        nmax = min(nmax, 6)
    if kind == "maxp_exact":
        nmax = min(nmax, 4)
    via = rng.choice(vias or ("sparse", "sparse", "dict", "networkx", "w",
                              "gdf"))
    if kind == "skater":
        via = "w"
    if via == "gdf":
        rows, cols = rng.choice([(1, 2), (1, 3), (2, 2), (2, 3), (3, 3),
                                 (2, 4), (2, 5)])
        while rows * cols > max(2, nmax):
            rows, cols = rng.choice([(1, 2), (1, 3), (2, 2), (2, 3)])
        order = list(range(rows * cols))
        m = {"n": len(order), "kind": "grid",
             "edges": entry.grid_edges(rows, cols, order, False)}
    else:
        rows = cols = None
        m = gen.make_map(rng, nmax, nmin=nmin, max_comps=rng.choice(
            [1] * 3 + [max_comps]))
    nb = gen.nbrs_of(m)
    n, c = m["n"], len(ref.components(nb))
    akind = rng.choice(gen.GENERIC) if generic or kind == "sa" else None
    job = {"kind": kind, "via": via, "map": m, "rows": rows, "cols": cols,
           "names": ["area%d" % i for i in rng.sample(range(3 * n), n)]
           if rng.random() < .6 else rng.sample(range(4 * n), n),
           "attr": gen.make_attr(rng, n, akind, dim=rng.choice([2, 3])
                                 if kind == "sa" else None),
           "p": rng.choice([min(n, c + 1), rng.randint(c, n)]),
           "dict_seed": rng.randrange(10 ** 6)}
    if kind in HEU:
        job["algo"] = fits.gen_algo(rng, (kind,))
        if kind == "sa":
            job["algo"].update(nonmoving=1, reps=1)
        if rng.random() < .4:
            job["init"] = gen.any_labels(
                rng, gen.random_partition(rng, nb, job["p"]))
    elif kind == "maxp":
        job["algo"] = fits.gen_algo(rng, ("azp", "azp", "basic", "reactive"))
        job["max_it"] = rng.choice([1, 2, 4])
    elif kind == "exact":
        job["method"] = rng.choice(["flow", "order", "tree"])
    elif kind == "skater":
        job["islands"] = rng.choice(["increase", "ignore"])
        job["quorum"] = rng.choice([None, 1, 1, 2, 3])
        job["p"] = rng.randint(1, n)
        job["trace"] = rng.random() < .5
        job["row"] = rng.random() < .4
    job["row"] = rng.random() < .4
    if kind in HEU + ("maxp",):
        job["objective"] = None if rng.random() < .3 else \
            fits.gen_objective(rng, kind != "sa")
    k = rng.choice([1, 1, 2])
    ext = [[float(rng.choice([0, 1, 3, 8])) for _ in range(k)]
           for _ in range(n)]
    for comp in ref.components(nb):
        ext[sorted(comp)[0]] = [9.0] * k
    job["ext"] = ext
    lim = min(sum(ext[i][q] for i in comp) for comp in ref.components(nb)
              for q in range(k))
    job["threshold"] = float(rng.randint(1, int(lim)))
    job["thr_array"] = k > 1 and rng.random() < .5
    return job


class Args:
    """Fresh arguments of one fit."""

    def __init__(self, job):
        self.job = job
        via, kind = job["via"], job["kind"]
        rnd = random.Random(job["dict_seed"])
        nb = gen.nbrs_of(job["map"])
        n = len(nb)
        names = list(job["names"])
        pos = {x: i for i, x in enumerate(names)}
        order = list(range(n))
        attr = [list(r) for r in job["attr"]]
        ext = [list(r) for r in job["ext"]]
        needs_ext = kind in ("maxp", "maxp_exact")
        init = job.get("init")
        k, ke = len(attr[0]), len(ext[0])
        if via == "sparse":
            self.method = "fit_from_scipy_sparse_matrix"
            first = gen.adj_of(job["map"])
        elif via == "dict":
            self.method = "fit_from_dict"
            first = entry.neighbor_dict(nb, names, rnd, (
                set, set, list, tuple)[job["dict_seed"] % 4])
            order = sorted(range(n), key=lambda i: names[i])
        elif via == "networkx":
            self.method = "fit_from_networkx"
            first = entry.graph_of(nb, names, rnd)
            order = [pos[x] for x in first.nodes()]
        elif via == "w":
            self.method = "fit_from_w"
            first = entry.w_of(nb, names, rnd)
            if job["row"]:
                first.transform = "r"
            order = [pos[x] for x in first.id_order]
        else:
            self.method = "fit_from_geodataframe"
            first = entry.grid_gdf(job["rows"], job["cols"], order, attr, ext)
        self.order = order
        self.nb = []
        inv = {a: i for i, a in enumerate(order)}
        self.nb = [sorted(inv[j] for j in nb[a]) for a in order]
        self.attr = [attr[a] for a in order]
        self.ext = [ext[a] for a in order]
        self.init_rows = None if init is None else [init[a] for a in order]
        if kind == "skater":
            self.method = "fit"
            self.args = [job["p"], first, np.array(self.attr)]
            self.kwargs = {"islands": job["islands"], "trace": job["trace"]}
            if job["quorum"] is not None:
                self.kwargs["quorum"] = job["quorum"]
            return
        if via == "dict":
            a = {x: np.array(attr[pos[x]]) for x in names}
            e = {x: np.array(ext[pos[x]]) for x in names}
            i0 = None if init is None else {x: init[pos[x]] for x in names}
        elif via == "networkx":
            for x in first.nodes():
                for q in range(k):
                    first.nodes[x]["a%d" % q] = attr[pos[x]][q]
                for q in range(ke):
                    first.nodes[x]["e%d" % q] = ext[pos[x]][q]
                if init is not None:
                    first.nodes[x]["start"] = init[pos[x]]
            a, e = ["a%d" % q for q in range(k)], ["e%d" % q
                                                   for q in range(ke)]
            i0 = None if init is None else "start"
        elif via == "gdf":
            a, e = ["a%d" % q for q in range(k)], ["e%d" % q
                                                   for q in range(ke)]
            i0 = None if init is None else np.array(self.init_rows)
        else:
            a, e = np.array(self.attr), np.array(self.ext)
            i0 = None if init is None else np.array(self.init_rows)
        thr = job["threshold"]
        if job["thr_array"]:
            thr = np.array([thr] * ke)
        self.kwargs = {}
        self.args = [first, a]
        if needs_ext:
            self.args += [e, thr]
        else:
            self.args.append(job["p"])
        if kind in HEU and i0 is not None:
            self.kwargs["initial_labels"] = i0
        if kind == "exact":
            self.kwargs["method"] = job["method"]
        if kind == "maxp":
            self.kwargs["max_it"] = job["max_it"]
        if job.get("objective"):
            self.kwargs["objective_func"] = fits.objective(job["objective"])

    def inputs(self):
        """name -> object handed over (all that could be modified)"""
        out = {"arg%d" % i: a for i, a in enumerate(self.args)}
        out.update((k, v) for k, v in self.kwargs.items()
                   if k not in ("objective_func",))
        return out


def reuse(old, new):
    """Put the content of the arguments new into the objects of old, as far
    as the types permit; the objects to be used are those of new then."""
    def put(a, b):
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and \
                a.shape == b.shape and a.dtype == b.dtype:
            a[...] = b
            return a
        if sp.issparse(a) and sp.issparse(b) and a.shape == b.shape:
            a.data, a.indices, a.indptr = b.data, b.indices, b.indptr
            # nothing remembered about the former entries
            a.has_sorted_indices = a.has_canonical_format = False
            return a
        if type(a) is dict and type(b) is dict:
            a.clear()
            a.update(b)
            return a
        if isinstance(a, nx.Graph) and isinstance(b, nx.Graph):
            a.clear()
            a.add_nodes_from(b.nodes(data=True))
            a.add_edges_from(b.edges())
            return a
        return b
    new.args = [put(a, b) for a, b in zip(old.args, new.args)]
    for k in new.kwargs:
        if k in old.kwargs:
            new.kwargs[k] = put(old.kwargs[k], new.kwargs[k])
    return new


def make(job, seeded=True):
    kind = job["kind"]
    if kind in HEU:
        a = dict(job["algo"])
        if not seeded and kind != "sa":
            # (annealing seeds the random numbers at the start of each fit)
            a["random_state"] = None
        return fits.estimator(a)
    if kind == "maxp":
        from region.max_p_regions.heuristics import MaxPRegionsHeu
        a = dict(job["algo"])
        if a["algo"] != "sa":
            a["random_state"] = None
        state = fits.random_state(job["algo"]["random_state"])
        if seeded and job.get("default_local"):
            return MaxPRegionsHeu(random_state=state)
        return MaxPRegionsHeu(local_search=fits.estimator(a),
                              random_state=state if seeded else None)
    if kind == "exact":
        from region.p_regions.exact import PRegionsExact
        return PRegionsExact()
    if kind == "maxp_exact":
        from region.max_p_regions.exact import MaxPRegionsExact
        return MaxPRegionsExact()
    from region.skater.skater import Spanning_Forest
    return Spanning_Forest()


def fit(est, args):
    job = args.job
    getattr(est, args.method)(*args.args, **args.kwargs)
    return labels_of(est, job)


def labels_of(est, job):
    return fits.labels_list(est.current_labels_ if job["kind"] == "skater"
                            else est.labels_)


def budget(job):
    n, kind = job["map"]["n"], job["kind"]
    if kind in HEU:
        return fits.budget(kind, n)
    if kind == "maxp":
        return fits.budget(job["algo"]["algo"], n, 10)
    return 1_000_000


def errors(labels, args):
    """What is wrong with the result as a solution of the job."""
    job = args.job
    nb = [set(x) for x in args.nb]
    kind = job["kind"]
    p = job["p"] if kind in HEU + ("exact",) else None
    errs = ref.partition_errors(nb, labels, p)
    if kind in ("maxp", "maxp_exact"):
        errs += ref.threshold_errors(labels, args.ext, job["threshold"])
    if kind == "skater" and job["quorum"] is not None:
        for l, areas in ref.regions(labels).items():
            if len(areas) < job["quorum"]:
                errs.append("region %s is smaller than the quorum %d" % (
                    l, job["quorum"]))
    return errs


def same(got, want, args):
    """Equal results? Exact methods may return any optimum, anyhow named."""
    kind = args.job["kind"]
    if kind not in ("exact", "maxp_exact"):
        return got == want
    a = [ref.pairwise_objective(x, args.attr, "euclidean")
         for x in (got, want)]
    size = max(1.0, max(abs(x) for r in args.attr for x in r))
    return len(set(got)) == len(set(want)) and \
        abs(a[0] - a[1]) <= 1e-4 * size


def small_island(args):
    """SKATER refuses maps with components below the quorum."""
    job = args.job
    nb = [set(x) for x in args.nb]
    return job["kind"] == "skater" and job["quorum"] is not None and any(
        len(c) < job["quorum"] for c in ref.components(nb))
