"""Workload generator: maps, attributes, initial solutions.

Everything is derived from a random.Random; results are JSON-able.
"""
import math
import random

import numpy as np
from scipy.sparse import csr_matrix

from . import ref


def _grid(r, c, queen=False):
    e = []
    for i in range(r):
        for j in range(c):
            for di, dj in ((0, 1), (1, 0)) + (((1, 1), (1, -1)) if queen else ()):
                if 0 <= i + di < r and 0 <= j + dj < c:
                    e.append((i * c + j, (i + di) * c + j + dj))
    return r * c, e


def connected_map(rng, n):
    """(n, edges, kind) of a connected map with about n areas."""
    if n <= 1:
        return 1, [], "single"
    kind = rng.choice(["path", "cycle", "star", "grid", "grid", "grid", "queen",
                       "tree", "tree", "delaunay", "delaunay", "complete",
                       "barbell", "caterpillar", "wheel", "sparse", "bipartite"])
    if kind in ("grid", "queen"):
        r = rng.randint(1, max(1, int(math.sqrt(n))))
        n, e = _grid(r, max(1, n // r), kind == "queen")
        return n, e, kind
    if kind == "path":
        e = [(i, i + 1) for i in range(n - 1)]
    elif kind == "cycle":
        e = [(i, i + 1) for i in range(n - 1)] + ([(0, n - 1)] if n > 2 else [])
    elif kind == "star":
        e = [(0, i) for i in range(1, n)]
    elif kind == "wheel":
        e = [(0, i) for i in range(1, n)]
        e += [(i, i + 1) for i in range(1, n - 1)]
        if n > 3:
            e.append((1, n - 1))
    elif kind == "complete":
        n = min(n, 9)
        e = [(i, j) for i in range(n) for j in range(i + 1, n)]
    elif kind == "bipartite":
        n = min(n, 12)
        a = rng.randint(1, n - 1)
        e = [(i, j) for i in range(a) for j in range(a, n)]
    elif kind == "barbell":
        k = max(1, n // 3)
        e = [(i, j) for i in range(k) for j in range(i + 1, k)]
        e += [(i, i + 1) for i in range(k - 1, n - k)]
        e += [(i, j) for i in range(n - k, n) for j in range(i + 1, n)]
    elif kind == "caterpillar":
        s = max(1, n // 2)
        e = [(i, i + 1) for i in range(s - 1)]
        e += [(rng.randrange(s), i) for i in range(s, n)]
    elif kind == "delaunay" and n >= 5:
        from scipy.spatial import Delaunay
        pts = np.array([[rng.random(), rng.random()] for _ in range(n)])
        e = set()
        for t in Delaunay(pts).simplices:
            t = sorted(int(x) for x in t)
            e.update([(t[0], t[1]), (t[0], t[2]), (t[1], t[2])])
        e = sorted(e)
    else:
        e = [(rng.randrange(i), i) for i in range(1, n)]
        if kind == "sparse":
            for _ in range(rng.randint(1, n)):
                i, j = rng.randrange(n), rng.randrange(n)
                if i != j:
                    e.append((min(i, j), max(i, j)))
    e = sorted(set((min(a, b), max(a, b)) for a, b in e if a != b))
    return n, e, kind


def make_map(rng, nmax, nmin=1, max_comps=1, shuffle=True):
    """dict(n, edges, kind): union of up to max_comps connected maps."""
    k = rng.randint(1, max_comps) if max_comps > 1 else 1
    n_total = rng.randint(max(nmin, k), max(nmax, k))
    sizes = [1] * k
    for _ in range(n_total - k):
        sizes[min(rng.randrange(k), rng.randrange(k))] += 1
    edges, off, kinds = [], 0, []
    for s in sizes:
        n, e, kind = connected_map(rng, s)
        edges += [(a + off, b + off) for a, b in e]
        off += n
        kinds.append(kind)
    perm = list(range(off))
    if shuffle:
        rng.shuffle(perm)
    edges = sorted((min(perm[a], perm[b]), max(perm[a], perm[b]))
                   for a, b in edges)
    return {"n": off, "edges": [list(e) for e in edges],
            "kind": "+".join(sorted(kinds))}


def big_map(rng, parts=1):
    """130 to 320 areas."""
    return make_map(rng, rng.choice([140, 160, 260, 320]), nmin=130,
                    max_comps=parts)


def nbrs_of(m):
    nb = [set() for _ in range(m["n"])]
    for a, b in m["edges"]:
        nb[a].add(b)
        nb[b].add(a)
    return nb


def adj_of(m, dtype="float64", weights=None, scramble=None, holes=(),
           loops=()):
    """csr adjacency matrix; optionally symmetric weights, stored zeros where
    there is no link and row entries in scrambled order (a valid csr matrix
    without sorted indices), areas linked to themselves."""
    n = m["n"]
    mat = np.zeros((n, n))
    for k, (a, b) in enumerate(m["edges"]):
        mat[a, b] = mat[b, a] = 1 if weights is None else weights[k]
    for a in loops:
        mat[a, a] = 1
    adj = csr_matrix(mat.astype(dtype))
    if holes:
        for a, b in holes:
            mat[a, b] = 1
        adj = csr_matrix(mat.astype(dtype))
        for a, b in holes:
            adj[a, b] = 0
    if scramble is not None:
        r = random.Random(scramble)
        for i in range(n):
            s, t = adj.indptr[i], adj.indptr[i + 1]
            order = list(range(s, t))
            r.shuffle(order)
            adj.indices[s:t] = adj.indices[order]
            adj.data[s:t] = adj.data[order]
        adj.has_sorted_indices = False
    return adj


def make_attr(rng, n, kind=None, dim=None, dims=(1, 1, 2, 3)):
    """List of n rows."""
    kind = kind or rng.choice(["uniform", "uniform", "normal", "ties",
                               "constant", "large", "small", "negative",
                               "duplicates", "skewed"])
    dim = dim or rng.choice(dims)
    if kind == "uniform":
        f = rng.random
    elif kind == "normal":
        f = lambda: rng.gauss(0, 10)
    elif kind == "ties":
        f = lambda: float(rng.randint(0, 3))
    elif kind == "constant":
        c = float(rng.randint(-2, 5))
        f = lambda: c
    elif kind == "large":
        f = lambda: rng.random() * 1e6
    elif kind == "small":
        f = lambda: rng.random() * 1e-3
    elif kind == "negative":
        f = lambda: -5 - rng.random() * 10
    elif kind == "skewed":
        f = lambda: math.exp(rng.gauss(0, 2))
    elif kind == "duplicates":
        pool = [rng.random() * 10 for _ in range(max(1, n // 2))]
        f = lambda: rng.choice(pool)
    return [[f() for _ in range(dim)] for _ in range(n)]


def dyadic_attr(rng, n, dim=None, clusters=None):
    """Values k * 2**e: sums of their absolute differences are exact, so that
    judgements about them need no tolerance.  Very different magnitudes."""
    e = rng.choice([0, 0, -1, -20, -40, -60, -90, 10])
    bits = rng.choice([[4], [8], [1, 20, 38], [38], [3, 38]])
    dim = dim or rng.choice([1, 1, 2, 3])
    if rng.random() < .2 if clusters is None else clusters:
        # two clusters far apart with small differences inside
        return [[math.ldexp(rng.choice([0, 2**38]) + rng.randint(0, 15), e)
                 for _ in range(dim)] for _ in range(n)]
    return [[math.ldexp(rng.randint(0, 2 ** rng.choice(bits)), e)
             for _ in range(dim)] for _ in range(n)]


GENERIC = ("uniform", "normal", "skewed", "negative")


def random_partition(rng, nbrs, p):
    """Labels 0..p-1 of a random contiguous partition into p regions."""
    comps = ref.components(nbrs)
    assert len(comps) <= p <= len(nbrs)
    labels = [None] * len(nbrs)
    seeds = [rng.choice(sorted(c)) for c in comps]
    rest = [v for v in range(len(nbrs)) if v not in seeds]
    seeds += rng.sample(rest, p - len(seeds))
    rng.shuffle(seeds)
    for l, s in enumerate(seeds):
        labels[s] = l
    weights = [rng.choice([1, 1, 1, 5, 25]) for _ in range(p)]
    front = set(seeds)
    while None in labels:
        front = {v for v in front if any(labels[w] is None for w in nbrs[v])}
        f = sorted(front)
        v = rng.choices(f, [weights[labels[x]] for x in f])[0]
        w = rng.choice(sorted(x for x in nbrs[v] if labels[x] is None))
        labels[w] = labels[v]
        front.add(w)
    return labels


def rename_labels(rng, labels):
    """Same clustering with other (non-negative, arbitrary) labels."""
    names = rng.sample(range(0, 3 * len(labels) + 5), len(set(labels)))
    m = dict(zip(sorted(set(labels)), names))
    return [m[l] for l in labels]


def any_labels(rng, labels):
    """Same clustering with any numbers as labels: negative (-1 included),
    fractional, beyond 32 bits."""
    if rng.random() < .6:
        return rename_labels(rng, labels)
    names = {"minus": lambda k: [-1] + [-k - 2 if rng.random() < .5 else k
                                        for k in range(k - 1)],
             "half": lambda k: [x / 4 for x in rng.sample(range(-2, 3 * k + 5),
                                                          k)],
             "big": lambda k: [2 ** 32 * x + rng.randrange(2) for x in
                               rng.sample(range(-k, 2 * k), k)]
             }[rng.choice(["minus", "minus", "half", "big"])](len(set(labels)))
    rng.shuffle(names)
    m = dict(zip(sorted(set(labels)), names))
    return [m[l] for l in labels]
