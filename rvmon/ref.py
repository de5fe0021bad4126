"""Reference models: small, independent of region, numpy only for storage.

Nothing in here imports region.  Graphs are lists of neighbour sets.
"""
import itertools
import math


def components(nbrs, nodes=None):
    """List of node sets, connected through `nodes` only."""
    todo = set(range(len(nbrs))) if nodes is None else set(nodes)
    comps = []
    while todo:
        s = todo.pop()
        comp, stack = {s}, [s]
        while stack:
            v = stack.pop()
            for w in nbrs[v]:
                if w in todo:
                    todo.discard(w)
                    comp.add(w)
                    stack.append(w)
        comps.append(comp)
    return comps


def connected(nbrs, nodes):
    nodes = list(nodes)
    return len(nodes) > 0 and len(components(nbrs, nodes)) == 1


def regions(labels):
    """dict label -> list of areas"""
    out = {}
    for i, l in enumerate(labels):
        out.setdefault(l, []).append(i)
    return out


def partition_key(labels):
    """Label-independent description of a clustering."""
    first, key = {}, []
    for l in labels:
        key.append(first.setdefault(l, len(first)))
    return tuple(key)


def partition_errors(nbrs, labels, n_regions=None):
    """What is wrong with `labels` as a regionalization ([] if nothing)."""
    errs = []
    n = len(nbrs)
    if len(labels) != n:
        return ["%d labels for %d areas" % (len(labels), n)]
    for l in labels:
        if l != l:
            return ["a label is NaN"]
    reg = regions(labels)
    if n_regions is not None and len(reg) != n_regions:
        errs.append("%d regions instead of %d" % (len(reg), n_regions))
    for l, areas in sorted(reg.items()):
        if not connected(nbrs, areas):
            errs.append("region %s = %s is not contiguous" % (l, areas))
    return errs


# --- distances -------------------------------------------------------------

def manhattan(a, b):
    return math.fsum(abs(x - y) for x, y in zip(a, b))


def euclidean(a, b):
    return math.sqrt(math.fsum((x - y) ** 2 for x, y in zip(a, b)))


def cosine(a, b):
    na = math.sqrt(math.fsum(x * x for x in a))
    nb = math.sqrt(math.fsum(x * x for x in b))
    if na == 0 or nb == 0:
        return 1.0
    return 1 - math.fsum(x * y for x, y in zip(a, b)) / (na * nb)


def chebyshev(a, b):
    return max(abs(x - y) for x, y in zip(a, b))


METRICS = {"manhattan": manhattan, "cityblock": manhattan, "l1": manhattan,
           "euclidean": euclidean, "l2": euclidean, "cosine": cosine,
           "chebyshev": chebyshev,
           # the same as functions of a user (see fits.metric)
           "py:manhattan": manhattan, "py:euclidean": euclidean,
           "py:chebyshev": chebyshev, "np:manhattan": manhattan,
           "np:chebyshev": chebyshev, "mat:manhattan": manhattan}


def rows(attr):
    """Attributes as a list of float lists."""
    out = []
    for r in attr:
        try:
            out.append([float(x) for x in r])
        except TypeError:
            out.append([float(r)])
    return out


def pairwise_objective(labels, attr, metric):
    d = METRICS[metric]
    a = rows(attr)
    return math.fsum(d(a[i], a[j]) for areas in regions(labels).values()
                     for i, j in itertools.combinations(areas, 2))


def _median(v):
    v = sorted(v)
    m = len(v) // 2
    return v[m] if len(v) % 2 else (v[m - 1] + v[m]) / 2


CENTERS = {"mean": lambda v: math.fsum(v) / len(v), "median": _median,
           "min": min, "max": max}
REDUCTIONS = {"sum": math.fsum, "max": max,
              "mean": lambda v: math.fsum(v) / len(v), "median": _median}


def center_objective(labels, attr, metric, center="mean", reduction="sum"):
    d, c, red = METRICS[metric], CENTERS[center], REDUCTIONS[reduction]
    a = rows(attr)
    parts = []
    for areas in regions(labels).values():
        mid = [c([a[i][k] for i in areas]) for k in range(len(a[0]))]
        parts.append(red([d(a[i], mid) for i in areas]))
    return red(parts)


# --- moves -----------------------------------------------------------------

def legal_moves(nbrs, labels):
    """All (area, recipient label): area borders the recipient region, and its
    own region stays non-empty and connected without it."""
    reg = regions(labels)
    out = set()
    for i, l in enumerate(labels):
        rest = [a for a in reg[l] if a != i]
        if not rest or not connected(nbrs, rest):
            continue
        for j in nbrs[i]:
            if labels[j] != l:
                out.add((i, labels[j]))
    return out


# --- exhaustive optima -----------------------------------------------------

def set_partitions(n):
    """All partitions of range(n) as restricted growth strings."""
    def rec(i, used, cur):
        if i == n:
            yield tuple(cur)
            return
        for l in range(used + 1):
            cur.append(l)
            yield from rec(i + 1, max(used, l + 1), cur)
            cur.pop()
    yield from rec(0, 0, [])


def contiguous_partitions(nbrs):
    """All partitions into contiguous regions, as label tuples."""
    ok = {}
    for labels in set_partitions(len(nbrs)):
        good = True
        for areas in regions(labels).values():
            key = tuple(areas)
            if key not in ok:
                ok[key] = connected(nbrs, key)
            if not ok[key]:
                good = False
                break
        if good:
            yield labels


def best_p_regions(nbrs, attr, p, metric):
    """(optimal heterogeneity or None, number of feasible partitions)"""
    d = METRICS[metric]
    a = rows(attr)
    n = len(nbrs)
    D = [[d(a[i], a[j]) for j in range(n)] for i in range(n)]
    best, count = None, 0
    for labels in contiguous_partitions(nbrs):
        if max(labels) + 1 != p:
            continue
        count += 1
        v = math.fsum(D[i][j] for i in range(n) for j in range(i + 1, n)
                      if labels[i] == labels[j])
        if best is None or v < best:
            best = v
    return best, count


def region_sums(labels, sp_ext):
    """dict label -> list of sums of the spatially extensive attributes"""
    s = rows(sp_ext)
    return {l: [math.fsum(s[i][k] for i in areas) for k in range(len(s[0]))]
            for l, areas in regions(labels).items()}


def thresholds(threshold, k):
    try:
        return [float(t) for t in threshold]
    except TypeError:
        return [float(threshold)] * k


def threshold_errors(labels, sp_ext, threshold, tol=0):
    errs = []
    for l, sums in sorted(region_sums(labels, sp_ext).items()):
        for s, t in zip(sums, thresholds(threshold, len(sums))):
            if s < t - tol * max(1.0, abs(t)):
                errs.append("region %s sums up to %r, below the threshold %r"
                            % (l, s, t))
    return errs


def best_max_p(nbrs, attr, sp_ext, threshold, metric):
    """(max p or 0, least heterogeneity for it, feasible partitions)"""
    d = METRICS[metric]
    a = rows(attr)
    n = len(nbrs)
    D = [[d(a[i], a[j]) for j in range(n)] for i in range(n)]
    best, count = (0, None), 0
    for labels in contiguous_partitions(nbrs):
        if threshold_errors(labels, sp_ext, threshold):
            continue
        count += 1
        p = max(labels) + 1
        if p < best[0]:
            continue
        v = math.fsum(D[i][j] for i in range(n) for j in range(i + 1, n)
                      if labels[i] == labels[j])
        if p > best[0] or v < best[1]:
            best = (p, v)
    return best[0], best[1], count


def mst_weight(n, edges):
    """Weight of a minimum spanning forest; edges: (weight, i, j)."""
    parent = list(range(n))

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    total = []
    for w, i, j in sorted(edges):
        a, b = find(i), find(j)
        if a != b:
            parent[a] = b
            total.append(w)
    return math.fsum(total), len(total)
