"""One problem through every entry point (sparse, dict, networkx, W, gdf)."""
import random

import numpy as np

from . import fits, gen


def grid_gdf(rows, cols, order, attrs, ext=None, labels=None, index=None,
             drop=()):
    """GeoDataFrame of unit squares, in the given order of cells."""
    import geopandas as gpd
    from shapely.geometry import Polygon
    geo = []
    for cell in order:
        r, c = divmod(cell, cols)
        geo.append(Polygon([(c, r), (c + 1, r), (c + 1, r + 1), (c, r + 1)]))
    data = {"a%d" % k: [row[k] for row in attrs]
            for k in range(len(attrs[0]))}
    if ext is not None:
        data.update({"e%d" % k: [row[k] for row in ext]
                     for k in range(len(ext[0]))})
    return gpd.GeoDataFrame(data, geometry=geo, index=index)


def grid_edges(rows, cols, order, queen):
    pos = {cell: i for i, cell in enumerate(order)}
    e = []
    for cell in order:
        r, c = divmod(cell, cols)
        steps = [(0, 1), (1, 0)] + ([(1, 1), (1, -1)] if queen else [])
        for dr, dc in steps:
            if 0 <= r + dr < rows and 0 <= c + dc < cols:
                o = (r + dr) * cols + c + dc
                if o in pos:
                    a, b = pos[cell], pos[o]
                    e.append([min(a, b), max(a, b)])
    return sorted(e)


def names_for(rng, n):
    """Area names: sortable, in some arbitrary relation to 0..n-1."""
    kind = rng.choice(["int", "shuffled", "str", "gaps", "tuple", "neg"])
    if kind == "int":
        names = list(range(n))
    elif kind == "shuffled":
        names = rng.sample(range(n), n)
    elif kind == "str":
        names = ["area%d" % i for i in rng.sample(range(3 * n), n)]
    elif kind == "gaps":
        names = rng.sample(range(10 * n), n)
    elif kind == "tuple":
        names = [[i // 3, i % 3] for i in rng.sample(range(2 * n), n)]
    else:
        names = [i - n for i in rng.sample(range(2 * n), n)]
    return names


def key(x):
    return tuple(x) if isinstance(x, list) else x


def neighbor_dict(nb, names, rnd, container=set):
    """dict of neighbours, inserted in random order"""
    order = list(range(len(nb)))
    rnd.shuffle(order)
    out = {}
    for i in order:
        ns = [names[j] for j in sorted(nb[i])]
        rnd.shuffle(ns)
        out[names[i]] = container(ns)
    return out


def shuffled_dict(names, values, rnd):
    order = list(range(len(names)))
    rnd.shuffle(order)
    return {names[i]: values[i] for i in order}


def graph_of(nb, names, rnd):
    """networkx graph with nodes and edges added in random order; returns
    (graph, node order)"""
    import networkx as nx
    g = nx.Graph()
    order = list(range(len(nb)))
    rnd.shuffle(order)
    g.add_nodes_from(names[i] for i in order)
    edges = [(i, j) for i in range(len(nb)) for j in nb[i] if i < j]
    rnd.shuffle(edges)
    g.add_edges_from((names[i], names[j]) if rnd.random() < .5 else
                     (names[j], names[i]) for i, j in edges)
    return g


def w_of(nb, names, rnd):
    from libpysal import weights
    return weights.W({k: list(v) for k, v in
                      neighbor_dict(nb, names, rnd, list).items()})
