"""C19: nothing is modified but what a call is about."""
import inspect
import json
import os
import shutil
import tempfile
import zlib

import numpy as np
from scipy import sparse

MODULE = "TraceC19"


def models(tier):
    return [dict(module="SharingMC", cfg="SharingMC")]


def use_model(m, res, workdir):
    xs = sorted(set(p[2:] for p in res["prints"] if p.startswith("H ")))
    with open(os.path.join(workdir, "histories.json"), "w") as fh:
        fh.write("[" + ",".join(xs) + "]")


# What things are.

def canonical(m):
    c = m.tocoo(copy=True)
    key = c.row.astype(np.int64) * max(c.shape[1], 1) + c.col
    order = np.argsort(key, kind="stable")
    key, data = key[order], c.data[order]
    u, start = np.unique(key, return_index=True)
    total = np.add.reduceat(data, start) if len(u) else data
    return (m.format, m.shape, str(m.dtype), u.tobytes(), np.ascontiguousarray(total).tobytes())


def freeze(v, depth=0):
    from pygsp import filters, graphs
    if depth > 6:
        return "deep"
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes, np.generic)):
        return (type(v).__name__, repr(v))
    if sparse.issparse(v):
        return ("sparse",) + canonical(v)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("objects", v.shape, [freeze(x, depth + 1) for x in v.ravel()])
        return ("array", str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, dict):
        return ("dict", sorted((repr(k), freeze(v[k], depth + 1)) for k in v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [freeze(x, depth + 1) for x in v])
    if isinstance(v, (set, frozenset)):
        return ("set", sorted(repr(x) for x in v))
    if isinstance(v, graphs.Graph):
        return ("graph", type(v).__name__, canonical(v.W))    # (the rest is the matter of its cell)
    if isinstance(v, filters.Filter):
        return ("filter", type(v).__name__)
    if hasattr(v, "nodes") and hasattr(v, "edges") and hasattr(v, "is_directed"):
        return ("networkx", list(v.nodes), [freeze(dict(v.nodes[i]), depth + 1) for i in v.nodes],
                [(repr(e[:-1]), freeze(e[-1], depth + 1)) for e in v.edges(data=True)], freeze(dict(v.graph), depth + 1))
    if hasattr(v, "vertex_properties"):
        return ("graph-tool", v.num_vertices(), [(int(e.source()), int(e.target())) for e in v.edges()],
                [(k, freeze(v.edge_properties[k].get_array(), depth + 1)) for k in sorted(v.edge_properties)],
                [(k, freeze(v.vertex_properties[k].get_array(), depth + 1)) for k in sorted(v.vertex_properties)])
    return type(v).__name__


def digest(v):
    return (zlib.crc32(repr(v).encode()) & 0x3fffffff) + 1


HIDDEN = ("W", "L", "signals", "coords", "plotting", "logger", "lmax", "e", "U", "coherence", "D")


def facets_graph(G):
    lmax = getattr(G, "_lmax", None)
    U, D = getattr(G, "_U", None), getattr(G, "_D", None)
    public = {k: v for k, v in vars(G).items() if not k.startswith("_") and k not in HIDDEN}
    A = getattr(G, "_A", None)
    A = G.W > 0 if A is None else A
    return [digest((canonical(G.W), canonical(A), G.n_edges, freeze(G.d), freeze(G.dw), G.is_directed())),
            digest(canonical(G.L)),
            0 if lmax is None else digest(repr(float(lmax))),
            0 if U is None else digest((freeze(U), freeze(getattr(G, "_e", None)), freeze(getattr(G, "_coherence", None)))),
            0 if D is None else digest(canonical(D)),
            digest(freeze(G.signals)),
            digest(freeze(getattr(G, "coords", None))),
            digest(freeze(G.plotting)),
            digest(freeze(public))]


def facets_filter(g):
    # (some kernels rely on the spectrum, which wasn't to be computed for us)
    G = g.G
    saved = {k: getattr(G, k, None) for k in ("_lmax", "_U", "_e", "_coherence", "_D")}
    try:
        y = freeze(np.asarray(g.evaluate(np.linspace(0, 2, 5)), dtype=float))
    finally:
        for k, v in saved.items():
            if getattr(G, k, None) is not v:
                setattr(G, k, v)
    public = {k: v for k, v in vars(g).items() if not k.startswith("_") and k not in ("G", "logger")}
    return [digest(y), digest((repr(g) if saved["_lmax"] is not None else "", freeze(public), id(G)))]


def shared():
    import matplotlib
    import pkgutil
    import importlib
    import pygsp
    global MODULES
    if MODULES is None:
        MODULES = [pygsp]
        for m in pkgutil.walk_packages(pygsp.__path__, "pygsp."):
            if "tests" not in m.name:
                MODULES.append(importlib.import_module(m.name))
    res = []
    for m in MODULES:
        for name, v in sorted(vars(m).items(), key=lambda kv: kv[0]):
            if getattr(v, "__module__", None) == m.__name__:
                if inspect.isfunction(v):
                    res.append(defaults(v))
                elif inspect.isclass(v):
                    for k, x in sorted(vars(v).items(), key=lambda kv: kv[0]):
                        f = getattr(x, "__func__", x)
                        if inspect.isfunction(f):
                            res.append(defaults(f))
                        elif isinstance(x, (dict, list, np.ndarray)) and not k.startswith("__"):
                            res.append((k, freeze(x)))
            elif name.isupper() and isinstance(v, (str, int, float, dict, list, tuple)):
                res.append((name, freeze(v)))
    return [digest((res, repr(dict(matplotlib.rcParams)), repr(np.geterr()), repr(np.get_printoptions())))]


MODULES = None


def defaults(f):
    f = inspect.unwrap(f)
    return (f.__qualname__, freeze(f.__defaults__), freeze(f.__kwdefaults__))


# The world.

class Cell:
    def __init__(self, kind, obj, of=None):
        self.kind, self.obj, self.of = kind, obj, of
        self.now = self.look()

    def look(self):
        if self.kind == "graph":
            return facets_graph(self.obj)
        if self.kind == "filter":
            return facets_filter(self.obj)
        if self.kind == "shared":
            return shared()
        return [digest(freeze(self.obj))]


class World:
    def __init__(self, rng, tmp):
        self.rng, self.tmp = rng, tmp
        self.cells = [Cell("shared", None)]
        self.steps, self.failed = [], []
        self.involved = []
        self.gabor = False      # its responses need the full basis

    def pick(self, *xs):
        return xs[int(self.rng.integers(len(xs)))]

    def chance(self, p):
        return self.rng.random() < p

    def cell(self, obj):
        for i, c in enumerate(self.cells):
            if c.obj is obj:
                return c
        return None

    def add(self, kind, obj, of=None):
        if self.cell(obj) is None:
            self.cells.append(Cell(kind, obj, None if of is None else self.cell(of)))
        return obj

    def give(self, obj):
        """Something which is passed to a call."""
        return self.add("given", obj)

    def involve(self, *graphs):
        self.involved += list(graphs)

    def result(self, obj):
        from pygsp import filters, graphs
        if isinstance(obj, graphs.Graph):
            if obj.N > 1 and sum(c.kind == "graph" for c in self.cells) < 8:
                self.add("graph", obj)
        elif isinstance(obj, filters.Filter):
            if type(obj).__name__ != "Modulation":
                if self.cell(obj.G) is not None and sum(c.kind == "filter" for c in self.cells) < 4:
                    self.add("filter", obj, obj.G)
        elif isinstance(obj, (tuple, list)) and any(not np.isscalar(x) for x in obj):
            for x in obj:
                self.result(x)
        elif isinstance(obj, np.ndarray) or sparse.issparse(obj) or isinstance(obj, dict):
            self.add("result", obj)

    def graphs(self):
        return [c.obj for c in self.cells if c.kind == "graph"]

    def filters_of(self, G):
        return [c.obj for c in self.cells if c.kind == "filter" and c.obj.G is G]

    def do(self, op, on, name, call, full=False):
        """Make a call: what was before, what is after."""
        known = list(self.cells)
        res, exc = None, ""
        try:
            res = call()
        except Exception as e:
            exc = type(e).__name__
            self.failed.append("%s: %s %s" % (name, exc, str(e)[:80]))
        number = {id(c): i + 1 for i, c in enumerate(known)}
        rows = []
        for c in known:
            a = c.look()
            rows.append(dict(k=c.kind, of=0 if c.of is None else number.get(id(c.of), 0), b=c.now, a=a))
            c.now = a
        self.steps.append(dict(op=op, name=name, exc=exc, full="T" if full else "F",
                               on=next((i + 1 for i, c in enumerate(known) if c.obj is on), 0) if on is not None else 0,
                               **{"with": [i + 1 for i, c in enumerate(known) if any(c.obj is x for x in self.involved)]},
                               cells=rows))
        self.involved = []
        self.result(res)
        # What was given and returned is kept for a while.
        for kind in ("given", "result"):
            extra = [c for c in self.cells if c.kind == kind][:-14]
            self.cells = [c for c in self.cells if not any(c is x for x in extra)]
        return res

    # arguments
    def signal(self, n, *more, lo=-8):
        x = self.rng.integers(lo, 9, (n,) + more) / 4
        j = self.rng.integers(6)
        if j == 0:
            return x.astype(np.float32)
        if j == 1:
            return np.asfortranarray(x)
        if j == 2:
            return x.astype(int)
        return x

    def vector(self, n, lo=-8):
        x = self.signal(n, lo=lo)
        return x.tolist() if self.chance(.2) else x

    def matrix(self, W, formats=("array", "csr", "csc", "coo", "lil", "zeros", "unsorted", "twice")):
        f = self.pick(*formats)
        if f == "array":
            return W.copy()
        if f in ("csr", "csc", "coo", "lil"):
            return getattr(sparse, f + "_matrix")(W)
        if f == "zeros":            # some are stored
            A = sparse.csr_matrix(W + (W == 0) * (self.rng.random(W.shape) < .3) * 9.5)
            A.data[A.data == 9.5] = 0
            return A
        A = sparse.csr_matrix(W)
        if f == "unsorted":
            for i in range(len(W)):
                s = slice(A.indptr[i], A.indptr[i + 1])
                A.indices[s], A.data[s] = A.indices[s][::-1].copy(), A.data[s][::-1].copy()
            A = sparse.csr_matrix((A.data, A.indices, A.indptr), A.shape)
            return A
        c = sparse.coo_matrix(W)
        return sparse.coo_matrix((np.tile(c.data / 2, 2), (np.tile(c.row, 2), np.tile(c.col, 2))), W.shape)

    def weights(self, n, directed=False):
        from .. import gen
        if directed:
            return gen.random_weights(self.rng, n, directed=True, loops=self.chance(.3), density=.4)
        return gen.connected_weights(self.rng, n, loops=self.chance(.2), density=.3)

    def plotting(self):
        kw = {}
        for k, v in (("vertex_size", 50), ("edge_width", 1), ("edge_color", [0, 1, 0]), ("vertex_color", (1., 0., 0.)), ("elevation", 10),
                     ("highlight_color", "C2"), ("distance", 8)):
            if self.chance(.3):
                kw[k] = v
        return kw


# New graphs.

def new_graph(w):
    from pygsp import graphs
    n = int(w.rng.integers(4, 9))
    c = w.pick("graph", "graph", "graph", "graph", "nn", "nn", "patches", "grid patches", "blocks", "blocks matrix", "blocks parts", "community",
               "ring", "default", "networkx", "networkx", "graph-tool", "load", "line", "sub class")
    kw = {}
    if w.chance(.3):
        kw["plotting"] = w.give(w.plotting())
    if w.chance(.3):
        kw["lap_type"] = w.pick("combinatorial", "normalized")
    if c == "graph":
        W = w.weights(n, w.chance(.3))
        A = w.give(w.matrix(W))
        if w.chance(.4):
            kw["coords"] = w.give(w.pick(w.signal(n, 2), w.signal(n, 3), w.signal(n), w.signal(n, 2).tolist()))
        return c, lambda: graphs.Graph(A, **kw)
    if c == "nn":
        x = w.rng.permutation(64)[:max(n, 6), None] % np.array([[8, 64, 5]]) / 8 + w.rng.integers(0, 8, (max(n, 6), 3)) * 2
        x = w.give(w.pick(x, x[:, :2].copy(), x.astype(np.float32), np.asfortranarray(x)))
        kw.update(k=3, center=w.chance(.5), rescale=w.chance(.5), NNtype=w.pick("knn", "knn", "radius"), epsilon=5.,
                  symmetrize_type=w.pick("average", "maximum", "fill"), dist_type=w.pick("euclidean", "manhattan", "max_dist", "minkowski"), order=2)
        if w.chance(.3):
            kw["sigma"] = 2.
        return c, lambda: graphs.NNGraph(x, **kw)
    if c in ("patches", "grid patches"):
        img = w.give(w.pick(lambda: w.signal(4, 5), lambda: w.signal(4, 4, 2))() + w.rng.random((4, 1)))
        img = w.give(img if img.ndim == 2 or c == "patches" else img[:, :, 0].copy())
        if c == "patches":
            return c, lambda: graphs.ImgPatches(img, patch_shape=w.pick((3, 3), (1, 2)), k=3, **kw)
        return c, lambda: graphs.Grid2dImgPatches(img, k=3, **kw)
    if c.startswith("blocks"):
        k = 2
        z = w.give(w.rng.integers(0, k, n)) if w.chance(.6) else None
        if z is not None and w.chance(.3):
            z = w.give(z.tolist())
        a = dict(seed=3, directed=w.chance(.3), self_loops=w.chance(.3))
        if c == "blocks matrix":
            M = w.rng.integers(0, 9, (k, k)) / 8
            a["M"] = w.give(w.pick(np.maximum(M, M.T), np.maximum(M, M.T).tolist()))
        elif c == "blocks parts":
            q = w.rng.integers(0, 9, (k, k)) / 8
            a["p"], a["q"] = w.give(w.rng.integers(0, 9, k) / 8), w.give(np.maximum(q, q.T))
        return c, lambda: graphs.StochasticBlockModel(n, k, z=z, **a, **kw)
    if c == "community":
        s = w.give(w.pick([5, 4], np.array([5, 4])))
        a = w.pick(dict(comm_density=.5), dict(k_neigh=2), dict(epsilon=1.), {})
        return c, lambda: graphs.Community(9, 2, comm_sizes=s, world_density=.2, seed=2, **a, **kw)
    if c == "ring":
        kw.pop("plotting", None)
        a = w.give(np.sort(w.rng.choice(6200, n, replace=False) / 1000)[::w.pick(1, -1)].copy())
        return c, lambda: graphs.RandomRing(angles=a, **kw)
    if c == "sub class":
        kw.pop("plotting", None)
        return c, lambda: graphs.SwissRoll(N=30, noise=w.chance(.5), seed=1, **kw)
    if c == "networkx":
        import networkx as nx
        x = w.pick(nx.Graph, nx.DiGraph)()
        for i in range(n):
            x.add_node(i, **({"s": float(i), "m_0": i / 2} if w.chance(.8) else {}))
        for i in range(1, n):
            x.add_edge(i - 1, i, weight=i / 2) if w.chance(.8) else x.add_edge(0, i)
        w.give(x)
        return c, lambda: graphs.Graph.from_networkx(x)
    if c == "graph-tool":
        import graph_tool as gt
        x = gt.Graph(directed=w.chance(.3))
        x.add_vertex(n)
        p, q = x.new_edge_property("double"), x.new_vertex_property("double")
        for i in range(1, n):
            p[x.add_edge(i - 1, i)] = i / 2
        for i in range(n):
            q[x.vertex(i)] = i / 4
        x.edge_properties["weight"], x.vertex_properties["s"] = p, q
        w.give(x)
        return c, lambda: graphs.Graph.from_graphtool(x)
    if c == "load":
        path = os.path.join(w.tmp, "g.graphml")
        graphs.Ring(5).save(path)
        return c, lambda: graphs.Graph.load(path)
    if c == "line":
        G = w.pick(*w.graphs())
        if G.is_directed() or G.n_edges > 25 or G.has_loops():
            return "default", lambda: graphs.Torus(3, 4)
        kw.pop("plotting", None)
        w.involve(G)
        return c, lambda: graphs.LineGraph(G, **kw)
    kw.pop("plotting", None)
    return "default", w.pick(lambda: graphs.Ring(6, **kw), lambda: graphs.Path(5, **kw), lambda: graphs.Grid2d(2, 3, **kw), lambda: graphs.Star(6, **kw),
                             lambda: graphs.Comet(7, 3, **kw), lambda: graphs.Sensor(9, k=3, seed=1, **kw), lambda: graphs.Torus(3, 3, **kw),
                             lambda: graphs.FullConnected(5, **kw), lambda: graphs.ErdosRenyi(7, .6, connected=True, seed=1, **kw),
                             lambda: graphs.LowStretchTree(1, **kw), lambda: graphs.BarabasiAlbert(7, 2, 1, seed=1, **kw))


# Things done with a graph.

def ordinary(G):
    return not G.is_directed() and G.is_connected() and G.N > 4


def spectral(w, G):
    """Is there a spectrum to speak of? Have lmax be known."""
    if abs(G.L).sum() == 0:
        return False
    G.lmax
    w.cell(G).now = w.cell(G).look()
    return True


def derive(w, G):
    from pygsp import reduction
    n = G.N
    c = w.pick("subgraph", "subgraph", "components", "kron", "kron", "sparsify", "kron matrix", "components")
    if c in ("kron", "sparsify", "kron matrix") and (not ordinary(G) or G.lap_type != "combinatorial"):
        c = "subgraph"
    if c == "components" and G.is_directed():
        c = "subgraph"
    w.involve(G)
    if c == "subgraph":
        v = w.rng.permutation(n)[:int(w.rng.integers(2, n + 1))]
        v = w.give(w.pick(v, v.tolist(), np.arange(n) % 2 == 0))
        return c, lambda: G.subgraph(v)
    if c == "components":
        return c, lambda: G.extract_components()
    if c == "sparsify":
        return c, lambda: reduction.graph_sparsify(G, .6, seed=1)
    ind = w.rng.permutation(n)[:max(3, n // 2)]
    ind = w.give(w.pick(np.sort(ind), ind, np.sort(ind).tolist()))
    if c == "kron":
        return c, lambda: reduction.kron_reduction(G, ind)
    L = w.give(G.L.copy() if w.chance(.5) else sparse.csc_matrix(G.L))
    return c, lambda: reduction.kron_reduction(L, ind)


def new_filter(w, G):
    from pygsp import filters
    c = w.pick("Filter", "Filter", "Heat", "Wave", "scales", "scales", "scales", "default", "default", "Gabor", "Modulation", "algebra", "algebra", "algebra")
    w.involve(G)
    if c == "Filter":
        ks = w.give([lambda x: np.exp(-x), lambda x: x / 2, lambda x: 1 + 0 * x][:int(w.rng.integers(1, 4))])
        ks = ks if w.chance(.7) else ks[0]
        return c, lambda: filters.Filter(G, ks), False
    if c == "Heat":
        s = w.give(w.pick([1, 2.5], np.array([3, 1.]), (2, 4, 8)))
        norm = w.chance(.4)
        return c, lambda: filters.Heat(G, s, normalize=norm), norm
    if c == "Wave":
        t = w.pick([1, 2], [3.], np.array([1., 2.]), (4, 5))
        s = w.pick([.5, 1.], [1.], np.array([.5, .25]), (1, 1.5))
        return c, (lambda: filters.Wave(G, w.give(t), w.give(s))) if False else wave(w, G, t, s), False
    if c == "scales":
        Nf = int(w.rng.integers(2, 5))
        s = w.rng.integers(1, 40, Nf - 1) / 4
        s = w.give(w.pick(s, s.tolist(), tuple(s)))
        f = w.pick(filters.MexicanHat, filters.Meyer, filters.SimpleTight, filters.Abspline)
        kw = dict(normalize=True) if f is filters.MexicanHat and w.chance(.3) else {}
        return c + " " + f.__name__, lambda: f(G, Nf=Nf, scales=s, **kw), False
    if c == "default":
        f = w.pick(filters.Abspline, filters.Expwin, filters.HalfCosine, filters.Heat, filters.Held, filters.Itersine, filters.MexicanHat, filters.Meyer,
                   filters.Papadakis, filters.Rectangular, filters.Regular, filters.Simoncelli, filters.SimpleTight, filters.Wave)
        return f.__name__, lambda: f(G), False
    if c == "algebra" and not w.filters_of(G):
        ks = w.give([lambda x: np.exp(-x), lambda x: x / (1 + x)][:w.pick(1, 2)])
        w.result(filters.Filter(G, ks))
    gs = w.filters_of(G)
    if c in ("Gabor", "Modulation"):
        k = filters.Heat(G, 2)
        w.gabor = True
        return c, lambda: getattr(filters, c)(G, k), True
    if not gs:
        return "Rectangular", lambda: filters.Rectangular(G, band_min=.1, band_max=None), False
    g, h = w.pick(*gs), w.pick(*gs)
    j = w.pick("sum", "item", "complement", "inverse", "bounded")
    if j == "sum":
        return j, lambda: g + h, True
    if j == "item":
        return j, lambda: g[len(g) - 1], True
    if j == "complement":
        return j, lambda: g.complement(), True
    if j == "inverse":
        return j, lambda: g.inverse(), True
    return j, lambda: g.complement(1e4), True


def wave(w, G, t, s):
    from pygsp import filters
    w.give(t), w.give(s)
    return lambda: filters.Wave(G, t, s)


def read(w, G):
    """(name, call, whether the full basis may be needed)"""
    from pygsp import features, filters, learning, plotting, reduction, utils
    from pygsp.filters import approximations
    n, rng = G.N, w.rng
    w.involve(G)
    gs = w.filters_of(G)
    g = w.pick(*gs) if gs else None
    gabor = any("Gabor" in type(x).__name__ for x in gs) or w.gabor
    if any(x is G for x in getattr(w, "levels", [])[:1]) and w.chance(.3):
        c = "pyramid"
    else:
        c = w.pick("predicates", "edges", "gft", "igft", "windowed", "grad", "div", "energy", "attributes", "spectrum", "incidence", "repr",
               "networkx", "networkx", "graph-tool", "save", "plot", "plot", "learn", "learn", "learn", "learn", "resistance", "resistance matrix", "interpolate",
               "pyramid", "distances", "symmetrize", "symmetrize", "rescale", "scales", "features", "features", "cheby", "cheby", "rectangle", "jackson",
               "lanczos", "lanczos matrix", "filter", "filter", "filter", "filter", "localize", "bounds", "frame", "evaluate", "evaluate", "plot filter", "copy")
    if c in ("filter", "localize", "bounds", "frame", "evaluate", "plot filter", "lanczos", "cheby") and g is None:
        g = filters.Filter(G, [lambda x: np.exp(-x), lambda x: x / 2])
    if n > 40 and c in ("lanczos matrix", "frame", "plot"):
        c = "gft"
    if c == "predicates":
        return c, lambda: (G.is_directed(), G.is_connected(), G.has_loops(), G.is_weighted()), False
    if c == "edges":
        return c, lambda: G.get_edge_list(), False
    if c in ("gft", "igft"):
        x = w.give(w.pick(w.signal(n), w.signal(n, 2), w.signal(n, 2, 3), w.vector(n)))
        U = getattr(G, "_U", None)
        if U is not None and U.shape[1] < n:
            c = "gft"
        return c, lambda: getattr(G, c)(x), True
    if c == "windowed":
        x = w.give(w.signal(n))
        return "gft", lambda: G.gft(x), True
    if c == "grad":
        x = w.give(w.pick(w.signal(n), w.signal(n, 2), w.vector(n)))
        return c, lambda: G.grad(x), False
    if c == "div":
        x = w.give(w.pick(w.signal(G.n_edges), w.signal(G.n_edges, 2), w.vector(G.n_edges)))
        return c, lambda: G.div(x), False
    if c == "energy":
        x = w.give(w.pick(w.signal(n), w.vector(n)))
        return c, lambda: G.dirichlet_energy(x), False
    if c == "attributes":
        return c, lambda: (G.W, G.L, G.A, G.d, G.dw), False
    if c == "spectrum":
        return c, lambda: (G.U, G.e, np.array(G.lmax)), True
    if c == "incidence":
        return c, lambda: G.D, False
    if c == "repr":
        return c, lambda: repr(G), False
    if c == "networkx":
        return c, lambda: G.to_networkx(), False
    if c == "graph-tool":
        return c, lambda: G.to_graphtool(), False
    if c == "save":
        return c, lambda: G.save(os.path.join(w.tmp, "s." + w.pick("graphml", "gml", "gexf"))), False
    if c == "copy":
        import copy
        return c, lambda: [copy.deepcopy(G), None][1], False
    if c == "plot":
        if getattr(G, "coords", None) is None or np.ndim(G.coords) != 2 or np.shape(G.coords)[1] not in (2, 3):
            G.set_coordinates("ring2D")
            w.cell(G).now = w.cell(G).look()
        kw = {}
        ne = G.n_edges
        if w.chance(.4):
            kw["vertex_color"] = w.give(w.pick(w.rng.random((n, 3)), w.signal(n) + .5, [.1, .2, .3, .4], w.vector(n + 0)))
        if w.chance(.4):
            kw["vertex_size"] = w.give(w.pick(w.vector(n), w.signal(n)))
        if w.chance(.4):
            kw["edge_width"] = w.give(w.vector(ne))
        if w.chance(.4):
            kw["edge_color"] = w.give(w.pick(w.signal(ne), w.rng.random((ne, 3))))
        if w.chance(.4):
            kw["highlight"] = w.give(w.pick([0, 2], np.array([1, 0]), (1, 2)))
        if w.chance(.4):
            kw["limits"] = w.give(w.pick([0., 1.], np.array([-1., 2.])))
        if w.chance(.3):
            kw["indices"] = True
        if w.chance(.2):
            kw["edges"] = False

        def call():
            try:
                G.plot(**kw)
            finally:
                plotting.close_all()
        return c, call, False
    if c == "plot filter":
        eig = w.chance(.4)

        def call():
            try:
                g.plot(n=50, sum=w.chance(.5), eigenvalues=eig, color="k")
            finally:
                plotting.close_all()
        return c, call, eig or gabor
    if c == "learn":
        m = w.pick("regression", "regression 0", "classification", "classification 0", "regression", "simplex")
        if not ordinary(G):
            return "edges", lambda: G.get_edge_list(), False
        M = rng.random(n) < .6
        M[:2] = True
        k = int(rng.integers(2, 4))
        labels = rng.integers(0, k, n)
        labels[:k] = np.arange(k)
        M[:k] = True
        M = w.give(M)
        if m.startswith("regression"):
            y = w.pick(w.signal(n), w.signal(n, 2)).astype(float)
            if w.chance(.3):
                y[~M] = np.nan
            y = w.give(y)
            tau = 0 if m.endswith("0") else .5
            return m, lambda: learning.regression_tikhonov(G, y, M, tau), False
        y = w.give(labels)
        if m == "simplex":
            return m, lambda: learning.classification_tikhonov_simplex(G, y, M, .5, maxit=5, verbosity="NONE"), False
        return m, lambda: learning.classification_tikhonov(G, y, M, 0 if m.endswith("0") else .5), False
    if c == "resistance":
        if not ordinary(G) or G.lap_type != "combinatorial":
            return "edges", lambda: G.get_edge_list(), False
        return c, lambda: utils.resistance_distance(G), False
    if c == "resistance matrix":
        L = sparse.csgraph.laplacian(w.weights(6))
        L = w.give(getattr(sparse, w.pick("csr", "csc", "coo", "lil") + "_matrix")(L))
        return c, lambda: utils.resistance_distance(L), False
    if c == "interpolate":
        if not ordinary(G):
            return "edges", lambda: G.get_edge_list(), False
        keep = w.give(np.sort(rng.permutation(n)[:n // 2]))
        f = w.give(w.signal(n // 2).astype(float))
        return c, lambda: reduction.interpolate(G, f, keep, order=w.pick(10, 30)), False
    if c == "pyramid":
        levels = [x for x in w.graphs() if hasattr(x, "mr")]
        chain = w.give(list(w.levels)) if getattr(w, "levels", None) and w.levels[0] is G else None
        if chain is None or any(x.N < 3 for x in chain[:-1]):
            return "edges", lambda: G.get_edge_list(), False
        w.involve(*chain)
        f = w.give(w.signal(n).astype(float))
        h = w.give([lambda x: 1 / (1 + x)] * w.pick(1, len(chain) - 1))

        def call():
            ca, pe = reduction.pyramid_analysis(chain, f, h_filters=h)
            w.give(ca[-1]), [w.give(p) for p in pe]
            rec, ca2 = reduction.pyramid_synthesis(chain, ca[-1], pe)
            return list(ca) + list(pe) + [rec]
        return c, call, True
    if c == "distances":
        x, y = w.give(rng.random((2, 4))), w.give(w.pick(rng.random((2, 3)), rng.integers(0, 9, (2, 3))))
        return c, lambda: utils.distanz(x, y), False
    if c == "symmetrize":
        A = w.give(w.matrix(w.weights(5, directed=True), ("array", "csr", "csc", "coo", "lil", "zeros", "unsorted")))
        m = w.pick("average", "maximum", "fill", "tril", "triu")
        return c, lambda: utils.symmetrize(A, m), False
    if c == "rescale":
        x = w.give(w.pick(rng.random((5, 2)), w.signal(5, 3) + np.arange(5)[:, None]))
        return c, lambda: utils.rescale_center(x), False
    if c == "scales":
        return c, lambda: utils.compute_log_scales(.5, 8, 4), False
    if c == "features":
        if g is None or n > 20:
            if G.is_directed() or G.has_loops():
                return "edges", lambda: G.get_edge_list(), False
            return "avg adj deg", lambda: features.compute_avg_adj_deg(G), False
        return "tig", w.pick(lambda: features.compute_tig(g), lambda: features.compute_norm_tig(g)), gabor
    if c == "cheby":
        co = w.give(w.pick(lambda: rng.random(4), lambda: rng.random((2, 4)), lambda: rng.random((2, 4)).tolist())())
        x = w.give(w.pick(w.signal(n), w.signal(n, 2)))
        if w.chance(.3):
            return "cheby coeff", lambda: approximations.compute_cheby_coeff(g, m=5), gabor
        if not spectral(w, G):
            return "edges", lambda: G.get_edge_list(), False
        return c, lambda: approximations.cheby_op(G, co, x), False
    if c == "rectangle":
        x = w.give(w.pick(w.signal(n), w.signal(n, 2)))
        if not spectral(w, G):
            return "edges", lambda: G.get_edge_list(), False
        b = w.give(w.pick([0., G.lmax / 2], np.array([.25, 1]) * G.lmax))
        return c, lambda: approximations.cheby_rect(G, b, x), False
    if c == "jackson":
        b, d = w.give([.5, 1.]), w.give(w.pick([0., 2.], np.array([0., 2.])))
        b = w.give(np.array(b)) if w.chance(.5) else b
        return c, lambda: approximations.compute_jackson_cheby_coeff(b, d, 5), False
    if c == "lanczos":
        x = w.give(w.pick(w.signal(n), w.signal(n, 2)).astype(float))
        return c, lambda: approximations.lanczos_op(g, x, order=3), gabor
    if c == "lanczos matrix":
        A = w.give(w.weights(6))
        x = w.give(w.pick(w.signal(6, 1), w.signal(6, 2)).astype(float) + 3)
        return c, lambda: approximations.lanczos(A, 3, x), False
    if c == "filter":
        f = g.n_filters
        m = w.pick("exact", "chebyshev", "chebyshev")
        how = w.pick("filter", "filter", "analyze", "synthesize", "call")
        x = w.pick(w.signal(n), w.signal(n, 2), w.signal(n, 2, f), w.signal(n, 1, f)) if how in ("filter", "call") else \
            w.pick(w.signal(n), w.signal(n, 2, 1)) if how == "analyze" else w.pick(w.signal(n, f), w.signal(n, 2, f))
        x = w.give(x.astype(float) if w.chance(.5) else x)
        if how == "call":
            return "call", lambda: g(x), gabor
        return how + " " + m, lambda: getattr(g, how)(x, method=m, order=5), gabor or m == "exact"
    if c == "localize":
        return c, lambda: g.localize(1, method=w.pick("exact", "chebyshev"), order=5), True
    if c == "bounds":
        x = w.give(w.pick(np.linspace(0, 2, 7), [0., 1.])) if w.chance(.6) else None
        return c, lambda: g.estimate_frame_bounds(x), gabor
    if c == "frame":
        return c, lambda: g.compute_frame(method=w.pick("exact", "chebyshev"), order=5), True
    if c == "evaluate":
        x = w.give(w.pick(rng.random(5), rng.random((2, 3)), np.array([0., 1e-9, 1, 2]), rng.integers(0, 3, 4)))
        return c, lambda: g.evaluate(x), gabor
    raise KeyError(c)


def perform(w, op, G):
    from pygsp import reduction
    n, rng = G.N, w.rng
    if op == "new":
        name, call = new_graph(w)
        return w.do("new", None, name, call)
    if op == "derive":
        name, call = derive(w, G)
        return w.do("derive", G, name, call)
    if op == "filter":
        if not spectral(w, G):
            return None
        name, call, full = new_filter(w, G)
        return w.do("filter", G, name, call, full)
    if op in ("read", "given", "result"):
        w.involved = []
        name, call, full = read(w, G)
        return w.do("read", G, name, call, full)
    if op == "laplacian":
        t, m = w.pick("combinatorial", "normalized"), w.pick("lanczos", "bounds")
        full = w.filters_of(G)

        def call():
            G.compute_laplacian(t)
            if full:
                G.compute_fourier_basis()
        return w.do(op, G, t, call)
    if op == "estimate":
        m = w.pick("lanczos", "bounds")
        return w.do(op, G, m, lambda: G.estimate_lmax(m))
    if op == "fourier":
        k = None if w.chance(.6) or n < 6 else 3
        return w.do(op, G, str(k), lambda: G.compute_fourier_basis(k))
    if op == "incidence":
        return w.do(op, G, op, lambda: G.compute_differential_operator())
    if op == "layout":
        t = w.pick("line1D", "line2D", "ring2D", "random2D", "random3D", "spring", "spring", "array", "array", "eigenmap")
        if t == "array":
            x = w.give(w.pick(w.signal(n, 2), w.signal(n, 3), w.signal(n), w.signal(n, 2).tolist()))
            return w.do(op, G, t, lambda: G.set_coordinates(x))
        if t == "spring":
            kw = {}
            if w.chance(.6):
                x = rng.random((n, 2))
                kw["pos"] = w.give(w.pick(x, x.tolist(), x * 8 - 2, np.asfortranarray(x), x.astype(np.float32)))
                if w.chance(.7):
                    kw["fixed"] = w.give(w.pick([1, 3], np.array([0, 2]), [2]))
            if w.chance(.3):
                kw["center"] = w.give(np.array([[1., 2.]]))
            return w.do(op, G, t, lambda: G.set_coordinates("spring", iterations=3, seed=1, **kw))
        if t == "eigenmap":
            if not ordinary(G):
                t = "ring2D"
            else:
                return w.do("eigenmap", G, t, lambda: G.set_coordinates("laplacian_eigenmap2D"))
        return w.do(op, G, t, lambda: G.set_coordinates(t, seed=1))
    if op == "communities":
        def call():
            if not hasattr(G, "info"):
                G.info = dict(node_com=np.arange(n) % 2)
            G.set_coordinates("community2D", seed=1)
        return w.do(op, G, op, call)
    if op == "signal":
        x = w.give(w.pick(w.signal(n), w.signal(n, 2), w.vector(n)))
        return w.do(op, G, op, lambda: G.set_signal(x, w.pick("a", "b", "c")))
    if op == "edit signals":
        x = w.give(w.signal(n))

        def call():
            if G.signals and w.chance(.3):
                del G.signals[sorted(G.signals)[0]]
            else:
                G.signals[w.pick("a", "d")] = x
        return w.do(op, G, op, call)
    if op == "edit plotting":
        return w.do(op, G, op, lambda: G.plotting.update(vertex_size=int(rng.integers(1, 99)), **{w.pick("x", "edge_width"): 3}))
    if op == "multiresolution":
        if not ordinary(G) or G.lap_type != "combinatorial" or n < 7:
            return w.do("derive", G, "subgraph", lambda: G.subgraph(np.arange(n - 1)))
        levels = int(rng.integers(1, 3)) if n > 11 else 1

        def call():
            Gs = reduction.graph_multiresolution(G, levels, sparsify=w.chance(.4), sparsify_eps=.6)
            w.levels = Gs
            return list(Gs)
        return w.do(op, G, op, call, True)
    if op == "spectrogram":
        from pygsp import features
        if n > 20 or not spectral(w, G):
            return None
        w.involve(G)
        m = w.pick("exact", "chebyshev")
        return w.do(op, G, op, lambda: features.compute_spectrogram(G, M=3, method=m), m == "exact")
    raise KeyError(op)


def scratch():
    return tempfile.mkdtemp()


EXTRA = ["new", "derive", "filter", "read", "read", "read", "read", "read", "read", "laplacian", "estimate", "fourier", "incidence", "layout",
         "communities", "signal", "edit signals", "edit plotting", "multiresolution", "spectrogram"]


def walk(ctx, hist, length, rng):
    from pygsp import graphs
    tmp = scratch()
    out = {}

    def run():
        w = World(rng, tmp)
        try:
            for _ in range(2):
                while True:
                    n = int(rng.integers(6, 13))
                    G = w.pick(lambda: graphs.Graph(w.weights(n)), lambda: graphs.Graph(w.weights(n)), lambda: graphs.Graph(w.weights(n, True)),
                               lambda: graphs.Ring(n), lambda: graphs.Sensor(16, k=4, seed=int(rng.integers(9))), lambda: graphs.Path(n))()
                    break
                w.add("graph", G)
            for c in hist:
                gs = w.graphs()
                on = gs[(c["on"] - 1) % len(gs)] if c["on"] else gs[0]
                perform(w, c["op"], on)
            for _ in range(length):
                perform(w, w.pick(*EXTRA), w.pick(*w.graphs()))
        finally:
            shutil.rmtree(tmp)
        return dict(steps=w.steps, failed=w.failed)
    ctx.rec("walk", dict(hist=hist), run, timeout=200)


# The same thing made twice.

def recipes():
    from pygsp import filters, graphs
    R = np.random.default_rng(5)
    x = R.random((12, 2))
    img = R.random((5, 6))
    W = np.triu(R.random((8, 8)) < .6, 1) * 1.
    W = W + W.T
    ks = dict(
        Airfoil=lambda: graphs.Airfoil(), BarabasiAlbert=lambda: graphs.BarabasiAlbert(20, seed=1), Comet=lambda: graphs.Comet(),
        Community=lambda: graphs.Community(40, 4, seed=1), DavidSensorNet=lambda: graphs.DavidSensorNet(), DavidSensorNet500=lambda: graphs.DavidSensorNet(500),
        DavidSensorNet30=lambda: graphs.DavidSensorNet(30, seed=1), ErdosRenyi=lambda: graphs.ErdosRenyi(20, seed=1), FullConnected=lambda: graphs.FullConnected(),
        Grid2d=lambda: graphs.Grid2d(), Logo=lambda: graphs.Logo(), LowStretchTree=lambda: graphs.LowStretchTree(3), Minnesota=lambda: graphs.Minnesota(),
        MinnesotaNot=lambda: graphs.Minnesota(False), Path=lambda: graphs.Path(), RandomRegular=lambda: graphs.RandomRegular(12, 3, seed=1),
        RandomRing=lambda: graphs.RandomRing(12, seed=1), Ring=lambda: graphs.Ring(), StochasticBlockModel=lambda: graphs.StochasticBlockModel(30, seed=1),
        SwissRoll=lambda: graphs.SwissRoll(40, seed=1), Torus=lambda: graphs.Torus(5), Bunny=lambda: graphs.Bunny(), Cube=lambda: graphs.Cube(nb_pts=30, seed=1),
        Sensor=lambda: graphs.Sensor(20, seed=1), Sphere=lambda: graphs.Sphere(nb_pts=30, seed=1), TwoMoons=lambda: graphs.TwoMoons(seed=1),
        TwoMoonsSyn=lambda: graphs.TwoMoons("synthesized", N=40, seed=1), NNGraph=lambda: graphs.NNGraph(x, k=3), ImgPatches=lambda: graphs.ImgPatches(img, k=3),
        Grid2dImgPatches=lambda: graphs.Grid2dImgPatches(img, k=3), Star=lambda: graphs.Star(), Graph=lambda: graphs.Graph(W), LineGraph=lambda: graphs.LineGraph(graphs.Graph(W)))
    return ks, dict(x=x, img=img, W=W)


def scribble(v, depth=0):
    """The user writes in what belongs to an object."""
    if depth > 4:
        return
    if sparse.issparse(v):
        if hasattr(v, "data") and isinstance(v.data, np.ndarray) and v.data.dtype.kind in "iuf" and v.data.flags.writeable:
            v.data[...] = 7
    elif isinstance(v, np.ndarray):
        if v.dtype.kind in "iufc" and v.flags.writeable:
            v[...] = 7
    elif isinstance(v, dict):
        for k in list(v):
            scribble(v[k], depth + 1)
        v["scribble"] = 7
    elif isinstance(v, list):
        for k in v:
            scribble(k, depth + 1)
        v.append(7)


def again(ctx, name, other, rng):
    def run():
        import matplotlib
        from pygsp import filters, graphs, plotting
        made, given = recipes()
        make, makeother = made[name], recipes()[0][other]     # (what is given may be kept: it isn't the same for both)
        before = shared()

        def parts(G, g):
            return facets_graph(G) + (facets_filter(g)[:1] if g is not None else []) + [digest((repr(g), repr(G)))]

        def build():
            G = make()
            G.estimate_lmax("bounds")
            names = ["Abspline", "Expwin", "HalfCosine", "Heat", "Held", "Itersine", "MexicanHat", "Meyer", "Papadakis", "Rectangular",
                     "Regular", "Simoncelli", "SimpleTight", "Wave"]
            g = getattr(filters, names[zlib.crc32((name + other).encode()) % len(names)])(G)
            return G, g
        g0 = {k: digest(freeze(v)) for k, v in given.items()}
        H = makeother()
        h0 = facets_graph(H)
        G, g = build()
        first = parts(G, g)
        h1 = facets_graph(H)
        g1 = {k: digest(freeze(v)) for k, v in given.items()}
        # It is used, and written to.
        G.set_signal(np.arange(G.N), "s")
        G.plotting["vertex_size"] = 7
        g.filter(G.signals["s"], order=3)
        G.grad(np.arange(G.N))
        if G.N < 300 and hasattr(G, "coords") and np.ndim(G.coords) == 2 and np.shape(G.coords)[1] in (2, 3):
            try:
                G.plot(G.signals["s"], highlight=[0])
                g.plot(n=20)
            finally:
                plotting.close_all()
        for o in (G, g):
            for k, v in list(vars(o).items()):
                if o is not G or k != "G":
                    scribble(v)
        h2 = facets_graph(H)
        made2, _ = recipes()
        make2 = made2[name]
        G2 = make2()
        G2.estimate_lmax("bounds")
        g2 = type(g)(G2)
        again_ = parts(G2, g2)
        return dict(first=first, again=again_, other=h0 + h0, otherafter=h1 + h2, shared=before, sharedafter=shared(),
                    given=sorted(g0.values()), givenafter=sorted(g1.values()))
    ctx.rec("again", dict(recipe=name, other=other), run, timeout=200)


def cases(ctx):
    with open(os.path.join(ctx.workdir, "histories.json")) as fh:
        hists = json.load(fh)
    order = np.random.default_rng(ctx.seed).permutation(len(hists))
    nw = 1500 if ctx.thorough else 160
    res = []
    for k in range(nw):
        def fn(ctx, k=k):
            rng = ctx.rng()
            h = [hists[int(order[(3 * k + j) % len(order)])] for j in range(3)]
            for x in h:
                walk(ctx, x, 12, rng)
        res.append(("walk-%d" % k, fn))
    names = sorted(recipes()[0])
    for i, name in enumerate(names):
        for s in range(len(names) if ctx.thorough else 2):
            other = names[(i + (ctx.seed * 5 + 7 if s and not ctx.thorough else s)) % len(names)]

            def fn(ctx, name=name, other=other):
                again(ctx, name, other, ctx.rng())
            if s == 0 or other != name:
                res.append(("again-%s-%s-%d" % (name, other, s), fn))
    return res
