"""C22: refusals."""
import copy
import hashlib
import json
import os
import shutil
import tempfile
import zlib

import numpy as np

from .. import enc, gen

MODULE = "TraceC22"
S = 10**6


def models(tier):
    return [dict(module="ValidityMC", cfg="ValidityMC" + c) for c in ("F", "T", "16F", "16T")]


def use_model(m, res, workdir):
    for k in "HT":
        xs = sorted(set(p[2:] for p in res["prints"] if p.startswith(k + " ")))
        with open(os.path.join(workdir, "%s%s.json" % (m["cfg"], k)), "w") as fh:
            fh.write("[" + ",".join(xs) + "]")


def frozen(v):
    if isinstance(v, dict):
        return {str(k): frozen(v[k]) for k in sorted(v, key=str)}
    if isinstance(v, (list, tuple)):
        return [frozen(x) for x in v]
    if hasattr(v, "toarray") or isinstance(v, np.ndarray):
        return [str(getattr(v, "dtype", "")), enc.exact(v)]
    return v if isinstance(v, (int, float, str, type(None))) else repr(v)


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=repr).encode()).hexdigest()


def files(d):
    res = {}
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), "rb") as fh:
            res[f] = hashlib.sha1(fh.read()).hexdigest()
    return res


class Player:
    def __init__(self, G, tmp):
        from pygsp import filters
        self.G, self.tmp = G, tmp
        self.g = filters.Filter(G, [lambda x: 2 + 0 * x, lambda x: 1 + 0 * x])

    def copy(self):
        return Player(copy.deepcopy(self.G), self.tmp)

    def state(self):
        from matplotlib import pyplot as plt
        G = self.G
        return digest(dict(
            W=enc.exact(G.W), sigs=frozen(G.signals), coords=frozen(getattr(G, "coords", None)),
            plotting=frozen(G.plotting), info=frozen(getattr(G, "info", None)), lap=str(G.lap_type), L=enc.exact(G.L),
            e=frozen(getattr(G, "_e", None)), U=frozen(getattr(G, "_U", None)),
            names=sorted(k for k in vars(G) if not k.startswith("_")), directed=bool(G.is_directed()), ne=int(G.n_edges),
            bank=frozen(self.g.evaluate(np.linspace(0, 2, 3))), banks=repr(self.g), same=self.g.G is G,
            figures=len(plt.get_fignums()), files=files(self.tmp)))

    def lmax(self):
        """What is known of it (estimates done on demand aren't reproducible)."""
        v = getattr(self.G, "_lmax", None)
        return enc.num(float("nan") if v is None else v)

    def looks(self):
        G = self.G
        x = getattr(G, "coords", None)
        dim = 0 if x is None else 9 if len(x) == G.N else 8
        if x is not None and len(x) == G.N:
            dim = 1 if x.ndim == 1 else x.shape[1] if x.ndim == 2 and x.shape[1] in (2, 3) else 9
        return dict(lap=str(G.lap_type), dim=dim, sigs=sorted(G.signals), cols=int(copy.deepcopy(G).U.shape[1]))

    def call(self, c, salt):
        """Make the call."""
        from pygsp import filters, graphs, learning, plotting, reduction, utils
        G, g = self.G, self.g
        op, t, k, s = c["op"], c["t"], c["k"], [int(v) for v in c["s"]]
        rng = np.random.default_rng(zlib.crc32((json.dumps(c, sort_keys=True) + str(salt)).encode()))

        def x():
            return rng.integers(-40, 41, s) / 8 + 2.0
        if op == "laplacian":
            G.compute_laplacian(t)
        elif op == "estimate":
            G.estimate_lmax(t)
        elif op == "fourier":
            G.compute_fourier_basis(k)
        elif op == "layout":
            G.set_coordinates(t, seed=3)
        elif op == "coordinates":
            v = x()
            G.set_coordinates(v if rng.random() < .7 else v.tolist())
        elif op == "assign":
            G.coords = x()
        elif op == "signal":
            v = x()
            G.set_signal(v if rng.random() < .7 else v.tolist(), t)
        elif op in ("gft", "igft", "grad", "div"):
            getattr(G, op)(x())
        elif op == "energy":
            G.dirichlet_energy(x())
        elif op == "filter":
            g.filter(x(), method=t, order=5)
        elif op == "analyze":
            g.analyze(x(), method=t, order=5)
        elif op == "synthesize":
            g.synthesize(x(), method=t, order=5)
        elif op == "components":
            G.extract_components()
        elif op == "weights":
            G.W = np.ones((G.N, G.N))
        elif op == "kron":
            reduction.kron_reduction(G, [0, 2, 3])
        elif op == "sparsify":
            reduction.graph_sparsify(G, k / S, seed=4)
        elif op == "multiresolution":
            # (reductions may end up too small for eigsh: no level where one would succeed)
            levels = 1 if G.lap_type != "combinatorial" or G.is_directed() else int(t == "unknown" or k != 1)
            reduction.graph_multiresolution(G, levels, downsampling_method=t, reduction_method="kron" if k == 1 else "unknown", sparsify=False)
        elif op == "resistance":
            utils.resistance_distance(G)
        elif op == "complement":
            g.complement(k / S).evaluate(np.linspace(0, 2, 5))
        elif op == "scales":
            getattr(filters, t)(G, Nf=k, scales=list(range(1, s[0] + 1)))
        elif op in ("gabor", "modulation"):
            H = G if t == "same" else graphs.Ring(G.N) if rng.random() < .5 else copy.deepcopy(G)
            kernel = filters.Heat(H, scale=list(range(1, k + 1)))
            (filters.Gabor if op == "gabor" else filters.Modulation)(G, kernel)
        elif op == "halfcosine":
            filters.HalfCosine(G, Nf=k)
        elif op == "wave":
            times, speeds = [1.0] * s[0], [.5] * (s[1] - 1) + [k / S]
            if s[1] == 1 and rng.random() < .5:
                speeds = speeds[0]
            if s[0] == 1 and rng.random() < .5:
                times = times[0]
            filters.Wave(G, time=times, speed=speeds)
        elif op == "simplex":
            M = np.arange(G.N) % 2 == 0
            learning.classification_tikhonov_simplex(G, np.arange(G.N) % 3, M, k / S, maxit=2, verbosity="NONE")
        elif op == "regression":
            learning.regression_tikhonov(G, np.arange(G.N) / 2, np.arange(s[0]) % 2 == 0, 0)
        elif op in ("plot", "plot on"):
            kw = {t: x()} if op == "plot" and t else {}
            if op == "plot on":
                kw["backend"] = t
            G.plot(**kw)
            plotting.close_all()
        elif op == "save":
            if rng.random() < .5:
                G.save(os.path.join(self.tmp, ["old", "new"][int(rng.integers(2))]), fmt=t)
            else:
                G.save(os.path.join(self.tmp, "file." + t))
        elif op == "save with":
            G.save(os.path.join(self.tmp, ["old.graphml", "new.gml"][int(rng.integers(2))]), backend=t)
        else:
            raise KeyError(op)

    def step(self, c, salt):
        o = dict(c=c, before=self.state(), lmaxb=self.lmax(), exc="")
        try:
            self.call(c, salt)
        except Exception as e:
            o["exc"] = type(e).__name__
            o["msg"] = str(e)[:200]
        o.update(self.looks())
        o.update(after=self.state(), lmaxa=self.lmax())
        return o


def make(start, rng):
    """A graph in the given state."""
    from pygsp import graphs
    n, ne, directed = start["n"], start["ne"], start["directed"] == "T"
    W = np.zeros((n, n))
    perm = rng.permutation(n)
    cells = [(int(perm[i]), int(perm[rng.integers(i)])) for i in range(1, n)]
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j and (directed or i < j)]
    for i, j in [pairs[int(a)] for a in rng.permutation(len(pairs))]:
        if len(cells) == ne:
            break
        if (i, j) not in cells and (directed or (j, i) not in cells):
            cells.append((i, j))
    for i, j in cells:
        W[i, j] = rng.integers(1, 9) / 8
        if not directed:
            W[j, i] = W[i, j]
    G = graphs.Graph(W, lap_type=start["lap"])
    if start["info"] == "T":
        G.info = dict(node_com=np.arange(n) % 2)
    assert G.n_edges == ne and G.is_directed() == directed
    return G, W


def scratch():
    d = tempfile.mkdtemp()
    for f in ("old", "old.graphml", "file.txt"):
        with open(os.path.join(d, f), "w") as fh:
            fh.write("keep me")
    return d


def close_figures():
    from matplotlib import pyplot as plt
    from pygsp import plotting
    plotting.close_all()
    plt.close("all")


def tries(ctx, start, hist, calls, rng):
    def run():
        close_figures()
        d = scratch()
        try:
            G, _ = make(start, rng)
            p = Player(G, d)
            for i, c in enumerate(hist):
                p.call(c, i)
            res = []
            for i, c in enumerate(calls):
                res.append(p.copy().step(c, i))
            return dict(tries=res)
        finally:
            shutil.rmtree(d)
            close_figures()
    ctx.rec("tries", dict(start=start, hist=hist), run, timeout=120)


def walk(ctx, start, calls, rng):
    def run():
        close_figures()
        d, d2 = scratch(), scratch()
        try:
            G, W = make(start, rng)
            p, twin = Player(G, d), Player(copy.deepcopy(G), d2)
            steps = []
            for i, c in enumerate(calls):
                o = p.step(c, i)
                steps.append(o)
                if o["exc"] == "":
                    twin.call(c, i)
            return dict(steps=steps, final=p.state(), twin=twin.state(), lmax=p.lmax(), lmaxtwin=twin.lmax())
        finally:
            shutil.rmtree(d)
            shutil.rmtree(d2)
            close_figures()
    ctx.rec("walk", dict(start=start), run, timeout=120)


# Constructors and functions.

def pick(rng, *xs):
    return xs[int(rng.integers(len(xs)))]


def probabilities(rng, shape, bad):
    v = rng.integers(0, 9, shape) / 8
    if bad and v.size:
        v.ravel()[int(rng.integers(v.size))] = pick(rng, -.125, 1.125, 1.000001, -1e-6, 5.)
    return v


def domain(rng, d):
    """A call: what it is, and the function which makes it."""
    from scipy import sparse
    from pygsp import filters, graphs, reduction, utils
    from pygsp.filters import approximations
    c = pick(rng, "graph", "graph", "ring", "comet", "barabasi", "regular", "random ring", "blocks", "blocks", "blocks matrix",
             "erdos", "community", "community", "sensor", "neighbors", "neighbors", "sphere", "cube", "moons", "cheby coefficients",
             "rectangle", "jackson", "symmetrize", "distances", "analysis", "synthesis", "load")
    n = int(rng.integers(2, 9))
    bad = rng.random() < .5
    kw = dict(lap_type="combinatorial") if rng.random() < .3 else {}
    if c == "graph":
        shape = pick(rng, [n, n], [n, n + 1], [n + 1, n], [n, n, n], [n], [n, 1]) if bad else [n, n]
        W = rng.integers(0, 9, shape) / 8
        fmt = pick(rng, "array", "list", "csr", "coo") if len(shape) == 2 else "array"
        finite = "T"
        if rng.random() < .3:
            for v in rng.choice([np.nan, np.inf, -np.inf], int(rng.integers(1, 3))):
                W.ravel()[int(rng.integers(W.size))] = v
            finite = "F"
        lap = pick(rng, "combinatorial", "normalized", "normalized", "Combinatorial", "none", "")
        A = W if fmt == "array" else W.tolist() if fmt == "list" else getattr(sparse, fmt + "_matrix")(W)
        return dict(op=c, shape=shape, finite=finite, lap=lap), [A], lambda: graphs.Graph(A, lap_type=lap)
    if c == "ring":
        n, k = int(rng.integers(1, 9)), int(rng.integers(1, 6))
        return dict(op=c, n=n, k=k), [], lambda: graphs.Ring(n, k, **kw)
    if c == "comet":
        n, k = int(rng.integers(3, 9)), int(rng.integers(1, 11))
        return dict(op=c, n=n, k=k), [], lambda: graphs.Comet(n, k, **kw)
    if c == "barabasi":
        m0 = int(rng.integers(1, 5))
        n, m = m0 + int(rng.integers(1, 6)), int(rng.integers(1, 7))
        return dict(op=c, m0=m0, m=m), [], lambda: graphs.BarabasiAlbert(n, m0, m, seed=3, **kw)
    if c == "regular":
        k = int(rng.integers(1, 4))
        n = k + 2 + int(rng.integers(0, 5))
        return dict(op=c, n=n, k=k), [], lambda: graphs.RandomRegular(n, k, seed=3, **kw)
    if c == "random ring":
        a = list(rng.choice(6200, int(rng.integers(2, 7)), replace=False) / 1000)
        if bad and rng.random() < .6:
            a[int(rng.integers(len(a)))] = pick(rng, -.001, 6.3, -1., 7., 6.284)
        return dict(op=c, angles=[enc.num(v) for v in a]), [], lambda: graphs.RandomRing(angles=np.array(a), **kw)
    if c == "blocks":
        k = int(rng.integers(2, 4))
        ps = pick(rng, [], [k], [1], [k + 1], [k, k]) if bad else pick(rng, [], [k], [1])
        qs = pick(rng, [], [k, k], [1], [1, 1], [k], [k, k + 1], [k + 1, k + 1]) if bad else pick(rng, [], [k, k], [1])
        p, q = probabilities(rng, ps, rng.random() < .2), probabilities(rng, qs, rng.random() < .2)
        if len(qs) == 2 and qs[0] == qs[1] == k:
            q = np.maximum(q, q.T) if q.max() > 1 else np.minimum(q, q.T)
        if qs == [k, k]:
            np.fill_diagonal(q, .5)     # p is there
        args = [p, q]
        extra = {}
        hopeless = rng.random() < .15
        if hopeless:
            p, q = p * 0, q * 0
            args = [p, q]
            extra = dict(connected=True, n_try=int(rng.integers(1, 4)))
            if ps not in ([], [k], [1]) or qs not in ([], [k, k], [1], [1, 1]):
                extra = dict(connected=True, n_try=2)
        return dict(op=c, k=k, p=enc.arr(p), q=enc.arr(q), hopeless=enc.flag(hopeless)), args, \
            lambda: graphs.StochasticBlockModel(n, k, p=p if ps else float(p), q=q if qs else float(q), seed=3, **extra, **kw)
    if c == "blocks matrix":
        k = int(rng.integers(2, 4))
        M = probabilities(rng, (k, k), bad)
        M = np.where(np.tri(k, k, -1), M.T, M)
        return dict(op=c, m=[enc.num(v) for v in M.ravel()]), [M], lambda: graphs.StochasticBlockModel(n, k, M=M, seed=3, **kw)
    if c == "erdos":
        p = pick(rng, 0., 1., .5, .25) if not bad else pick(rng, -.125, 1.125, 1.000001, -1e-6)
        return dict(op=c, p=enc.num(p)), [], lambda: graphs.ErdosRenyi(n, p, seed=3, **kw)
    if c == "community":
        n = int(rng.integers(8, 17))
        nc = int(rng.integers(2, 4))
        r = dict(op=c, n=n, nc=nc, mindeg="F", world=125000, mincomm=1, sizes=[], density=[], neigh=[])
        a = dict(N=n, Nc=nc, min_comm=1, world_density=.125, seed=3)
        if rng.random() < .5:
            s = [n // nc] * nc
            s[0] += n - sum(s)
            if bad:
                s = pick(rng, s, s[:-1], s + [0], s[:-1] + [s[-1] + 1], [s[0] + 1] + s[1:-1] + [s[-1] - 1], s[1:] + [1])
            r["sizes"], a["comm_sizes"] = s, pick(rng, s, np.array(s))
        j = rng.random()
        if j < .3:
            v = pick(rng, .5, 1., 0., 1.125, -.125) if bad else .5
            r["density"], a["comm_density"] = [enc.num(v)], v
        elif j < .6:
            v = int(pick(rng, 1, 2, 0, -1, -3)) if bad else 2
            r["neigh"], a["k_neigh"] = [v], v
        if bad and rng.random() < .3:
            v = pick(rng, 0., .25, 1.125, -.125)
            r["world"], a["world_density"] = enc.num(v), v
        if bad and rng.random() < .3:
            v = pick(rng, n // nc, n // nc + 1, n)
            r["mincomm"] = a["min_comm"] = v
        if bad and rng.random() < .2:
            r["mindeg"], a["min_deg"] = "T", 2
        return r, [v for v in a.values() if isinstance(v, (list, np.ndarray))], lambda: graphs.Community(**a, **kw)
    if c == "sensor":
        n = int(rng.integers(7, 30)) if bad else int(rng.integers(3, 6))**2
        dist = rng.random() < .8
        return dict(op=c, n=n, distributed=enc.flag(dist)), [], lambda: graphs.Sensor(n, k=3, distributed=dist, seed=3, **kw)
    if c == "neighbors":
        n = int(rng.integers(3, 9))
        x = rng.permutation(64)[:n, None] % np.array([[8, 64]]) / 8 + rng.integers(0, 8, (n, 2)) * 2
        t = pick(rng, "knn", "knn", "radius") if not bad else pick(rng, "knn", "knn", "radius", "KNN", "epsilon", "")
        k = int(rng.integers(1, 11))
        eps = pick(rng, .001, 100.)
        return dict(op=c, type=t, k=k, n=n, alone=enc.flag(eps < 1)), [x], \
            lambda: graphs.NNGraph(x, NNtype=t, k=k, epsilon=eps, rescale=False, center=bool(n % 2), **kw)
    if c == "sphere":
        s = "random" if not bad else pick(rng, "uniform", "equi", "Random")
        return dict(op=c, sampling=s), [], lambda: graphs.Sphere(nb_pts=12, sampling=s, seed=3, **kw)
    if c == "cube":
        s = "random" if rng.random() < .6 else "uniform"
        dim = int(rng.integers(2, 6))
        return dict(op=c, sampling=s, dim=dim), [], lambda: graphs.Cube(nb_pts=18, nb_dim=dim, sampling=s, seed=3, **kw)
    if c == "moons":
        t = pick(rng, "standard", "synthesized") if not bad else pick(rng, "synthetic", "Standard", "")
        return dict(op=c, type=t), [], lambda: graphs.TwoMoons(moontype=t, dim=2, N=16, seed=3, **kw)
    G = graphs.Ring(n + 2)
    x = rng.integers(-8, 9, n + 2) / 4
    if c == "cheby coefficients":
        G.estimate_lmax()
        m = int(rng.integers(1, 5))
        co = rng.random(pick(rng, [m], [2, m], [1, m]))
        return dict(op=c, m=m), [co, x], lambda: approximations.cheby_op(G, pick(rng, co, co.tolist()), x)
    if c == "rectangle":
        G.estimate_lmax()
        m = int(rng.integers(1, 5)) if bad else 2
        b = list(np.arange(m) / 2)
        return dict(op=c, m=m), [b, x], lambda: approximations.cheby_rect(G, np.array(b) if m % 2 else b, x)
    if c == "jackson":
        b = sorted(rng.integers(0, 17, 2) / 8)
        e = sorted(rng.integers(0, 17, 2) / 8) if bad else [b[0] - int(rng.integers(2)) / 8, b[1] + (int(rng.integers(2)) or 1) / 8]
        if e[0] == e[1]:
            e[1] += .125
        return dict(op=c, bounds=[enc.num(v) for v in b], delta=[enc.num(v) for v in e]), [b, e], \
            lambda: approximations.compute_jackson_cheby_coeff(b, e, 5)
    if c == "symmetrize":
        shape = pick(rng, [n, n + 1], [n, 1], [1, n]) if rng.random() < .4 else [n, n]
        W = rng.integers(0, 9, shape) / 8
        A = W if rng.random() < .5 else sparse.csr_matrix(W)
        m = pick(rng, "average", "maximum", "fill", "tril", "triu", "sum", "Average", "tri")
        return dict(op=c, shape=shape, method=m), [A], lambda: utils.symmetrize(A, m)
    if c == "distances":
        dims = [int(v) for v in rng.integers(1, 4, 2)]
        if not bad:
            dims[1] = dims[0]
        a, b = rng.random((dims[0], 3)), rng.random((dims[1], 4))
        return dict(op=c, dims=dims), [a, b], lambda: utils.distanz(a, b)
    if c in ("analysis", "synthesis"):
        G = graphs.Sensor(32, seed=int(rng.integers(5)))
        levels = int(rng.integers(1, 3))
        Gs = reduction.graph_multiresolution(G, levels, sparsify=False)
        f = rng.random(pick(rng, 31, 33, 16) if bad and rng.random() < .6 else 32)
        hs = int(rng.integers(1, levels + (2 if bad else 1)))
        hs = hs if bad else pick(rng, 1, levels)
        h = [lambda x: 1 / (1 + x)] * hs
        if c == "analysis":
            return dict(op=c, len=len(f), n=32, filters=hs, levels=levels), [f], \
                lambda: reduction.pyramid_analysis(Gs, f, h_filters=h)
        ca, pe = reduction.pyramid_analysis(Gs, rng.random(32))
        pe = pick(rng, pe[:-1], pe + [pe[-1]], []) if bad else pe
        return dict(op=c, errors=len(pe), levels=levels), [ca, pe], lambda: reduction.pyramid_synthesis(Gs, ca[-1], pe)
    if c == "load":
        fmt = pick(rng, "graphml", "gml", "gexf") if not bad else pick(rng, "graphml", "txt", "xml", "GML")
        backend = "networkx" if rng.random() < .6 else pick(rng, "unknown", "Networkx", "igraph")
        exists = rng.random() < .7
        path = os.path.join(d, "x." + fmt)
        if exists:
            if fmt in ("graphml", "gml", "gexf"):
                graphs.Ring(4).save(path)
            else:
                with open(path, "w") as fh:
                    fh.write("nothing")
        given = {} if rng.random() < .6 else dict(fmt=fmt)
        if backend != "networkx" or rng.random() < .3:
            given["backend"] = backend
        return dict(op=c, fmt=fmt, backend=backend, exists=enc.flag(exists)), [], lambda: graphs.Graph.load(path, **given)
    raise KeyError(c)


def record_domain(ctx, rng):
    d = scratch()
    try:
        c, args, fn = domain(rng, d)

        def run():
            before = frozen(args), files(d)
            o = dict(exc="")
            try:
                fn()
            except Exception as e:
                o["exc"], o["msg"] = type(e).__name__, str(e)[:200]
            o["kept"] = enc.flag(before == (frozen(args), files(d)))
            return o
        ctx.rec("domain", dict(c=c), run)
    finally:
        shutil.rmtree(d)


def cases(ctx):
    res = []
    for m in models(ctx.tier):
        cfg = m["cfg"]
        with open(os.path.join(ctx.workdir, cfg + "T.json")) as fh:
            calls = json.load(fh)[0]
        with open(os.path.join(ctx.workdir, cfg + "H.json")) as fh:
            hists = json.load(fh)
        if "16" not in cfg:
            if not ctx.thorough:
                hists = hists[ctx.seed % 4::4]
            for i, h in enumerate(hists):
                def fn(ctx, h=h, calls=calls):
                    rng = ctx.rng()
                    start, hist = h[0]["start"], h[1:]
                    order = [calls[int(j)] for j in rng.permutation(len(calls))]
                    if not ctx.thorough:
                        order = order[:120]
                    tries(ctx, start, hist, order, rng)
                res.append(("%s-%d" % (cfg, i), fn))
        for k in range(60 if ctx.thorough else 8):
            def fn(ctx, hists=hists, calls=calls):
                for i in range(4):
                    rng = ctx.rng(i)
                    start = hists[int(rng.integers(len(hists)))][0]["start"]
                    seq = [calls[int(j)] for j in rng.integers(0, len(calls), 25)]
                    walk(ctx, start, seq, rng)
            res.append(("walk-%s-%d" % (cfg, k), fn))
    for k in range(400 if ctx.thorough else 40):
        def fn(ctx):
            for i in range(40):
                record_domain(ctx, ctx.rng(i))
        res.append(("domain-%d" % k, fn))
    return res
