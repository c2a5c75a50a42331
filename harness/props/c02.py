"""C02: all views of a graph agree with the adjacency matrix."""
import numpy as np

from .. import enc, gen

MODULE = "TraceC02"
use_model = gen.save_graphs


def models(tier):
    ms = ["GraphSpace_D3", "GraphSpace_U3", "GraphSpace_U4", "GraphSpace_D2"]
    if tier == "thorough":
        ms += ["GraphSpace_D3w", "GraphSpace_U5", "GraphSpace_D4"]
    return [dict(module="GraphSpace", cfg=m) for m in ms]


READS = ["n", "N", "ne", "Ne", "W", "A", "d", "dw", "edges", "directed", "weighted", "loops"]


UNITS = [2.**-30, 2.**-60, 2.**-200, 2.**30]     # exact units of weight


def view(G, order, unit=1.):
    o = {}
    for r in order:
        if r == "n": o["n"] = enc.integer(G.n_vertices)
        elif r == "N": o["N"] = enc.integer(G.N)
        elif r == "ne": o["ne"] = enc.integer(G.n_edges)
        elif r == "Ne": o["Ne"] = enc.integer(G.Ne)
        elif r in ("A", "d"): o[r] = enc.arr(getattr(G, r))
        elif r in ("W", "dw"): o[r] = enc.arr(getattr(G, r) / unit if unit != 1 else getattr(G, r))
        elif r == "edges":
            s, t, w = G.get_edge_list()
            o["src"], o["tgt"], o["wgt"] = enc.idx(s), enc.idx(t), enc.arr(w / unit if unit != 1 else w)
        elif r == "directed": o["directed"] = enc.flag(G.is_directed())
        elif r == "weighted": o["weighted"] = enc.flag(G.is_weighted())
        elif r == "loops": o["loops"] = enc.flag(G.has_loops())
    return o


def observe(ctx, W, adj, perturb=0, many=1, unit=1., **kw):
    from pygsp import graphs
    rng = ctx.rng("order")

    def run():
        G = graphs.Graph(adj, **kw)
        views = [view(G, rng.permutation(READS), unit)]
        for _ in range(many):
            gen.perturb(G, rng, perturb)
            views.append(view(G, rng.permutation(READS), unit))
        return {"views": views}
    ctx.rec("graph", {"W": enc.arr(W)}, run)


def cases(ctx):
    res = []

    def block(name, Ws, size=20):
        for b in range(0, len(Ws), size):
            def fn(ctx, part=Ws[b:b + size]):
                for W in part:
                    observe(ctx, W, W, perturb=3)
            res.append(("%s-%d" % (name, b), fn))
    for m in models(ctx.tier):
        block(m["cfg"], gen.model_graphs(ctx.workdir, m["cfg"]), 40)

    reps = 12 if ctx.thorough else 2
    dtypes = [float, np.float32, int, np.int32, np.uint8, np.int8, bool, np.uint64, np.int16]
    for rep in range(reps):
        for fmt in gen.FORMATS:
            for directed in (False, True):
                for dt in dtypes:
                    dtn = np.dtype(dt).name

                    def fn(ctx, fmt=fmt, directed=directed, dt=dt, rep=rep):
                        rng = ctx.rng()
                        n = int(rng.integers(1, 8))
                        kind = np.dtype(dt).kind
                        W = gen.random_weights(rng, n, directed, rng.random() < .4,
                                               rng.choice([.2, .5, .9]), unit=1 if kind in "iub" else 1 / 8,
                                               kmax=1 if kind == "b" else 16 if kind == "f" or rep % 2 else 100, isolated=rng.random() < .3,
                                               binary=rng.random() < .2)
                        V = W.astype(dt)
                        observe(ctx, W, gen.as_format(V, fmt), perturb=int(rng.integers(0, 6)),
                                lap_type=rng.choice(["combinatorial", "normalized"]))
                    res.append(("fmt-%s-%s-%s-%d" % (fmt, dtn, "d" if directed else "u", rep), fn))
    for rep in range(60 if ctx.thorough else 12):
        def fn(ctx, rep=rep):
            rng = ctx.rng()
            for directed in (False, True, True):
                W = gen.random_weights(rng, int(rng.integers(2, 9)), directed, rng.random() < .4, rng.choice([.2, .5, .9]))
                W[W == 1] = 2
                unit = UNITS[rep % 4]
                observe(ctx, W, gen.as_format(W * unit, rng.choice(gen.FORMATS)), perturb=1, unit=unit)
        res.append(("unit-%d" % rep, fn))
    for rep in range(40 if ctx.thorough else 8):
        def fn(ctx, rep=rep):
            # weights which almost, but don't, agree with each other, one, or zero
            rng = ctx.rng()
            n = int(rng.integers(2, 9))
            for base in (1, 0, 3, None):
                W = gen.random_weights(rng, n, base is None, rep % 3 == 0, rng.choice([.2, .5, .9]), binary=True)
                if base is None:        # almost undirected
                    W = np.maximum(W, W.T) * 2
                near = rng.integers(-4, 5, W.shape) if base else rng.integers(1, 5, W.shape)
                if rep % 4 == 1:
                    near[:] = 1         # all off by the same
                near = np.triu(near) + np.triu(near, 1).T if base is not None else near
                W = np.round(1e6 * W * (2 if base is None else base) + near * (W > 0)) / 1e6
                observe(ctx, W, gen.as_format(W, rng.choice(gen.FORMATS)), perturb=1)
        res.append(("close-%d" % rep, fn))
    for rep in range(40 if ctx.thorough else 8):
        for directed in (False, True):
            def fn(ctx, directed=directed, rep=rep):
                rng = ctx.rng()
                n = int(rng.integers(9, 45 if rep % 4 == 0 else 20))
                W = gen.random_weights(rng, n, directed, rep % 2 == 0, rng.choice([.05, .2, .6]),
                                       isolated=rep % 3 == 0, binary=rep % 5 == 0)
                observe(ctx, W, gen.as_format(W, rng.choice(gen.FORMATS)), perturb=6, many=2)
            res.append(("rand-%s-%d" % ("d" if directed else "u", rep), fn))
    for rep in range(10 if ctx.thorough else 1):
        for directed in (False, True):
            def fn(ctx, directed=directed, rep=rep):
                rng = ctx.rng()
                n = int(rng.integers(80, 140))
                W = gen.random_weights(rng, n, directed, rep % 2 == 0, .02, isolated=rep % 3 == 0)
                observe(ctx, W, gen.as_format(W, rng.choice(gen.FORMATS)), perturb=3, many=1)
            res.append(("large-%s-%d" % ("d" if directed else "u", rep), fn))
    return res
