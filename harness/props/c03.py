"""C03: Laplacians match their definition."""
import numpy as np

from .. import enc, gen

MODULE = "TraceC03"
use_model = gen.save_graphs
TYPES = ["combinatorial", "normalized"]


def models(tier):
    ms = ["GraphSpace_D3", "GraphSpace_U3", "GraphSpace_U4", "GraphSpace_D2"]
    if tier == "thorough":
        ms += ["GraphSpace_D3w", "GraphSpace_U5"]
    return [dict(module="GraphSpace", cfg=m) for m in ms]


def observe(ctx, W, adj, steps=2, perturb=1, unit=1.):
    from pygsp import graphs
    rng = ctx.rng("steps", len(ctx.records))
    seq = [TYPES[i] for i in rng.integers(0, 2, steps + 1)]
    explicit = rng.random() < .8

    def run():
        looks = []
        G = None
        for want in seq:
            if G is None:
                if explicit:
                    G = graphs.Graph(adj, lap_type=want)
                else:
                    G, want = graphs.Graph(adj), "combinatorial"
            elif want == "combinatorial" and rng.random() < .3:
                G.compute_laplacian()
            else:
                G.compute_laplacian(want)
            if perturb:
                gen.perturb(G, rng, int(rng.integers(0, 2 * perturb + 1)))
            u = unit if want == "combinatorial" else 1.
            looks.append(dict(want=want, lt=str(G.lap_type), L=enc.arr(G.L / u if u != 1 else G.L),
                              fresh=enc.arr(graphs.Graph(W, lap_type=want).L)))
        return {"looks": looks}
    ctx.rec("laplacian", {"W": enc.arr(W)}, run)


def cases(ctx):
    res = []
    for m in models(ctx.tier):
        Ws = gen.model_graphs(ctx.workdir, m["cfg"])
        for b in range(0, len(Ws), 40):
            def fn(ctx, part=Ws[b:b + 40]):
                for W in part:
                    observe(ctx, W, W)
            res.append(("%s-%d" % (m["cfg"], b), fn))
    dtypes = [float, np.float32, int, np.uint8, np.int8, np.int16, bool]
    for rep in range(20 if ctx.thorough else 4):
        for dt in dtypes:
            for directed in (False, True):
                def fn(ctx, dt=dt, directed=directed, rep=rep):
                    rng = ctx.rng()
                    kind = np.dtype(dt).kind
                    W = gen.random_weights(
                        rng, int(rng.integers(1, 8)), directed, rng.random() < .4,
                        rng.choice([.2, .5, .9]), unit=1 if kind in "iub" else 1 / 8,
                        kmax=1 if kind == "b" else 16 if kind == "f" or rep % 2 else 100,
                        isolated=rng.random() < .3)
                    observe(ctx, W, gen.as_format(W.astype(dt), rng.choice(gen.FORMATS)), steps=3)
                res.append(("dt-%s-%s-%d" % (np.dtype(dt).name, "d" if directed else "u", rep), fn))
    for rep in range(60 if ctx.thorough else 12):
        def fn(ctx, rep=rep):
            rng = ctx.rng()
            for directed in (False, True):
                W = gen.random_weights(rng, int(rng.integers(2, 9)), directed, rng.random() < .4, rng.choice([.2, .5, .9]))
                unit = [2.**-30, 2.**-60, 2.**30][rep % 3]
                observe(ctx, W, gen.as_format(W * unit, rng.choice(gen.FORMATS)), unit=unit)
        res.append(("unit-%d" % rep, fn))
    for rep in range(60 if ctx.thorough else 12):
        for directed in (False, True):
            def fn(ctx, directed=directed, rep=rep):
                rng = ctx.rng()
                n = int(rng.integers(8, 40 if rep % 4 == 0 else 16))
                W = gen.random_weights(rng, n, directed, rep % 2 == 0, rng.choice([.05, .2, .6]),
                                       isolated=rep % 3 == 0, binary=rep % 5 == 0)
                observe(ctx, W, gen.as_format(W, rng.choice(gen.FORMATS)), steps=3)
            res.append(("rand-%s-%d" % ("d" if directed else "u", rep), fn))
    for rep in range(10 if ctx.thorough else 1):
        for directed in (False, True):
            def fn(ctx, directed=directed, rep=rep):
                rng = ctx.rng()
                n = int(rng.integers(80, 140))
                W = gen.random_weights(rng, n, directed, rep % 2 == 0, .02, isolated=rep % 3 == 0)
                observe(ctx, W, gen.as_format(W, rng.choice(gen.FORMATS)), steps=2)
            res.append(("large-%s-%d" % ("d" if directed else "u", rep), fn))
    return res
