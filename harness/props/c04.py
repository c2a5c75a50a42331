"""C04: differential operator, gradient, divergence, Dirichlet energy."""
import numpy as np

from .. import enc, gen

MODULE = "TraceC04"
use_model = gen.save_graphs
TYPES = ["combinatorial", "normalized"]


def models(tier):
    ms = ["GraphSpace_D3", "GraphSpace_U3", "GraphSpace_U4", "GraphSpace_D2"]
    if tier == "thorough":
        ms += ["GraphSpace_D3w", "GraphSpace_U5"]
    return [dict(module="GraphSpace", cfg=m) for m in ms]


def signal(rng, n, kind):
    if kind == "float":
        return rng.integers(-16, 17, n) / 8
    if kind == "int":
        return rng.integers(-3, 4, n)
    if kind == "uint8":
        return rng.integers(0, 6, n).astype(np.uint8)
    if kind == "bool":
        return rng.random(n) < .5
    if kind == "const":
        return np.full(n, 1.5)
    if kind == "list":
        return [float(v) for v in rng.integers(-3, 4, n)]
    if kind == "2d":
        return rng.integers(-16, 17, (n, int(rng.integers(1, 4)))) / 8
    if kind == "2dsq":
        return rng.integers(-16, 17, (n, n)) / 8
    raise ValueError


KINDS = ["float", "int", "uint8", "bool", "const", "list", "2d", "2dsq"]


def look(G, rng, nsig=1, kinds=KINDS, unit=1.):
    u = unit if G.lap_type == "combinatorial" else 1.
    r = np.sqrt(u)
    n = G.n_vertices
    order = rng.permutation(3)
    D = None
    sigs = []
    o = {}
    for step in order:
        if step == 0:
            if rng.random() < .5:
                G.compute_differential_operator()
            D = G.D
            o["D"] = enc.arr(D / r)
        elif step == 1:
            s, t, w = G.get_edge_list()
            o["src"], o["tgt"], o["wgt"] = enc.idx(s), enc.idx(t), enc.arr(w / unit if unit != 1 else w)
        else:
            for _ in range(nsig):
                kind = kinds[int(rng.integers(len(kinds)))]
                if kind == "2dsq" and n > 6:
                    kind = "2d"
                x = signal(rng, n, kind)
                q = {"x": enc.arr(x)}
                m = G.n_edges
                y = rng.integers(-16, 17, (m,) + np.shape(x)[1:]) / 8
                q["y"] = enc.arr(y)
                q["grad"] = enc.arr(G.grad(x) / r)
                q["div"] = enc.arr(G.div(y) / r)
                q["energy"] = enc.arr(G.dirichlet_energy(x) / u if u != 1 else G.dirichlet_energy(x))
                sigs.append(q)
    o["sigs"] = sigs
    o["lt"] = str(G.lap_type)
    return o


def observe(ctx, W, adj, steps=1, perturb=1, nsig=1, kinds=KINDS, unit=1.):
    from pygsp import graphs
    rng = ctx.rng("steps", len(ctx.records))
    seq = [TYPES[i] for i in rng.integers(0, 2, steps + 1)]
    if steps == 1:
        seq[1] = TYPES[1 - TYPES.index(seq[0])]

    def run():
        looks, G = [], None
        for want in seq:
            if G is None:
                G = graphs.Graph(adj, lap_type=want)
            else:
                G.compute_laplacian(want)
            if perturb:
                gen.perturb(G, rng, int(rng.integers(0, 2 * perturb + 1)))
            looks.append(look(G, rng, nsig, kinds, unit))
        return {"looks": looks}
    ctx.rec("difference", {"W": enc.arr(W)}, run)


def cases(ctx):
    res = []
    for m in models(ctx.tier):
        Ws = gen.model_graphs(ctx.workdir, m["cfg"])
        for b in range(0, len(Ws), 40):
            def fn(ctx, part=Ws[b:b + 40]):
                for W in part:
                    observe(ctx, W, W, kinds=["float", "int", "list", "2d"], perturb=0)
            res.append(("%s-%d" % (m["cfg"], b), fn))
    dtypes = [float, np.float32, int, np.uint8, np.int8, np.int16, bool]
    for rep in range(20 if ctx.thorough else 4):
        for dt in dtypes:
            for directed in (False, True):
                def fn(ctx, dt=dt, directed=directed, rep=rep):
                    rng = ctx.rng()
                    kind = np.dtype(dt).kind
                    W = gen.random_weights(
                        rng, int(rng.integers(2, 7)), directed, rng.random() < .4,
                        rng.choice([.2, .5, .9]), unit=1 if kind in "iub" else 1 / 8,
                        kmax=1 if kind == "b" else 9, isolated=rng.random() < .3)
                    observe(ctx, W, gen.as_format(W.astype(dt), rng.choice(gen.FORMATS)),
                            steps=2, nsig=3)
                res.append(("dt-%s-%s-%d" % (np.dtype(dt).name, "d" if directed else "u", rep), fn))
    for rep in range(60 if ctx.thorough else 12):
        def fn(ctx, rep=rep):
            rng = ctx.rng()
            for directed in (False, True):
                W = gen.random_weights(rng, int(rng.integers(2, 7)), directed, rng.random() < .4, rng.choice([.2, .5, .9]))
                unit = [4.**-15, 4.**-30, 4.**12][rep % 3]
                observe(ctx, W, gen.as_format(W * unit, rng.choice(gen.FORMATS)), unit=unit, kinds=["float", "2d", "int"])
        res.append(("unit-%d" % rep, fn))
    for rep in range(40 if ctx.thorough else 10):
        for directed in (False, True):
            def fn(ctx, directed=directed, rep=rep):
                rng = ctx.rng()
                n = int(rng.integers(8, 24 if rep % 4 == 0 else 14))
                W = gen.random_weights(rng, n, directed, rep % 2 == 0, rng.choice([.1, .3]),
                                       isolated=rep % 3 == 0, binary=rep % 5 == 0)
                observe(ctx, W, gen.as_format(W, rng.choice(gen.FORMATS)), steps=2, nsig=2)
            res.append(("rand-%s-%d" % ("d" if directed else "u", rep), fn))
    for rep in range(10 if ctx.thorough else 1):
        for directed in (False, True):
            def fn(ctx, directed=directed, rep=rep):
                rng = ctx.rng()
                n = int(rng.integers(40, 60))
                W = gen.random_weights(rng, n, directed, rep % 2 == 0, .03, isolated=rep % 3 == 0)
                observe(ctx, W, gen.as_format(W, rng.choice(gen.FORMATS)), steps=1, nsig=1)
            res.append(("large-%s-%d" % ("d" if directed else "u", rep), fn))
    return res
