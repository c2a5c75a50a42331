"""C05: the Fourier basis diagonalizes the Laplacian; the transform is unitary."""
import numpy as np

from .. import enc, gen, ref

MODULE = "TraceC05"
use_model = gen.save_graphs
TYPES = ["combinatorial", "normalized"]
FULL = ("fourier", "gft", "exact", "features", "levels", "classes")     # compute the basis


def models(tier):
    ms = ["GraphSpace_D3", "GraphSpace_U3", "GraphSpace_U4", "GraphSpace_D2"]
    if tier == "thorough":
        ms += ["GraphSpace_D3w", "GraphSpace_U5"]
    return [dict(module="GraphSpace", cfg=m) for m in ms]


def look(G, rng, unit=1.):
    u = unit if G.lap_type == "combinatorial" else 1.
    order = rng.permutation(["e", "U"])
    o = {k: enc.arr(getattr(G, k) / (u if k == "e" else 1)) for k in order}
    o["coherence"] = enc.num(G.coherence) if len(G.e) == G.N else 0
    return o


def basis(ctx, W, adj, reqs, lt, unit=1.):
    from pygsp import graphs
    rng = ctx.rng("basis", len(ctx.records))

    def run():
        G = graphs.Graph(adj, lap_type=lt)
        gen.perturb(G, rng, int(rng.integers(0, 3)), exclude=FULL)
        looks = []
        for k in reqs:
            G.compute_fourier_basis() if k == 0 else G.compute_fourier_basis(k)
            looks.append(look(G, rng, unit))
        return {"looks": looks}
    f32 = getattr(adj, "dtype", None) == np.float32
    ctx.rec("basis", dict(W=enc.arr(W), lt=lt, reqs=reqs, ref=ref.certificate(W, lt),
                          tol=tolerance(W, f32)), run)


def tolerance(W, f32=False):
    return int(60 + np.abs(W).sum(0).max() * (40 if f32 else 2))


def transform(ctx, W, adj, lt):
    from pygsp import graphs
    rng = ctx.rng("transform", len(ctx.records))
    n = len(W)
    shape = [(n,), (n, 1), (n, 2), (n, 3), (n, n), (n, 1, 1), (n, 2, 3), (n, 1, 4), (n, 3, 1)][int(rng.integers(9))]
    x = rng.integers(-16, 17, shape) / 4
    form = int(rng.integers(4))
    s = x if form == 0 else x.tolist() if form == 1 else np.asfortranarray(x) if form == 2 else x
    if form == 3 and np.all(x == np.rint(x)):
        s = x.astype(int)

    def run():
        G = graphs.Graph(adj, lap_type=lt)
        if rng.random() < .5:
            G.compute_fourier_basis()
        y = G.gft(s)
        return dict(y=enc.arr(y), z=enc.arr(G.igft(y)), w=enc.arr(G.igft(s)), U=enc.arr(G.U))
    ctx.rec("transform", dict(W=enc.arr(W), lt=lt, x=enc.arr(x), ref=ref.certificate(W, lt),
                              tol=tolerance(W)), run)


def cases(ctx):
    res = []
    for m in models(ctx.tier):
        Ws = gen.model_graphs(ctx.workdir, m["cfg"])
        for b in range(0, len(Ws), 40):
            def fn(ctx, part=Ws[b:b + 40]):
                for i, W in enumerate(part):
                    basis(ctx, W, W, [0], TYPES[i % 2])
                    transform(ctx, W, W, TYPES[(i + 1) % 2])
            res.append(("%s-%d" % (m["cfg"], b), fn))
    for rep in range(150 if ctx.thorough else 24):
        for directed in (False, True):
            for lt in TYPES:
                def fn(ctx, directed=directed, rep=rep, lt=lt):
                    rng = ctx.rng()
                    n = int(rng.integers(2, 22 if rep % 8 == 0 else 10))
                    W = gen.random_weights(rng, n, directed, rep % 2 == 0, rng.choice([.15, .4, .8]),
                                           isolated=rep % 3 == 0, binary=rep % 5 == 0)
                    dt = [float, float, np.float32][rep % 3]
                    adj = gen.as_format(W.astype(dt), rng.choice(["dense", "csr", "csc", "coo", "lil"]))
                    basis(ctx, W, adj, [0], lt)
                    transform(ctx, W, W, lt)
                    unit = [2.**-30, 2.**-60, 2.**24][rep % 3]
                    basis(ctx, W, W * unit, [0], lt, unit)
                    transform(ctx, W, W * unit, lt)
                res.append(("rand-%s-%s-%d" % ("d" if directed else "u", lt[:4], rep), fn))
    for rep in range(10 if ctx.thorough else 2):
        def fn(ctx, rep=rep):
            rng = ctx.rng()
            W = gen.random_weights(rng, int(rng.integers(36, 50)), rep % 2 == 1, False, .08)
            basis(ctx, W, W, [0], TYPES[rep // 2 % 2])
            transform(ctx, W, W, TYPES[1 - rep // 2 % 2])
        res.append(("large-%d" % rep, fn))
    for rep in range(150 if ctx.thorough else 30):
        for lt in TYPES:
            def fn(ctx, rep=rep, lt=lt):
                # sequences of requests of partial bases, where these are determined
                rng = ctx.rng()
                while True:
                    n = int(rng.integers(3, 12)) if rep % 10 else int(rng.integers(24, 34))
                    W = gen.connected_weights(rng, n, density=rng.choice([.1, .4, .8]), loops=rep % 3 == 0)
                    most = n if rep % 10 else 5
                    if np.diff(np.linalg.eigvalsh(ref.laplacian(W, lt)))[:most].min() > .03:
                        break
                reqs = [int(k) for k in rng.integers(1, most + 1, int(rng.integers(1, 6)))]
                reqs = [0 if k == n and rng.random() < .5 else k for k in reqs]
                basis(ctx, W, W, reqs, lt)
            res.append(("partial-%s-%d" % (lt[:4], rep), fn))
    return res
