"""C24: graph features."""
import numpy as np

from .. import enc, gen, kern, ref

MODULE = "TraceC24"
TYPES = ["combinatorial", "normalized"]
use_model = gen.save_graphs


def models(tier):
    return [dict(module="GraphSpace", cfg=m) for m in ["GraphSpace_U4"] + (["GraphSpace_U5"] if tier == "thorough" else [])]


def average(ctx, W, adj, rng):
    from pygsp import features, graphs

    def run():
        G = graphs.Graph(adj)
        if rng.random() < .3:
            gen.perturb(G, rng, 3)
        return dict(y=enc.arr(np.ravel(features.compute_avg_adj_deg(G))))
    ctx.rec("average degree", dict(W=enc.arr(W)), run)


def graph(rng, n, distinct=False):
    from pygsp import graphs
    lt = TYPES[int(rng.integers(2))]
    while True:
        W = gen.connected_weights(rng, n, density=rng.choice([.1, .5, .9]), kmax=10)
        e = np.linalg.eigvalsh(ref.laplacian(W, lt))
        if e[-1] < 12:
            break
    G = graphs.Graph(W, lap_type=lt)
    if rng.random() < .3:
        gen.perturb(G, rng, 3)
    G.compute_fourier_basis() if rng.random() < .7 else G.estimate_lmax("bounds")
    return W, lt, e, G


def tig(ctx, rng, norm):
    from pygsp import features, filters
    n, nf = int(rng.integers(2, 8 if rng.random() < .9 else 16)), int(rng.integers(1, 5))
    W, lt, e, G = graph(rng, n)
    lm = kern.r6(2 if lt == TYPES[1] else ref.bounds(W))
    fs, recs, order = kern.bank(rng, nf, lm)
    g = filters.Filter(G, fs)
    i = int(rng.integers(nf)) if rng.random() < .3 else -1
    kw = {} if i < 0 else dict(i=i)
    if rng.random() < .6:
        kw["method"] = "exact"
    elif order < 25:
        kw["order"] = max(1, order) + int(rng.integers(3))

    def run():
        if rng.random() < .3:       # of another filter, or of another of the same bank
            h = filters.Filter(G, [lambda x: x, lambda x: x + 1][:int(rng.integers(1, 3))])
            features.compute_norm_tig(h if rng.random() < .5 else g, i=0, method="exact")
        f = features.compute_norm_tig if norm else features.compute_tig
        y = f(g, **kw)
        single = not isinstance(y, (list, tuple))
        return dict(single="T" if single else "F", ys=[enc.arr(v) for v in ([y] if single else y)])
    ctx.rec("norm tig" if norm else "tig",
            dict(W=enc.arr(W), lt=lt, ref=ref.certificate(W, lt), kernels=recs, lmax=enc.num(lm), i=i, tol=200), run)


def spectrogram(ctx, rng):
    from pygsp import features
    W, lt, e, G = graph(rng, int(rng.integers(2, 7)))
    # exact filtering refines an estimated largest eigenvalue on the way
    G.compute_fourier_basis()
    M = int(rng.integers(2, 12)) if rng.random() < .9 else int(rng.integers(12, 200))
    kw = dict(M=M)
    if rng.random() < .04:
        M, kw = 100, {}
    rec = dict(name="default")
    lm = G.lmax
    if rng.random() < .5:
        f, rec, deg = kern.poly(rng, int(rng.integers(0, 4)), 2 * lm)
        kw["atom"] = f
        if rng.random() < .5:
            kw["order"] = 6
        else:
            kw["method"] = "exact"
    else:
        kw["method"] = "exact"

    def run():
        if rng.random() < .4:       # another one before
            M0 = M if rng.random() < .5 else int(rng.integers(2, 12))
            features.compute_spectrogram(G, M=M0, atom=(lambda x: x + 1) if rng.random() < .5 else None, method="exact")
        y = features.compute_spectrogram(G, **kw)
        return dict(y=enc.arr(y), kept=enc.arr(G.spectr))
    ctx.rec("spectrogram", dict(W=enc.arr(W), lt=lt, ref=ref.certificate(W, lt), lmax=enc.num(lm), M=M, atom=rec,
                                tol=400 + 8 * M), run)


def cases(ctx):
    res = []
    for m in models(ctx.tier):
        Ws = gen.model_graphs(ctx.workdir, m["cfg"])
        for b in range(0, len(Ws), 60):
            def fn(ctx, part=Ws[b:b + 60]):
                rng = ctx.rng()
                for W in part:
                    if not np.diag(W).any() and W.any():
                        average(ctx, W, W, rng)
            res.append(("%s-%d" % (m["cfg"], b), fn))
    for rep in range(1500 if ctx.thorough else 120):
        def fn(ctx, rep=rep):
            rng = ctx.rng()
            n = int(rng.integers(2, 25 if rep % 4 == 0 else 10))
            W = gen.random_weights(rng, n, density=rng.choice([.1, .3, .6]), isolated=rep % 3 == 0)
            average(ctx, W, gen.as_format(W, rng.choice(gen.FORMATS)), rng)
            if rep % 12 == 5:       # degrees, and sums of degrees, larger than small integers
                n = int(rng.integers(20, 60))
                W = gen.random_weights(rng, n, density=.95)
                average(ctx, W, gen.as_format(W, rng.choice(gen.FORMATS)), rng)
                W = np.zeros((270, 270))
                W[0, 1:] = W[1:, 0] = 1
                if rep == 5:
                    average(ctx, W, W, rng)
            tig(ctx, rng, False)
            tig(ctx, rng, True)
            spectrogram(ctx, rng)
        res.append(("rand-%d" % rep, fn))
    return res
