"""C06: estimates of the largest eigenvalue."""
import numpy as np

from .. import enc, gen, ref

MODULE = "TraceC06"
use_model = gen.save_graphs
TYPES = ["combinatorial", "normalized"]


def models(tier):
    ms = ["GraphSpace_D3", "GraphSpace_U3", "GraphSpace_U4", "GraphSpace_D2"]
    if tier == "thorough":
        ms += ["GraphSpace_D3w", "GraphSpace_U5"]
    return [dict(module="GraphSpace", cfg=m) for m in ms]


def has_edge(W):
    return (W - np.diag(np.diag(W))).any()


def estimates(ctx, W, adj=None, unit=1.0, order=None):
    """All estimates on one graph, in some order, with either Laplacian. The
    graph's weights are unit * W, and estimates are recorded in that unit."""
    from pygsp import graphs
    if not has_edge(W):
        return
    rng = ctx.rng("est", len(ctx.records))
    adj = unit * W if adj is None else adj

    def run():
        ests = []
        G = None
        for lt in rng.permutation(TYPES):
            for method in order or rng.permutation(["lanczos", "bounds", "fourier", "read"]):
                u = unit if lt == "combinatorial" else 1.0
                q = dict(method=str(method), lt=str(lt), exc="", lmax=0)
                ests.append(q)
                try:
                    if G is None or method == "read" or rng.random() < .3:
                        G = graphs.Graph(adj, lap_type=str(lt))
                    elif G.lap_type != lt:
                        G.compute_laplacian(str(lt))
                    if method == "fourier":
                        if G._U is not None:
                            G = graphs.Graph(adj, lap_type=str(lt))
                        G.compute_fourier_basis()
                    elif method != "read":
                        G.estimate_lmax(str(method))
                    q["lmax"] = enc.num(G.lmax / u)
                except Exception as e:
                    q["exc"] = type(e).__name__
                    G = None
        return {"ests": ests}
    ctx.rec("estimates", dict(W=enc.arr(W), ref={t: ref.certificate(W, t) for t in TYPES}), run)


def special(rng):
    """Graphs for which different bounds are the tightest, or attained."""
    n = int(rng.integers(2, 14))
    c = int(rng.integers(7))
    W = np.zeros((n, n))
    if c == 0:
        W[:] = 1 - np.eye(n)
    elif c == 1:
        W[0, 1:] = W[1:, 0] = 1
    elif c == 2:
        h = int(rng.integers(1, n))
        W[:h, h:] = 1
        W = W + W.T
    elif c == 3:
        for i in range(n):
            W[i, (i + 1) % n] = W[(i + 1) % n, i] = 1
        np.fill_diagonal(W, 0)
    elif c == 4:
        for i in range(n - 1):
            W[i, i + 1] = W[i + 1, i] = rng.integers(1, 9) / 4
    elif c == 5:
        # nearly complete with one heavy vertex
        W[:] = 1 - np.eye(n)
        W[0, 1:] = W[1:, 0] = 1.5
    else:
        h = int(rng.integers(1, n))
        W[:h, :h] = 1
        W[h:, h:] = .5
        np.fill_diagonal(W, 0)
    return W * float(rng.choice([1, .5, 2])) if n > 1 else W


def cases(ctx):
    res = []
    for m in models(ctx.tier):
        Ws = gen.model_graphs(ctx.workdir, m["cfg"])
        for b in range(0, len(Ws), 40):
            def fn(ctx, part=Ws[b:b + 40]):
                for W in part:
                    estimates(ctx, W)
            res.append(("%s-%d" % (m["cfg"], b), fn))
    for rep in range(200 if ctx.thorough else 40):
        def fn(ctx, rep=rep):
            rng = ctx.rng()
            W = special(rng)
            estimates(ctx, W, unit=float(rng.choice([1, 1, 1e-3, 1e3, 1e6])))
        res.append(("special-%d" % rep, fn))
        for directed in (False, True):
            def fn(ctx, directed=directed, rep=rep):
                rng = ctx.rng()
                n = int(rng.integers(2, 30 if rep % 8 == 0 else 10))
                W = gen.random_weights(rng, n, directed, rep % 2 == 0, rng.choice([.15, .4, .8]) if n < 12 else .2,
                                       isolated=rep % 3 == 0, binary=rep % 5 == 0)
                dt = [float, float, np.float32][rep % 3]
                estimates(ctx, W, gen.as_format(W.astype(dt), rng.choice(["dense", "csr", "csc", "coo", "lil"])))
            res.append(("rand-%s-%d" % ("d" if directed else "u", rep), fn))
        if rep % 2 == 0:
            def fn(ctx, rep=rep):
                rng = ctx.rng()
                n = int(rng.integers(2, 9))
                W = gen.random_weights(rng, n, False, False, .6, unit=1, kmax=120)
                estimates(ctx, W / 64, W.astype(rng.choice(["uint8", "int8", "int16", "int64"])), unit=64.)
                W = gen.random_weights(rng, n, True, False, .6, unit=1, kmax=1)
                estimates(ctx, W, W.astype(bool))
            res.append(("int-%d" % rep, fn))
    return res
