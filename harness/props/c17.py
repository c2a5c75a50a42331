"""C17: resistance distances and sparsification."""
import json
import os

import numpy as np
from scipy import sparse

from .. import enc, gen, ref

MODULE = "TraceC17"


def models(tier):
    return [dict(module="SparsifyMC", cfg=c)
            for c in ["SparsifyMC", "SparsifyMCw"] + (["SparsifyMC4"] if tier == "thorough" else [])]


def use_model(m, res, workdir):
    xs = sorted(set(p[2:] for p in res["prints"] if p.startswith("K ")))
    with open(os.path.join(workdir, "%s.json" % m["cfg"]), "w") as fh:
        fh.write("[" + ",".join(xs) + "]")


def pseudo(W):
    return enc.arr(np.linalg.pinv(ref.laplacian(W, "combinatorial"), rcond=1e-10))


FORMS = [sparse.csr_matrix, sparse.csc_matrix, sparse.lil_matrix, sparse.coo_matrix]


def source(rng, W, dt=float):
    """The graph or its Laplacian, its weights scaled by a power of two."""
    from pygsp import graphs
    scale = 2. ** int(rng.choice([0, 0, 0, -8, 6, 12]))
    loops = rng.random() < .2
    V = (W * scale).astype(dt)
    if rng.random() < .6:
        if loops:
            V = V + np.diag(rng.integers(0, 3, len(V))).astype(dt) * dt(scale)
        G = graphs.Graph(gen.as_format(V, rng.choice(["dense", "csr", "lil", "coo"])))
        gen.perturb(G, rng, int(rng.integers(0, 3)), exclude=("layout", "lap"))
        return G, "graph", scale
    return FORMS[int(rng.integers(4))](np.diag(V.sum(0)) - V), "laplacian", scale


def resistance(ctx, W, rng):
    from pygsp import utils
    W = np.asarray(W, dtype=float)
    dt = rng.choice([float, float, np.float32])
    M, form, scale = source(rng, W, dt)
    if form == "laplacian" and rng.random() < .3 and np.all(W == W.astype(int)) and scale >= 1:
        M = M.astype(rng.choice([np.int64, np.int32]))

    def run():
        R = utils.resistance_distance(M)
        return dict(R=enc.arr(R * scale))
    ctx.rec("resistance", dict(W=enc.arr(W), P=pseudo(W)), run)


def tree(ctx, rng):
    """Resistances in series, whose values span orders of magnitude."""
    from pygsp import graphs, utils
    n = int(rng.integers(2, 14))
    parent = [0] + [int(rng.integers(max(0, i - int(rng.integers(1, 5))), i)) for i in range(1, n)]
    w = rng.integers(1, 17, n) * rng.choice([.25, 6], n)
    w[rng.integers(1, n, int(rng.integers(0, 3)))] = rng.integers(2, 9) / 1000
    W = np.zeros((n, n))
    for i in range(1, n):
        W[i, parent[i]] = W[parent[i], i] = w[i]
    G = graphs.Graph(W)
    M = G if rng.random() < .5 else G.L
    ctx.rec("tree", dict(W=enc.arr(W), parent=[i + 1 for i in parent]), lambda: dict(R=enc.arr(utils.resistance_distance(M))))


def sparsify(ctx, W, rng):
    from pygsp import graphs, reduction
    W = np.asarray(W, dtype=float)
    n = len(W)
    M, form, scale = source(rng, W)
    lo = 1 / np.sqrt(n)
    eps = lo if rng.random() < .3 else float(np.round(rng.uniform(lo, .995), 3))
    eps = max(eps, lo)
    seed = int(rng.integers(0, 1000)) if rng.random() < .9 else 0
    rounds = int(rng.choice([10, 10, 10, 1, 2]))
    kw = dict(seed=seed)
    if rounds != 10 or rng.random() < .3:
        kw["maxiter"] = rounds

    def run():
        A = reduction.graph_sparsify(M, eps, **kw)
        np.random.random(3)
        B = reduction.graph_sparsify(M, eps, **kw)
        if isinstance(A, graphs.Graph):
            V, L, V2 = A.W / scale, A.L / scale, B.W / scale
            t = "graph"
        elif sparse.issparse(A):
            L, V2 = A.tocsr() / scale, sparse.diags(B.diagonal()) - B
            V, V2 = sparse.diags(L.diagonal()) - L, V2 / scale
            t = "laplacian"
        else:
            t = "?"
        V, V2 = V.toarray(), V2.toarray()
        return dict(W=enc.arr(V), L=enc.arr(L), type=t, nnz=int(np.count_nonzero(V)), again=enc.flag(bool(np.array_equal(V, V2))))
    ctx.rec("sparsify", dict(W=enc.arr(W), P=pseudo(W), eps=enc.num(eps), form=form, rounds=rounds), run)


def pooled(ctx, W, rng, runs):
    from pygsp import graphs, reduction
    W = np.asarray(W, dtype=float)
    eps = max(float(np.round(rng.uniform(.5, .9), 3)), 1 / np.sqrt(len(W)))
    seed = int(rng.integers(0, 10**6))
    ctx.rec("pooled", dict(W=enc.arr(W), P=pseudo(W), eps=enc.num(eps), runs=runs),
            lambda: dict(mean=enc.arr(np.mean([reduction.graph_sparsify(graphs.Graph(W), eps, maxiter=1, seed=seed + i).W.toarray()
                                               for i in range(runs)], axis=0))), timeout=120)


def refusals(ctx):
    from pygsp import graphs, reduction, utils
    for i in range(20):
        rng = ctx.rng(i)
        n = int(rng.integers(2, 12))
        W = gen.connected_weights(rng, n)
        M, form, _ = source(rng, W)
        for eps, why in [(1, "precision of one"), (1.5, "precision above one"), (.98 / np.sqrt(n), "precision below the least"), (0, "null precision"),
                         (-.5, "negative precision")]:
            ctx.rec("refuse", dict(why=why), lambda eps=eps: reduction.graph_sparsify(M, eps, seed=1) and {})
        G = graphs.Graph(W, lap_type="normalized")
        ctx.rec("refuse", dict(why="resistances need a combinatorial Laplacian"), lambda: utils.resistance_distance(G) and {})


def cases(ctx):
    res = []
    mult = 15 if ctx.thorough else 1
    Ws = []
    for m in models(ctx.tier):
        with open(os.path.join(ctx.workdir, "%s.json" % m["cfg"])) as fh:
            Ws += [np.array(w) / enc.SCALE for w in json.load(fh)]
    for b in range(0, len(Ws), 60):
        def fn(ctx, part=Ws[b:b + 60]):
            for i, W in enumerate(part):
                rng = ctx.rng(i)
                resistance(ctx, W, rng)
                sparsify(ctx, W, rng)
        res.append(("small-%d" % b, fn))
    for rep in range(30 * mult):
        def fn(ctx):
            for i in range(8):
                rng = ctx.rng(i)
                n = int(rng.integers(2, 13))
                W = gen.connected_weights(rng, n, density=rng.choice([0, .2, .5, .9]), binary=rng.random() < .3)
                resistance(ctx, W, rng)
                sparsify(ctx, W, rng)
            V = np.triu(gen.connected_weights(rng, 12, density=.05) > 0) * 2. ** rng.integers(-6, 2, (12, 12))
            resistance(ctx, V + V.T, rng)
        res.append(("rand-%d" % rep, fn))
    for rep in range(6 * mult):
        # Strong clusters joined by weak edges, which are the ones to keep.
        def fn(ctx):
            for i in range(5):
                rng = ctx.rng(i)
                n = int(rng.integers(6, 8))
                a = int(rng.integers(1, n - 2))
                W = np.zeros((n, n))
                for part in (slice(0, a), slice(a, n)):
                    W[part, part] = gen.connected_weights(rng, len(W[part, part]), density=.7, binary=True) * rng.integers(1, 3) / 2
                W[a - 1, a] = W[a, a - 1] = .003 * rng.integers(1, 4)
                if rng.random() < .5:
                    W[0, n - 1] = W[n - 1, 0] = .003 * rng.integers(1, 4)
                perm = rng.permutation(n)
                W = W[perm][:, perm]
                resistance(ctx, W, rng)
                sparsify(ctx, W, rng)
                tree(ctx, rng)
        res.append(("contrast-%d" % rep, fn))
    for rep in range(8 * mult):
        def fn(ctx):
            rng = ctx.rng(0)
            W = gen.connected_weights(rng, int(rng.integers(3, 8)), density=rng.choice([.3, .6, .9]))
            pooled(ctx, W, rng, 200)
        res.append(("pooled-%d" % rep, fn))
    res.append(("refusals", refusals))
    return res
