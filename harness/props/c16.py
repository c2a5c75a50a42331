"""C16: Kron reduction, interpolation, multiresolution, pyramid transform."""
import json
import os

import numpy as np
from scipy import sparse

from .. import enc, gen, ref
from ..core import Skip

MODULE = "TraceC16"
NONE = {"s": [-1], "v": []}


def models(tier):
    return [dict(module="KronMC", cfg=c) for c in (["KronMC", "KronMC5"] if tier == "thorough" else ["KronMC"])]


def use_model(m, res, workdir):
    xs = sorted(set(p[2:] for p in res["prints"] if p.startswith("K ")))
    with open(os.path.join(workdir, "kron-%s.json" % m["cfg"]), "w") as fh:
        fh.write("[" + ",".join(xs) + "]")


def coordinates(rng, n):
    c = int(rng.integers(4))
    return None if c == 0 else rng.integers(-20, 20, (n, 3) if c == 3 else (n, 2) if c == 2 else n) / 4


def kept(rng, keep):
    c = int(rng.integers(3))
    return keep if c == 0 else [int(i) for i in keep] if c == 1 else np.asarray(keep, dtype=np.int32)


def kron(ctx, W, keep, rng, adj=None):
    from pygsp import graphs, reduction
    keep = np.asarray(keep)
    X = coordinates(rng, len(W))

    def run():
        G = graphs.Graph(W if adj is None else adj, coords=X)
        gen.perturb(G, rng, int(rng.integers(0, 3)), exclude=("layout", "lap"))
        K = reduction.kron_reduction(G, kept(rng, keep))
        return dict(W=enc.arr(K.W), L=enc.arr(K.L), directed=enc.flag(K.is_directed()), connected=enc.flag(K.is_connected()),
                    lt=str(K.lap_type), coords=enc.arr(K.coords) if hasattr(K, "coords") else NONE)
    ctx.rec("kron", dict(W=enc.arr(W), keep=enc.idx(keep), coords=NONE if X is None else enc.arr(X[keep])), run)


def matrix(ctx, W, keep, rng):
    from pygsp import reduction
    keep = np.asarray(keep)
    M = np.diag(W.sum(0)) - W
    if rng.random() < .6:
        M = M + float(rng.choice([.005, .25, 1])) * np.eye(len(M))
    ctx.rec("matrix", dict(M=enc.arr(M), keep=enc.idx(keep)),
            lambda: dict(K=enc.arr(reduction.kron_reduction(
                [sparse.csr_matrix, sparse.csc_matrix, sparse.lil_matrix][int(rng.integers(3))](M), kept(rng, keep)))))


def interpolation(ctx, W, keep, rng):
    from pygsp import graphs, reduction
    keep = np.asarray(keep)
    exact = bool(rng.integers(2))
    eps = float(rng.choice([.2, .5, 1] if not exact else [.005, .1, 1]))
    m = len(keep)
    f = rng.integers(-16, 17, [(m,), (m, 1), (m, 2), (m, 3)][int(rng.integers(4))]) / 4
    kw = {}
    if exact:
        kw["method"] = "exact"
    elif rng.random() < .5:
        kw["order"] = int(rng.choice([100, 120]))
    if eps != .005 or rng.random() < .5:
        kw["reg_eps"] = eps

    def run():
        G = graphs.Graph(W)
        if rng.random() < .4:       # interpolations from other vertices, with another regularization, before
            other = keep if rng.random() < .3 else np.sort(rng.permutation(len(W))[:int(rng.integers(1, len(W) + 1))])
            reduction.interpolate(G, np.arange(1., len(other) + 1), other, order=20,
                                  reg_eps=eps if rng.random() < .5 else 2.)
        return dict(F=enc.arr(reduction.interpolate(G, f, kept(rng, keep), **kw)))
    ctx.rec("interpolate", dict(W=enc.arr(W), keep=enc.idx(keep), f=enc.arr(f), eps=enc.num(eps)), run)


def graph(rng, lo=6, hi=13):
    """A connected graph large enough for a few levels."""
    from pygsp import graphs
    c = int(rng.integers(5))
    n = int(rng.integers(lo, hi))
    if c == 0:
        W = graphs.Path(n).W.toarray()
    elif c == 1:
        W = graphs.Ring(n).W.toarray()
    else:
        W = gen.connected_weights(rng, n, density=rng.choice([.1, .3, .6]), loops=rng.random() < .2)
    return W


def multiresolution(G, levels, **kw):
    """None when a level gets too small for the eigenvalue solver."""
    from pygsp import reduction
    try:
        Gs = reduction.graph_multiresolution(G, levels, **kw)
    except TypeError as e:
        if "Cannot use scipy" in str(e):
            return None
        raise
    return Gs


def levels(ctx, rng):
    from pygsp import graphs
    W = graph(rng, 6, 16)
    X = coordinates(rng, len(W))
    eps = float(rng.choice([.005, .5]))
    k = int(rng.integers(1, 4))
    spars = bool(rng.random() < .3)
    kw = dict(sparsify=spars)
    if spars and rng.random() < .3:
        kw = {}
    if eps != .005 or rng.random() < .5:
        kw["reg_eps"] = eps
    if rng.random() < .4:
        kw["compute_full_eigen"] = True
    G = graphs.Graph(W, coords=X)
    basis, used = rng.random() < .3, rng.random() < .3
    if basis:
        G.compute_fourier_basis()
    if spars:
        np.random.seed(int(rng.integers(2**31)))

    def attempt():
        return multiresolution(G, k, **kw)
    try:
        if attempt() is None:
            return
    except Exception:
        pass
    G = graphs.Graph(W, coords=X)
    if basis:
        G.compute_fourier_basis()
    if used:        # already a level of other multiresolutions
        G.mr = dict(idx=np.array([0, 2]), orig_idx=np.arange(len(W))[::-1], level=3, K_reg=None, green_kernel=None)

    def run():
        Gs = attempt()
        if Gs is None:
            raise Skip
        out = []
        for i, g in enumerate(Gs):
            last = i == len(Gs) - 1
            out.append(dict(W=enc.arr(g.W), idx=enc.idx(g.mr["idx"]), orig=enc.idx(g.mr["orig_idx"]),
                            coords=enc.arr(g.coords) if hasattr(g, "coords") else NONE,
                            K=NONE if last else enc.arr(g.mr["K_reg"]),
                            green=0 if last else enc.num(np.ravel(g.mr["green_kernel"].evaluate(np.array([1.])))[0]),
                            level=enc.integer(g.mr["level"]) if i else 0, lmax=0 if g._lmax is None else enc.num(g._lmax),
                            ref=ref.certificate(g.W.toarray(), "combinatorial")))
        return dict(levels=out, same=enc.flag(Gs[0] is G))
    ctx.rec("levels", dict(W=enc.arr(W), levels=k, sparsify=enc.flag(spars), eps=enc.num(eps)), run)


POLYS = [[1, 0, 0], [1, -1 / 16, 0], [1, -.125, .005], [.5, .0625, 0], [.75, 0, -.004]]


def pyramid(ctx, rng):
    from pygsp import graphs, reduction
    W = graph(rng, 6, 14)
    k = int(rng.integers(1, 4))
    Gs = multiresolution(graphs.Graph(W), k, sparsify=False, compute_full_eigen=bool(rng.integers(2)) or len(W) > 10)
    if Gs is None or any(g.N < 2 for g in Gs[:-1]):
        return
    n = len(W)
    f = rng.integers(-16, 17, [(n,), (n,), (n, 1), (n, 2), (n, 3)][int(rng.integers(5))]) / 4
    nf = int(rng.integers(3))
    polys = [POLYS[i] for i in rng.integers(0, len(POLYS), k if nf == 2 else 1)]
    hs = [lambda x, c=c: c[0] + c[1] * x + c[2] * x**2 for c in polys]
    ka, ks = {}, {}
    exact = bool(rng.random() < .4)
    eps = .005
    if exact:
        ka["method"] = ks["method"] = "exact"
    if rng.random() < .7:
        eps = float(rng.choice([.2, 1]))
        ka["reg_eps"] = ks["reg_eps"] = eps
    if not exact and rng.random() < .4:
        ka["order"] = ks["order"] = int(rng.choice([5, 40, 110]))
    sharp = exact or (eps >= .2 and ka.get("order", 100) >= 100)
    ka["h_filters"] = hs if nf else hs[0]

    def run():
        ca, pe = reduction.pyramid_analysis(Gs, f, **ka)
        r, back = reduction.pyramid_synthesis(Gs, ca[-1], pe, **ks)
        return dict(ca=[enc.arr(x) for x in ca], pe=[enc.arr(x) for x in pe], rec=enc.arr(r), back=[enc.arr(x) for x in back])
    ctx.rec("pyramid", dict(Ws=[enc.arr(g.W) for g in Gs], idx=[enc.idx(g.mr["idx"]) for g in Gs[1:]], f=enc.arr(f), levels=k,
                            eps=enc.num(eps), sharp=enc.flag(sharp),
                            polys=[[enc.num(v) for v in c] for c in (polys if nf == 2 else polys * k)]), run)


def cases(ctx):
    res = []
    for m in models(ctx.tier):
        with open(os.path.join(ctx.workdir, "kron-%s.json" % m["cfg"])) as fh:
            xs = json.load(fh)
        for b in range(0, len(xs), 80):
            def fn(ctx, part=xs[b:b + 80]):
                for i, x in enumerate(part):
                    rng = ctx.rng(i)
                    keep = rng.permutation(np.array(x["keep"]) - 1)
                    kron(ctx, np.array(x["W"]) / enc.SCALE, keep, rng)
            res.append(("%s-%d" % (m["cfg"], b), fn))
    mult = 12 if ctx.thorough else 1
    for rep in range(40 * mult):
        def fn(ctx, rep=rep):
            for i in range(6):
                rng = ctx.rng(i)
                n = int(rng.integers(2, 11))
                W = gen.connected_weights(rng, n, density=rng.choice([.1, .4, .8]), loops=rng.random() < .3)
                if rng.random() < .2 and n > 5:      # two components, with vertices kept in both
                    W[:3, 3:] = W[3:, :3] = 0
                    for j in range(4, n):
                        W[j, 3] = W[3, j] = 1
                    W[0, 1] = W[1, 0] = W[1, 2] = W[2, 1] = .5
                    keep = np.concatenate([[1], 3 + rng.permutation(n - 3)[:int(rng.integers(1, n - 2))]])
                else:
                    keep = rng.permutation(n)[:int(rng.integers(1, n + 1))]
                if rng.random() < .6:
                    keep = np.sort(keep)
                dt = rng.choice([float, np.float32])
                kron(ctx, W, keep, rng, gen.as_format(W.astype(dt) if rep % 3 else W, rng.choice(["dense", "csr", "csc", "lil", "coo"])))
                matrix(ctx, W - np.diag(np.diag(W)), keep, rng)
                interpolation(ctx, W, keep, rng)
        res.append(("rand-%d" % rep, fn))
    for rep in range(40 * mult):
        res.append(("levels-%d" % rep, lambda ctx: [levels(ctx, ctx.rng(i)) for i in range(4)]))
        res.append(("pyramid-%d" % rep, lambda ctx: [pyramid(ctx, ctx.rng(i)) for i in range(5)]))
    return res
