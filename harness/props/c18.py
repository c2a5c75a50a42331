"""C18: semi-supervised learning."""
import json
import os

import numpy as np

from .. import enc, gen

MODULE = "TraceC18"


def models(tier):
    return [dict(module="LearningMC", cfg=c) for c in ["LearningMC"] + (["LearningMC4"] if tier == "thorough" else [])]


def use_model(m, res, workdir):
    xs = sorted(set(p[2:] for p in res["prints"] if p.startswith("L ")))
    with open(os.path.join(workdir, "%s.json" % m["cfg"]), "w") as fh:
        fh.write("[" + ",".join(xs) + "]")


def make(ctx, W, rng, lt=None, adj=None):
    from pygsp import graphs
    lt = lt or rng.choice(["combinatorial", "combinatorial", "normalized"])
    G = graphs.Graph(W if adj is None else adj, lap_type=lt)
    gen.perturb(G, rng, int(rng.integers(0, 3)), exclude=("layout", "lap"))
    return G, str(lt)


def garbage(rng, y, mask, labels=False):
    """Whatever was written where nothing was measured."""
    y = y.copy()
    n = int(np.sum(~mask))
    if not n:
        return y
    sh = y[~mask].shape
    kind = y.dtype.kind
    if kind == "b":
        y[~mask] = rng.random(sh) < .5
    elif kind == "u":
        y[~mask] = rng.integers(0, 200, sh)
    elif kind == "i":
        y[~mask] = rng.integers(-100, 100, sh)
    else:
        with np.errstate(all="ignore"):
            v = [0, 7, -1, 1e6, np.nan, np.inf, -np.inf] if y.dtype != np.float16 else [0, 3, -1, np.nan]
            y[~mask] = rng.choice(v, sh)
    return y


DTYPES = [float, float, float, np.float32, np.int64, np.int32, np.int8, np.uint8, np.uint16, bool, np.float16]


def regression(ctx, W, mask, y, tau, rng, lt=None, adj=None, default=False):
    from pygsp import learning

    def run():
        G, _ = make(ctx, W, rng, lt, adj)
        g = garbage(rng, y, mask)
        return dict(x=enc.arr(learning.regression_tikhonov(G, g, mask, *([] if default else [tau]))))
    with np.errstate(all="ignore"):
        yc = np.where(mask.reshape(-1, *[1] * (y.ndim - 1)), y.astype(float), 0)
    ctx.rec("regression", dict(W=enc.arr(W), mask=enc.idx(mask.astype(int)), y=enc.arr(yc), tau=enc.num(tau), lt=lt), run)


def complex_regression(ctx, W, mask, y, tau, rng, lt):
    """Real and imaginary parts as separate signals."""
    from pygsp import learning

    def parts(z):
        z = np.asarray(z).reshape(len(W), -1)
        return np.concatenate([z.real, z.imag], axis=1)

    def run():
        G, _ = make(ctx, W, rng, lt)
        g = y.copy()
        g[~mask] = rng.choice([0, 7 - 1j, np.nan])
        x = learning.regression_tikhonov(G, g, mask, tau)
        return dict(x=enc.arr(parts(x) if x.shape == y.shape else x.shape))
    ctx.rec("regression", dict(W=enc.arr(W), mask=enc.idx(mask.astype(int)), y=enc.arr(np.where(mask[:, None], parts(y), 0)), tau=enc.num(tau), lt=lt), run)


def classification(ctx, W, mask, y, tau, rng, lt, default=False):
    from pygsp import learning

    def run():
        G, _ = make(ctx, W, rng, lt)
        return dict(x=enc.arr(learning.classification_tikhonov(G, garbage(rng, y, mask), mask, *([] if default else [tau]))))
    ctx.rec("class", dict(W=enc.arr(W), mask=enc.idx(mask.astype(int)), y=enc.idx(np.where(mask, y.astype(float), 0)),
                          tau=enc.num(tau), lt=lt), run)


def simplex(ctx, W, mask, y, tau, rng, lt):
    from pygsp import learning
    sharp = bool(rng.random() < .8)

    def run():
        G, _ = make(ctx, W, rng, lt)
        if rng.random() < .3:
            learning.classification_tikhonov_simplex(G, np.ones(len(W)), ~mask, .01, maxit=2, verbosity="NONE")
        kw = dict(rtol=None, maxit=1500) if sharp else {}
        if tau != .1 or rng.random() < .5:
            kw["tau"] = tau
        return dict(x=enc.arr(learning.classification_tikhonov_simplex(G, garbage(rng, y, mask), mask, verbosity="NONE", **kw)))
    ctx.rec("simplex", dict(W=enc.arr(W), mask=enc.idx(mask.astype(int)), y=enc.idx(np.where(mask, y.astype(float), 0)),
                            tau=enc.num(tau), lt=lt, sharp=enc.flag(sharp)), run)


def random_mask(rng, n):
    c = int(rng.integers(4))
    mask = rng.random(n) < (.5 if c < 2 else .2)
    if c == 3:
        mask = np.ones(n, dtype=bool)
    if not mask.any():
        mask[rng.integers(n)] = True
    return mask


def cases(ctx):
    res = []
    mult = 15 if ctx.thorough else 1
    for m in models(ctx.tier):
        with open(os.path.join(ctx.workdir, "%s.json" % m["cfg"])) as fh:
            xs = json.load(fh)
        for b in range(0, len(xs), 150):
            def fn(ctx, part=xs[b:b + 150]):
                for i, x in enumerate(part):
                    rng = ctx.rng(i)
                    W = np.array(x["W"]) / enc.SCALE
                    mask = np.zeros(len(W), dtype=bool)
                    mask[np.array(x["M"]) - 1] = True
                    regression(ctx, W, mask, np.array(x["y"]) / enc.SCALE, x["tau"] / enc.SCALE, rng, "combinatorial")
            res.append(("%s-%d" % (m["cfg"], b), fn))
    for rep in range(40 * mult):
        def fn(ctx, rep=rep):
            for i in range(8):
                rng = ctx.rng(i)
                n = int(rng.integers(2, 13))
                directed = rng.random() < .15
                W = gen.connected_weights(rng, n, density=rng.choice([.1, .4, .8]), loops=rng.random() < .2)
                if directed:
                    W = W * (rng.random((n, n)) < .6) + np.diag(np.full(n - 1, .5), 1)
                lt = str(rng.choice(["combinatorial", "combinatorial", "normalized"]))
                mask = random_mask(rng, n)
                dt = DTYPES[int(rng.integers(len(DTYPES)))]
                sh = [(n,), (n,), (n, 1), (n, 2), (n, 3)][int(rng.integers(5))]
                y = rng.integers(0, 9, sh) if np.dtype(dt).kind in "ub" else rng.integers(-16, 17, sh) / (1 if np.dtype(dt).kind == "i" else 4)
                if rng.random() < .05:
                    y = y * 0
                y = np.asarray(y).astype(dt)
                if rng.random() < .2:
                    y = np.asfortranarray(y)
                tau = float(rng.choice([0, 0, .01, .125, 1, 10]))
                regression(ctx, W, mask, y, tau, rng, lt, gen.as_format(W, rng.choice(["dense", "csr", "lil"])), default=tau == 0 and rng.random() < .5)
                if i == 0:
                    z = rng.integers(-16, 17, sh) / 4 + 1j * rng.integers(-16, 17, sh) / 4
                    complex_regression(ctx, W, mask, z, tau, rng, lt)
                k = int(rng.integers(1, 5))
                ldt = [int, int, float, np.uint8, np.int8, np.float32, np.int32][int(rng.integers(7))]
                labels = rng.integers(0, k, n)
                if rng.random() < .3:
                    labels = labels * int(rng.integers(1, 3))     # classes nobody has
                labels = labels.astype(ldt)
                classification(ctx, W, mask, labels, tau, rng, lt, default=tau == 0 and rng.random() < .5)
                if n <= 10:
                    simplex(ctx, W, mask, labels, float(rng.choice([.01, .1, .5, 2])), rng, lt)
        res.append(("rand-%d" % rep, fn))
    for rep in range(4 * mult):
        # Little is measured on a long graph: values have a long way to go.
        def fn(ctx, rep=rep):
            rng = ctx.rng()
            n = int(rng.integers(130, 200))
            W = np.zeros((n, n))
            i = np.arange(1, n)
            W[i, i - 1 if rep % 2 == 0 else np.maximum(0, i - 1 - rng.integers(0, 3, n - 1))] = rng.choice([1, 2, 4], n - 1)
            W = np.maximum(W, W.T)
            mask = np.zeros(n, dtype=bool)
            mask[rng.integers(0, 6, 2)] = True
            sh = (n,) if rng.random() < .5 else (n, 2)
            y = rng.integers(4, 17, sh) / 4
            regression(ctx, W, mask, y, float(rng.choice([1, 10])), rng, "combinatorial")
            if rep == 0:
                classification(ctx, W, mask, rng.integers(0, 3, n), 5., rng, "combinatorial")
        res.append(("long-%d" % rep, fn))
    return res
