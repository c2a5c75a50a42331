"""C20: numerical utilities."""
import json
import os

import numpy as np
from scipy import sparse

from .. import enc

MODULE = "TraceC20"
METHODS = ["average", "maximum", "fill", "tril", "triu"]
FORMATS = [sparse.csr_matrix, sparse.csc_matrix, sparse.coo_matrix, sparse.lil_matrix, sparse.dok_matrix,
           sparse.bsr_matrix, sparse.csr_array, sparse.csc_array, sparse.coo_array]


def models(tier):
    return [dict(module="UtilsMC", cfg="UtilsMC"), dict(module="UtilsMC", cfg="UtilsMC3")]


def use_model(m, res, workdir):
    xs = sorted(set(p[2:] for p in res["prints"] if p.startswith("U ")))
    with open(os.path.join(workdir, "%s.json" % m["cfg"]), "w") as fh:
        fh.write("[" + ",".join(xs) + "]")


def symmetrize(ctx, W, rng, dt=None):
    from pygsp import utils
    W = np.asarray(W, dtype=float)
    whole = np.all(W == np.rint(W))
    dts = [float, np.float32] + ([np.int64, np.int8, np.uint8, int] if whole else []) + ([bool] if W.max(initial=0) <= 1 and whole else [])
    methods = METHODS
    if W.min(initial=0) < 0:        # the other methods are for weights
        methods = METHODS[:2]
        dts = [float, np.float32] + ([np.int64, np.int8, int] if whole else [])
    dt = dt or dts[int(rng.integers(len(dts)))]
    V = W.astype(dt)
    if rng.random() < .3:
        V = np.asfortranarray(V)
    fmt = FORMATS[int(rng.integers(len(FORMATS)))]
    S = fmt(V)
    c = int(rng.integers(4))
    if c == 0 and sparse.isspmatrix_csr(S):       # explicit zeros
        S = sparse.csr_matrix(np.where(V == 0, 1, V).astype(dt))
        S.data[np.ravel(V) == 0] = 0
    if c == 1 and S.format in ("csr", "csc"):
        S = S.copy()
        for i in range(len(W)):
            sl = slice(S.indptr[i], S.indptr[i + 1])
            S.indices[sl], S.data[sl] = S.indices[sl][::-1].copy(), S.data[sl][::-1].copy()
        S.has_sorted_indices = False

    def run():
        dense = [enc.arr(utils.symmetrize(V, m)) for m in methods]
        res = [utils.symmetrize(S, m) for m in methods]
        if rng.random() < .2:
            dense[0], res[0] = enc.arr(utils.symmetrize(V)), utils.symmetrize(S)
        return dict(dense=dense, sparse=[enc.arr(x) for x in res], stays=[enc.flag(sparse.issparse(x)) for x in res])
    ctx.rec("symmetrize", dict(W=enc.arr(W)), run)


def distances(ctx, rng):
    from pygsp import utils
    dt = [float, float, np.float32, np.int8, np.uint8, np.int64][int(rng.integers(6))]
    r, a, b = int(rng.integers(1, 5)), int(rng.integers(1, 7)), int(rng.integers(1, 7))

    def data(k):
        if np.dtype(dt).kind == "u":
            x = rng.integers(0, 256, (r, k)).astype(dt)
        elif np.dtype(dt).kind == "i":
            x = rng.integers(-128, 128, (r, k)).astype(dt)
        else:
            x = (rng.integers(-80, 81, (r, k)) / 8).astype(dt)
        if r == 1 and rng.random() < .5:
            x = x[0]
        return np.asfortranarray(x) if rng.random() < .3 else x
    x = data(a)
    one = rng.random() < .4
    y = x if one else data(b)
    k = 1 if np.dtype(dt).kind == "f" else 1 / 32     # recorded in units that the specification can hold
    ctx.rec("distances", dict(x=enc.arr(x.astype(float) * k), y=enc.arr(y.astype(float) * k)),
            lambda: dict(d=enc.arr((utils.distanz(x) if one else utils.distanz(x, y)) * k)))


def rescale(ctx, rng):
    from pygsp import utils
    x = rng.integers(-64, 65, (int(rng.integers(1, 5)), int(rng.integers(2, 9))))
    x[0, :2] = [0, 5]
    dt = [float, int, np.float32, np.int8][int(rng.integers(4))]
    x = (x / 4).astype(dt) if np.dtype(dt).kind == "f" else x.astype(dt)
    ctx.rec("rescale", dict(x=enc.arr(x)), lambda: dict(r=enc.arr(utils.rescale_center(x))))


def scales(ctx, rng):
    from pygsp import utils
    lmin = float(rng.choice([.25, .5, 1, 2]))
    lmax = lmin * float(rng.choice([1, 1.5, 4, 20, 50]))
    n = int(rng.integers(1, 9))
    t1, t2 = [(1, 2), (1, 2), (.5, 2), (1, 8), (3, 1)][int(rng.integers(5))]
    kw = {} if (t1, t2) == (1, 2) else dict(t1=t1, t2=t2)
    ctx.rec("scales", dict(lmin=enc.num(lmin), lmax=enc.num(lmax), n=n, t1=enc.num(t1), t2=enc.num(t2)),
            lambda: dict(s=enc.arr(utils.compute_log_scales(lmin, lmax, n, **kw))))


def handler(ctx, rng):
    from pygsp import filters, graphs, utils
    nf = int(rng.integers(1, 6))
    G = graphs.Ring(6)
    G.estimate_lmax()
    kernels = [lambda x, k=k: np.exp(-k * x) for k in range(nf)]
    f = filters.Filter(G, kernels if nf > 1 or rng.random() < .5 else kernels[0])
    asked = int(rng.integers(nf)) if rng.random() < .4 else -1
    extra = rng.random() < .5
    calls, good = [], []

    @utils.filterbank_handler
    def fn(g, a, *args, b=3, **kwargs):
        """What it does."""
        calls.append(int(kwargs.get("i", -1)))
        good.append(g is f and a == 7 and b == (5 if extra else 3) and args == ((8,) if extra else ()) and set(kwargs) <= {"i"})
        return kwargs.get("i", -1)

    def run():
        kw = dict(b=5) if extra else {}
        if asked != -1:
            kw["i"] = asked
        res = fn(f, 7, *([8] if extra else []), **kw)
        return dict(calls=calls, args=enc.flag(all(good)), result=[int(v) for v in res] if isinstance(res, list) else [-1, int(res)],
                    doc=enc.flag(fn.__name__ == "fn" and fn.__doc__ == "What it does."))
    ctx.rec("handler", dict(nf=nf, asked=asked), run)


def refusals(ctx):
    from pygsp import utils
    rng = ctx.rng(0)
    for i in range(12):
        W = rng.integers(0, 3, (3, 3 + (i % 3 != 0))).astype(float)
        V = sparse.csr_matrix(W) if i % 2 else W
        if i % 3:
            ctx.rec("refuse", dict(why="a matrix that isn't square is refused"), lambda: utils.symmetrize(V, METHODS[i % 5]) is None and {} or {})
        else:
            ctx.rec("refuse", dict(why="an unknown method is refused"), lambda: utils.symmetrize(V, "sum") is None and {} or {})
        ctx.rec("refuse", dict(why="columns of different lengths are refused"), lambda: {"x": enc.arr(utils.distanz(np.ones((2, 3)), np.ones((3, 3))))})


def cases(ctx):
    res = []
    mult = 15 if ctx.thorough else 1
    for m in models(ctx.tier):
        with open(os.path.join(ctx.workdir, "%s.json" % m["cfg"])) as fh:
            xs = json.load(fh)
        if m["cfg"] == "UtilsMC3" and not ctx.thorough:
            xs = xs[ctx.seed % 7::7]
        for b in range(0, len(xs), 150):
            res.append(("%s-%d" % (m["cfg"], b),
                        lambda ctx, part=xs[b:b + 150]: [symmetrize(ctx, np.array(x) / enc.SCALE, ctx.rng(i)) for i, x in enumerate(part)]))
    for rep in range(20 * mult):
        def fn(ctx):
            for i in range(10):
                rng = ctx.rng(i)
                n = int(rng.integers(1, 9))
                W = (rng.random((n, n)) < rng.choice([.2, .5, .9])) * (rng.integers(0, 9, (n, n)) / rng.choice([1, 1, 8]))
                symmetrize(ctx, W, rng)
                if i < 4:
                    symmetrize(ctx, W * rng.choice([-1, 1], (n, n)), rng)
                distances(ctx, rng)
                distances(ctx, rng)
                rescale(ctx, rng)
                scales(ctx, rng)
                handler(ctx, rng)
        res.append(("rand-%d" % rep, fn))
    res.append(("refusals", refusals))
    return res
