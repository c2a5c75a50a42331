"""C08: filtering applies the kernel to the Laplacian, whatever the method and shape."""
import json
import os

import numpy as np

from .. import enc, gen, kern, ref

MODULE = "TraceC08"
TYPES = ["combinatorial", "normalized"]


def models(tier):
    return [dict(module="FilteringMC", cfg="FilteringMC")]


def use_model(m, res, workdir):
    xs = sorted(set(p[2:] for p in res["prints"] if p.startswith("S ")))
    with open(os.path.join(workdir, "shapes.json"), "w") as fh:
        fh.write("[" + ",".join(xs) + "]")


def weights(rng, n):
    directed = rng.random() < .2
    while True:
        W = gen.random_weights(rng, n, directed, rng.random() < .2, rng.choice([.2, .5, .9]), kmax=10,
                               isolated=rng.random() < .1, binary=rng.random() < .2)
        off = W - np.diag(np.diag(W))
        if off.any() and np.linalg.eigvalsh(ref.laplacian(W, "combinatorial"))[-1] < 14:
            return W


def prepare(ctx, rng, n, nf, method):
    """A graph with some history, and a filter bank on it."""
    from pygsp import filters, graphs
    W = weights(rng, n)
    lt = TYPES[int(rng.integers(2))]
    e = np.linalg.eigvalsh(ref.laplacian(W, lt))
    lm = kern.r6(2 if lt == TYPES[1] else ref.bounds(W))
    fs, recs, order = kern.bank(rng, nf, lm)
    unit = float(rng.choice([1, 1, 1, 1, 1e-4, 1e3, 2. ** -20])) if lt == TYPES[0] else 1.
    if unit != 1:       # the same, in another unit of the weights
        fs = [lambda x, f=f: f(np.asanyarray(x) / unit) for f in fs]
    G = graphs.Graph(gen.as_format(W * unit, rng.choice(gen.FORMATS)), lap_type=lt)
    how = int(rng.integers(5))
    if how == 1:
        G.estimate_lmax("bounds")
    elif how == 2:
        G.compute_fourier_basis()
    elif how == 3:
        gen.perturb(G, rng, 3)
    elif how == 4:
        G.compute_laplacian(TYPES[lt == TYPES[0]])
    form = int(rng.integers(3))
    g = filters.Filter(G, fs[0] if nf == 1 and form else fs)
    if how == 4:
        g.filter(np.arange(n) / 4., method=method)
        G.compute_laplacian(lt)
    rec = dict(W=enc.arr(W), lt=lt, ref=ref.certificate(W, lt), kernels=recs, lmax=enc.num(lm), tol=150)
    kw = dict(method=method)
    if method == "chebyshev":
        if order < 25 or rng.random() < .5:
            o = order if order >= 25 else max(order, 1) + int(rng.integers(0, 3))
            kw["order"] = o + int(rng.integers(0, 2))
        elif order == 25 and rng.random() < .3:
            kw["order"] = 40
    elif rng.random() < .3:
        kw["order"] = int(rng.integers(1, 5))        # not used by the exact method
    return G, g, rec, kw


def signal(rng, sh):
    s = rng.integers(-8, 9, sh) / 4
    c = int(rng.integers(6))
    if c == 0:
        return s, s.tolist()
    if c == 1:
        s = rng.integers(-2, 3, sh)
        return s.astype(float), s
    if c == 2:
        return s, s.astype(np.float32)
    if c == 3:
        return s, np.asfortranarray(s)
    if c == 4:
        big = np.zeros(tuple(2 * k for k in sh))
        view = big[tuple(slice(None, None, 2) for _ in sh)]
        view[...] = s
        return s, view
    return s, s.copy()


def filtering(ctx, n, sh, nf, method, rng):
    sh = (n,) + tuple(sh[1:])
    G, g, rec, kw = prepare(ctx, rng, n, nf, method)
    s, arg = signal(rng, sh)
    rec["s"] = enc.arr(s)
    op = int(rng.integers(5))

    def run():
        before, L0 = np.array(arg, copy=True), G.L.toarray()
        refused, y = "", 0
        try:
            if op == 0 and isinstance(arg, np.ndarray) and len(sh) == 3 and sh[2] in (1, nf):
                y = g.analyze(arg, **kw) if sh[2] == 1 else g.synthesize(arg, **kw)
            elif op == 1 and "order" not in kw and method == "chebyshev":
                y = g @ arg
            elif op == 2 and nf > 1 and len(sh) < 3 and sh[-1] not in (1, nf):
                # filter by filter: each alone, then put together
                y = np.stack([g[i].filter(arg, **kw) for i in range(nf)], -1)
            elif op == 3:
                g.filter(arg, **dict(kw, method="exact"))
                y = g.filter(arg, **kw)
            else:
                y = g.filter(arg, **kw)
        except ValueError as e:
            refused = type(e).__name__
        kept = np.array_equal(before, np.asarray(arg)) and np.array_equal(L0, G.L.toarray()) and G.lap_type == rec["lt"]
        return dict(y=enc.arr(y), refused=refused, kept="T" if kept else "F")
    ctx.rec("filter", rec, run)


def localize(ctx, rng, n, nf, method):
    G, g, rec, kw = prepare(ctx, rng, n, nf, method)
    i = int(rng.integers(n))
    rec["vertex"] = i
    arg = [i, np.int64(i), i - n][int(rng.integers(3))]
    ctx.rec("localize", rec, lambda: dict(y=enc.arr(g.localize(arg, **kw)), kept="T"))


def frame(ctx, rng, n, nf, method):
    G, g, rec, kw = prepare(ctx, rng, n, nf, method)

    def run():
        if method == "chebyshev" and "order" not in kw and rng.random() < .5:
            y = g.toarray()
        else:
            y = g.compute_frame(**kw)
        return dict(y=enc.arr(y), kept="T")
    ctx.rec("frame", rec, run)


def cases(ctx):
    with open(os.path.join(ctx.workdir, "shapes.json")) as fh:
        shapes = json.load(fh)
    res = []
    reps = 60 if ctx.thorough else 3
    for rep in range(reps):
        for b in range(0, len(shapes), 9):
            def fn(ctx, part=shapes[b:b + 9]):
                for i, c in enumerate(part):
                    for method in ("exact", "chebyshev"):
                        # sizes which tell vertices from signals from features, and sizes which do not
                        rng = ctx.rng(i, method)
                        n = int(rng.integers(2, 8))
                        filtering(ctx, n, c["sh"], c["nf"], method, rng)
            res.append(("shapes-%d-%d" % (b, rep), fn))
    for rep in range(3000 if ctx.thorough else 120):
        def fn(ctx, rep=rep):
            rng = ctx.rng()
            for method in ("exact", "chebyshev"):
                n, nf = int(rng.integers(2, 12 if rep % 5 == 0 else 8)), int(rng.integers(1, 6))
                if rep % 40 == 39:
                    n, nf = int(rng.integers(20, 31)), 2
                # nf = n: as many filters as vertices
                if rep % 7 == 0:
                    nf = n
                localize(ctx, rng, n, nf, method)
                frame(ctx, rng, n, nf, method)
                m = int(rng.integers(1, 6))
                sh = [(n,), (n, m), (n, m, 1), (n, m, nf), (n, n), (n, nf), (n, n, nf)][int(rng.integers(7 if n < 20 else 4))]
                filtering(ctx, n, sh, nf, method, rng)
        res.append(("rand-%d" % rep, fn))
    return res
