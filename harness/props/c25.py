"""C25: polynomial and Krylov approximations."""
import numpy as np

from .. import enc, gen, kern, ref

MODULE = "TraceC25"
TYPES = ["combinatorial", "normalized"]
M = enc.num


def models(tier):
    return [dict(module="ChebyshevMC", cfg="ChebyshevMC")]


def graph(rng, n=None, loops=True):
    from pygsp import graphs
    n = int(rng.integers(2, 9)) if n is None else n
    lt = TYPES[int(rng.integers(2))]
    while True:
        W = gen.random_weights(rng, n, rng.random() < .2, loops and rng.random() < .2, rng.choice([.3, .5, .9]), kmax=10)
        off = W - np.diag(np.diag(W))
        if off.any() and np.linalg.eigvalsh(ref.laplacian(W, "combinatorial"))[-1] < 12:
            break
    return W, lt, build(rng, W, lt)


def build(rng, W, lt):
    from pygsp import graphs
    # the approximations are the same in any unit of the weights
    unit = float(rng.choice([1, 1, 1, 1e-4, 1e3, 2. ** -20])) if lt == TYPES[0] else 1.
    G = graphs.Graph(W * unit, lap_type=lt)
    G.unit = unit
    how = int(rng.integers(4))
    if how == 1:
        G.estimate_lmax("bounds")
    elif how == 2:
        G.compute_fourier_basis()
    elif how == 3:
        gen.perturb(G, rng, 3)
    return G


def span(W, lt):
    return kern.r6(2 if lt == TYPES[1] else ref.bounds(W))


def rescaled(G, fs):
    return fs if G.unit == 1 else [lambda x, f=f: f(np.asanyarray(x) / G.unit) for f in fs]


def signal(rng, n):
    c = int(rng.integers(4))
    sh = (n,) if rng.random() < .4 else (n, int(rng.integers(1, 5)))
    if c == 3:
        s = rng.integers(-2, 3, sh)
        return s.astype(float), s
    s = rng.integers(-8, 9, sh) / 4
    if c == 2:
        return s, np.asfortranarray(s)
    return s, s


def coefficients(ctx, rng):
    from pygsp import filters
    from pygsp.filters import approximations as ap
    W, lt, G = graph(rng)
    lm, nf = span(W, lt), int(rng.integers(1, 4))
    fs, recs, order = kern.bank(rng, nf, lm, 4)
    m = int(rng.integers(1, 12))
    if rng.random() < .3:
        m = max(order, 1)
    N = 0 if rng.random() < .5 else m + 1 + int(rng.integers(-1, 8))
    N = max(N, 0)
    i = int(rng.integers(nf)) if rng.random() < .3 else -1
    kw = dict(m=m)
    if N:
        kw["N"] = N
    if i >= 0:
        kw["i"] = i
    if m == 30 and rng.random() < .5:
        kw.pop("m")
    g = filters.Filter(G, rescaled(G, fs))
    lmax = G.lmax / G.unit

    def run():
        y = ap.compute_cheby_coeff(g, **kw)
        single = isinstance(y, np.ndarray) and y.ndim == 1
        return dict(single="T" if single else "F", ys=[enc.arr(v) for v in ([y] if single else list(y))])
    # bands of heat kernels depend on the span which the callable was made with
    for r in recs:
        if r["name"] == "heat":
            r["name"], r["a"], r["b"] = "exp", M(r["scale"] / 1e6 / lm), M(1)
    ctx.rec("coefficients", dict(kernels=recs, lmax=M(lmax), m=m, N=N, i=i,
                                 exact=bool(m >= order and (N == 0 or N > m)), tol=60), run)


def operator(ctx, rng):
    from pygsp.filters import approximations as ap
    W, lt, G = graph(rng)
    s, arg = signal(rng, len(W))
    nc, m = int(rng.integers(1, 5)), int(rng.integers(2, 14 if rng.random() < .9 else 45))
    c = np.rint(rng.uniform(-1, 1, (nc, m)) * 1e4) / 1e4
    form = int(rng.integers(4))
    ca = c[0] if nc == 1 and form == 0 else [list(r) for r in c] if form == 1 else [r for r in c] if form == 2 else c
    lmax = G.lmax / G.unit
    ctx.rec("operator", dict(W=enc.arr(W), lt=lt, ref=ref.certificate(W, lt), lmax=M(lmax), s=enc.arr(s),
                             c=[[M(v) for v in r] for r in c], tol=600),
            lambda: dict(y=enc.arr(ap.cheby_op(G, ca, arg))))
    if rng.random() < .2:
        def short():
            try:
                ap.cheby_op(G, c[:, :1], arg)
            except TypeError:
                return dict(refused="TypeError")
            return dict(refused="")
        ctx.rec("short", {}, short)


def rectangle(ctx, rng):
    from pygsp.filters import approximations as ap
    W, lt, G = graph(rng)
    s, arg = signal(rng, len(W))
    lmax = G.lmax / G.unit
    a, b = sorted(rng.uniform(.02, .98, 2) * lmax)
    a, b = kern.r6(a), kern.r6(b)
    if rng.random() < .2:
        a = 0.
    order = int(rng.integers(1, 14)) if rng.random() < .85 else int(rng.integers(31, 60))
    kw = dict(order=order)
    if rng.random() < .2:
        order, kw = 30, {}
    bounds = [a * G.unit, b * G.unit] if rng.random() < .5 else np.array([a, b]) * G.unit
    ctx.rec("rectangle", dict(W=enc.arr(W), lt=lt, ref=ref.certificate(W, lt), lmax=M(lmax), s=enc.arr(s),
                              a=M(a), b=M(b), order=order, tol=2500 if order <= 30 else 8000),
            lambda: dict(y=enc.arr(ap.cheby_rect(G, bounds, arg, **kw))))


def jackson(ctx, rng):
    from pygsp.filters import approximations as ap
    lo = float(rng.choice([0, 0, 0, .5, -1, .25]))
    hi = lo + float(rng.choice([2, 5, 8.5, 1]))
    a, b = sorted(kern.r6(v) for v in rng.uniform(lo, hi, 2))
    c = int(rng.integers(8))
    if c == 0:
        a = lo
    elif c == 1:
        b = hi
    elif c == 2:
        a, b = lo, hi
    elif c == 3:
        b = hi + .125
    elif c == 4:
        a = lo - .125
    elif c == 5 and rng.random() < .5:     # a spectrum whose ends are exchanged
        lo, hi = hi, lo
        a, b = lo, hi
    m = int(rng.integers(1, 25))

    def run():
        try:
            ch, jch = ap.compute_jackson_cheby_coeff([a, b], [lo, hi], m)
        except ValueError:
            return dict(refused="ValueError", ch=enc.arr(0), jch=enc.arr(0))
        return dict(refused="", ch=enc.arr(ch), jch=enc.arr(jch))
    ctx.rec("jackson", dict(a=M(a), b=M(b), lo=M(lo), hi=M(hi), m=m, tol=300 if c > 2 or c == 0 else 1500), run)


def positive(f):
    """The same kernel, which is undefined below zero as a square root is."""
    return lambda x: np.where(np.asanyarray(x) < 0, np.nan, f(x))


def lanczos(ctx, rng):
    from pygsp import filters, graphs
    from pygsp.filters import approximations as ap
    c = int(rng.integers(6))
    n = int(rng.integers(2, 9))
    if c < 3:
        W, lt, G = graph(rng, n)
    else:
        W = np.ones((n, n)) - np.eye(n)
        if c == 4:
            W[1:, 1:] = 0
        elif c == 5:
            W = np.eye(n, k=1) + np.eye(n, k=1 - n) if n > 2 else W
            W = np.maximum(W, W.T)
        W = W * float(rng.choice([1, .5, .25]))
        lt = TYPES[int(rng.integers(2))]
        G = build(rng, W, lt)
    e, U = np.linalg.eigh(ref.laplacian(W, lt))
    distinct = 1 + int((np.diff(e) > 1e-6).sum())
    s, arg = signal(rng, n)
    k = int(rng.integers(6))
    if k == 0:
        s = np.ones(s.shape) * .75
        arg = s
    elif k == 1:
        s = U[:, int(rng.integers(n))]
        s = np.rint(s * 1e6) / 1e6
        arg = s
    lm, nf = span(W, lt), int(rng.integers(1, 4))
    fs, recs, _ = kern.bank(rng, nf, lm)
    if rng.random() < .5:
        fs = [positive(f) for f in fs]
    fs = rescaled(G, fs)
    g = filters.Filter(G, fs if nf > 1 else fs[0])
    order = distinct + int(rng.integers(0, 3))
    kw = dict(order=order)
    if rng.random() < .3:
        kw = {}
    ctx.rec("lanczos", dict(W=enc.arr(W), lt=lt, ref=ref.certificate(W, lt), lmax=M(lm), s=enc.arr(s), kernels=recs,
                            tol=200), lambda: dict(y=enc.arr(ap.lanczos_op(g, arg, **kw))))


def cases(ctx):
    res = []
    for rep in range(1500 if ctx.thorough else 60):
        for f, k in ((coefficients, 3), (operator, 4), (rectangle, 3), (jackson, 6), (lanczos, 4)):
            def fn(ctx, f=f, k=k):
                for i in range(k):
                    f(ctx, ctx.rng(i))
            res.append(("%s-%d" % (f.__name__, rep), fn))
    return res
