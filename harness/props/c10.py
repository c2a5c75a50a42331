"""C10: filter designs follow their documented kernels and frame properties."""
import numpy as np

from .. import enc, gen, ref

MODULE = "TraceC10"
TYPES = ["combinatorial", "normalized"]
M = enc.num


def rint6(x):
    return np.rint(np.asarray(x, dtype=float) * 1e6) / 1e6


def as_iterable(rng, v):
    """A parameter as scalar, list, tuple or array."""
    c = int(rng.integers(4))
    if c == 0 and len(v) == 1:
        return v[0]
    return [v, list(v), tuple(v), np.array(v)][c]


def make(rng, name, G, lm):
    """An instance of a design: (constructor, parameters for the specification,
    tolerance)."""
    from pygsp import filters as F
    pick = lambda *a: a[int(rng.integers(len(a)))]
    lp = float(pick(20, 10, 5, 30))
    if name == "heat":
        s = [float(x) for x in rng.choice([.5, 1, 3, 10, 25.5, 0], int(rng.integers(1, 5)))]
        norm = bool(rng.integers(2))
        kw = dict(normalize=norm) if norm or rng.random() < .5 else {}
        if s == [10.0] and rng.random() < .5:
            return lambda: F.Heat(G, **kw), dict(design="heat", scales=[M(10)], normalize=norm), 60
        return (lambda: F.Heat(G, as_iterable(rng, s), **kw),
                dict(design="heat", scales=[M(x) for x in s], normalize=norm), 60)
    if name == "wave":
        n, m = pick((1, 1), (3, 1), (1, 3), (2, 2), (4, 4))
        t = [float(x) for x in rng.choice([0, 1, 2.5, 5, 10], n)]
        s = [float(x) for x in rng.choice([0, .5, 1, 1.5, 1.9], m)]
        d = dict(design="wave", times=[M(x) for x in t], speeds=[M(x) for x in s])
        return lambda: F.Wave(G, as_iterable(rng, t), as_iterable(rng, s)), d, 1500
    if name in ("rectangular", "expwin"):
        a, b = sorted(float(x) for x in rng.choice([0, .125, .25, .375, .5, .75, .875, 1], 2, replace=False))
        c = int(rng.integers(4))
        slope = float(pick(1, 1, .5, 2, 3)) if name == "expwin" else 1.
        d = dict(design=name, min="none" if c in (0, 1) else "some", max="none" if c in (0, 2) else "some",
                 bmin=M(a), bmax=M(b), slope=M(slope))
        kw = dict(band_min=None if c in (0, 1) else a, band_max=None if c in (0, 2) else b)
        if name == "expwin":
            kw["slope"] = slope
            return lambda: F.Expwin(G, **kw), d, 150
        return lambda: F.Rectangular(G, **kw), d, 0
    if name in ("hat", "abspline"):
        nf = int(rng.integers(2, 8))
        sc = [float(x) for x in rint6(rng.uniform(.1, 8, nf - 1))] if rng.random() < .4 else []
        d = dict(design=name, nf=nf, lp=M(lp), scales=[M(x) for x in sc], normalize=False)
        kw = dict(Nf=nf, lpfactor=lp)
        if sc:
            kw["scales"] = pick(sc, np.array(sc), tuple(sc))
        if name == "abspline":
            return lambda: F.Abspline(G, **kw), d, 300
        kw["normalize"] = d["normalize"] = bool(rng.integers(2))
        return lambda: F.MexicanHat(G, **kw), d, 300
    if name in ("meyer", "tight"):
        nf = int(rng.integers(2, 8))
        sc = [float(x) for x in rint6(rng.uniform(.1, 4, nf - 1))] if rng.random() < .4 else []
        d = dict(design=name, nf=nf, scales=[M(x) for x in sc])
        kw = dict(Nf=nf)
        if sc:
            kw["scales"] = pick(sc, np.array(sc), tuple(sc))
        return lambda: (F.Meyer if name == "meyer" else F.SimpleTight)(G, **kw), d, 600
    if name == "half cosine":
        nf = int(rng.integers(3, 9))
        return lambda: F.HalfCosine(G, Nf=nf), dict(design=name, nf=nf), 150
    if name == "itersine":
        ov = int(pick(2, 2, 4, 3))
        nf = int(rng.integers(ov, 9))
        return lambda: F.Itersine(G, Nf=nf, overlap=ov), dict(design=name, nf=nf, overlap=ov), 300
    if name in ("held", "simoncelli", "papadakis"):
        a = rint6(rng.uniform(.3, .95))
        if rng.random() < .3:
            a = {"held": 2 / 3, "simoncelli": 2 / 3, "papadakis": .75}[name]
        cls = {"held": F.Held, "simoncelli": F.Simoncelli, "papadakis": F.Papadakis}[name]
        return lambda: cls(G, a), dict(design=name, a=M(a)), 600
    if name == "regular":
        deg = int(rng.integers(0, 6))
        return lambda: F.Regular(G, deg), dict(design=name, degree=deg), 300


DESIGNS = ["heat", "wave", "rectangular", "expwin", "hat", "abspline", "meyer", "tight",
           "half cosine", "itersine", "held", "simoncelli", "papadakis", "regular"]


def setup(rng, n=None):
    """A graph whose largest eigenvalue was obtained in some way."""
    from pygsp import graphs
    n = int(rng.integers(2, 12)) if n is None else n
    lt = TYPES[int(rng.integers(2))]
    while True:
        W = gen.connected_weights(rng, n, density=rng.choice([.1, .5, .9]), unit=rng.choice([1 / 8, 1 / 4]), kmax=8)
        if np.linalg.eigvalsh(ref.laplacian(W, lt))[-1] < 12:
            break
    G = graphs.Graph(W, lap_type=lt)
    how = int(rng.integers(4))
    if how == 0:
        G.estimate_lmax()
    elif how == 1:
        G.compute_fourier_basis()
    elif how == 2:
        G.estimate_lmax("bounds")
    return W, lt, G


def points(rng, lm, e, wave=False):
    k = int(rng.integers(8, 14))
    x = np.concatenate([[0, lm, lm / 2, lm / 4, lm / 8, .75 * lm], rng.uniform(0, lm, k), e])
    x = x[(x <= lm) & (x >= 0)]
    x = np.where(x == lm, lm, rint6(x))
    if wave:
        x = x[(x == 0) | (x >= .05 * lm)]
    return x


def boundary(d, x, lm):
    """Remove points too close to a discontinuity (but those exactly on it)."""
    keep = np.ones(len(x), dtype=bool)
    for k in ("bmin", "bmax"):
        b = d.get(k, 0) / 1e6
        f = x / lm
        keep &= (np.abs(f - b) > 1e-5) | (f == b)
    return x[keep]


def design(ctx, name):
    rng = ctx.rng("d", len(ctx.records))
    W, lt, G = setup(rng)
    lm = G.lmax
    e = np.linalg.eigvalsh(ref.laplacian(W, lt))
    e[e < 1e-9] = 0
    build, d, tol = make(rng, name, G, lm)
    if d.get("normalize") and name == "heat":
        G.compute_fourier_basis()
        lm = G.lmax
    x = points(rng, lm, e, name == "wave")
    if name == "rectangular":
        x = boundary(d, x, lm)
    form = int(rng.integers(5))
    if form == 0:
        x = x[:2 * (len(x) // 2)].reshape(2, -1)
    elif form == 1:
        x = np.asarray(x[int(rng.integers(len(x)))])
    arg = x.tolist() if form == 2 else x

    def run():
        g = build()
        y = g.evaluate(arg) if rng.random() < .7 else g(arg)
        return dict(nf=enc.integer(g.n_filters), len=enc.integer(len(g)), shape=list(g.shape), y=enc.arr(y))
    ctx.rec("design", dict(design=d, lmax=M(lm), x=enc.arr(x), tol=tol, e=[M(v) for v in e], lt=lt), run)


def distinct(rng):
    while True:
        W, lt, G = setup(rng, int(rng.integers(2, 7)))
        e = np.linalg.eigvalsh(ref.laplacian(W, lt))
        if np.diff(e).min() > .05:
            return W, lt, G


def mother(rng):
    from pygsp import filters as F
    c = int(rng.integers(2))
    if c == 0:
        co = [float(v) for v in rng.integers(-8, 9, 3) / 16]
        return (lambda G: F.Filter(G, lambda x: co[0] + co[1] * x + co[2] * x**2)), \
            dict(name="poly", c=[M(v) for v in co])
    s = float(rng.choice([1, 3, 5]))
    return (lambda G: F.Heat(G, s)), dict(name="heat", scale=M(s), norm=M(1))


def lived(rng, G, lt, bank, use):
    """A bank which may have been made and used while the graph was in another state."""
    if rng.random() < .5:
        G.compute_fourier_basis()
        return bank()
    other = "normalized" if lt == "combinatorial" and rng.random() < .7 else lt
    g = None
    G.compute_laplacian(other)
    if rng.random() < .7:
        g = bank()
        if rng.random() < .8:
            use(g)
    G.compute_laplacian(lt)
    if rng.random() < .5 and G.N > 3:
        G.compute_fourier_basis(2)
    return g or bank()


def gabor(ctx):
    from pygsp import filters as F
    rng = ctx.rng("g", len(ctx.records))
    W, lt, G = distinct(rng)
    k, kd = mother(rng)
    e = np.linalg.eigvalsh(ref.laplacian(W, lt))
    x = points(rng, e[-1], e)
    sig = rng.integers(-8, 9, len(W)) / 4

    def run():
        g = lived(rng, G, lt, lambda: F.Gabor(G, k(G)), lambda g: g.evaluate(np.linspace(0, 2, 4)))
        return dict(nf=enc.integer(g.Nf), y=enc.arr(g.evaluate(x)))
    ctx.rec("gabor", dict(W=enc.arr(W), lt=lt, ref=ref.certificate(W, lt), kernel=kd, lmax=M(e[-1]),
                          x=enc.arr(x), tol=200), run)


def modulation(ctx):
    from pygsp import filters as F
    rng = ctx.rng("m", len(ctx.records))
    W, lt, G = distinct(rng)
    k, kd = mother(rng)
    e = np.linalg.eigvalsh(ref.laplacian(W, lt))
    sig = rng.integers(-8, 9, len(W)) / 4

    def run():
        first, last = lived(rng, G, lt, lambda: (F.Modulation(G, k(G), modulation_first=True), F.Modulation(G, k(G))),
                            lambda b: (b[0].evaluate(G.e), b[1].filter(sig)))
        if rng.random() < .5:
            f, g = first.filter(sig), last.filter(sig)
        else:
            g = last.filter(sig)
            f = first.filter(sig)
        return dict(nf=enc.integer(first.Nf), U=enc.arr(G.U), y=enc.arr(first.evaluate(G.e)),
                    off=enc.arr(last.evaluate(np.array([(G.e[0] + G.e[1]) / 2]))),
                    f=enc.arr(f), g=enc.arr(g))
    ctx.rec("modulation", dict(W=enc.arr(W), lt=lt, ref=ref.certificate(W, lt), kernel=kd, lmax=M(e[-1]),
                               s=enc.arr(sig), tol=800), run)


def cases(ctx):
    res = []
    for rep in range(200 if ctx.thorough else 16):
        for name in DESIGNS:
            def fn(ctx, name=name):
                for _ in range(4):
                    design(ctx, name)
            res.append(("%s-%d" % (name.replace(" ", "-"), rep), fn))
        res.append(("gabor-%d" % rep, lambda ctx: [gabor(ctx) for _ in range(3)]))
        res.append(("modulation-%d" % rep, lambda ctx: [modulation(ctx) for _ in range(3)]))
    return res
