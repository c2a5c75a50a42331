"""C15: nearest-neighbor graphs."""
import sys
import types

import numpy as np

from .. import enc

MODULE = "TraceC15"


class Brute:
    """An exact stand-in for FLANN: distances as its C library returns them."""
    metric, order = "euclidean", 0

    def nn(self, pts, qpts, num_neighbors=5, **kwargs):
        d = np.abs(np.asarray(qpts, float)[:, None] - np.asarray(pts, float)[None])
        if Brute.metric == "euclidean":
            d = (d**2).sum(-1)
        elif Brute.metric == "manhattan":
            d = d.sum(-1)
        else:
            d = (d**Brute.order).sum(-1)
        i = np.argsort(d, axis=1, kind="stable")[:, :num_neighbors]
        return i.astype(np.int32), np.take_along_axis(d, i, 1)


def stub():
    m = types.ModuleType("pyflann")
    m.FLANN = Brute

    def set_distance_type(distance_type, order=0):
        Brute.metric, Brute.order = distance_type, order
    m.set_distance_type = set_distance_type
    return m


class Library:
    """Which search library can be imported: scipy (not asking for FLANN),
    exact (a stand-in for FLANN, which is an approximate search and may find
    fewer neighbors than asked for), sklearn, kdtree."""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.saved = {k: sys.modules.get(k, 0) for k in ("pyflann", "sklearn", "sklearn.neighbors")}
        if self.name == "exact":
            sys.modules["pyflann"] = stub()
        if self.name in ("sklearn", "kdtree"):
            sys.modules["pyflann"] = None
        if self.name == "kdtree":
            sys.modules["sklearn"] = sys.modules["sklearn.neighbors"] = None

    def __exit__(self, *a):
        for k, v in self.saved.items():
            if v == 0:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


METRICS = ["euclidean", "manhattan", "max_dist", "minkowski"]


def options(rng, n, lib=None):
    """Parameters of the spec, and arguments of the call."""
    lib = lib or str(rng.choice(["scipy", "scipy", "exact", "sklearn", "kdtree"]))
    kind = str(rng.choice(["knn", "knn", "radius"])) if lib == "scipy" else "knn"
    metric = str(rng.choice(METRICS))
    if lib == "exact" and metric == "max_dist":
        metric = "euclidean"
    order = int(rng.integers(1, 5)) if metric == "minkowski" else 0
    k = int(rng.integers(1, n))
    sigma = float(rng.choice([0, 0, .25, 1, 2]))
    sym = str(rng.choice(["average", "average", "maximum", "fill", "tril", "triu"]))
    eps = float(rng.choice([.4, .8, 1.5, 3]))
    kw = dict(NNtype=kind, dist_type=metric)
    if lib != "scipy":
        kw["use_flann"] = True
    if metric == "minkowski":
        kw["order"] = order
    if kind == "knn":
        kw["k"] = k
    else:
        kw["epsilon"] = eps
        k = 0
    if sigma:
        kw["sigma"] = sigma
    if sym != "average" or rng.random() < .5:
        kw["symmetrize_type"] = sym
    center, rescale = bool(rng.integers(2)), bool(rng.integers(2))
    if not center or rng.random() < .5:
        kw["center"] = center
    if not rescale or rng.random() < .5:
        kw["rescale"] = rescale
    spec = dict(type=kind, metric=metric, order=order, k=k, sigma=enc.num(sigma), sym=sym, eps=enc.num(eps),
                center=enc.flag(center), rescale=enc.flag(rescale), lib=lib)
    return spec, kw


def cloud(rng, n, d):
    c = int(rng.integers(6))
    if c == 0:
        X = np.round(rng.normal(size=(n, d)), 3)
    elif c == 1:
        X = rng.integers(0, 3, (n, d)).astype(float)         # ties and duplicates
    elif c == 2:
        X = np.round(rng.random((n, d)), 2)
        X[rng.integers(n)] = X[0]
        X[n // 2:n // 2 + 2] = X[0]                          # a point given three times
    elif c == 3:
        X = rng.integers(-4, 5, (n, d))
    elif c == 4:
        X = np.round(rng.normal(size=(n, d)), 3).astype(np.float32)
    else:
        X = np.round(rng.normal(size=(n, d)) * [1, .01, 3][:d] + 5, 3)
    if (np.asarray(X) == X[0]).all():
        X = X + np.arange(n)[:, None].astype(X.dtype)
    return X


def points(ctx, rng):
    from pygsp import graphs
    n, d = int(rng.integers(3, 11)), int(rng.integers(1, 4))
    X = cloud(rng, n, d)
    spec, kw = options(rng, n)
    if X.dtype == np.float32 and not kw.get("center", True) and not kw.get("rescale", True):
        X = X.astype(float)
    if spec["type"] == "radius":
        # measure in the space of the features; a pair at least must be close
        F = X - X.mean(0) if kw.get("center", True) else X
        if kw.get("rescale", True):
            F = F * (n**(1 / min(d, 3)) / 10 / (.5 * np.linalg.norm(F.max(0) - F.min(0))))
        D = np.abs(F[:, None] - F[None]).max(-1) + np.eye(n) * 1e9
        if D.min() > kw["epsilon"] / 3 or D.min() == 0:
            kw["sigma"] = .5
            spec["sigma"] = enc.num(.5)
    elif not spec["sigma"] and max(np.unique(X, axis=0, return_counts=True)[1]) > spec["k"]:
        # the mean neighbor distance may be zero
        kw["sigma"] = .5
        spec["sigma"] = enc.num(.5)
    attrs = [kw.get("NNtype"), str(kw.get("use_flann", False)), str(kw.get("k", 10)), kw.get("symmetrize_type", "average"),
             kw["dist_type"], str(kw.get("center", True)), str(kw.get("rescale", True))]
    form = str(rng.choice(["array", "array", "fortran", "list"]))
    arg = np.asfortranarray(X) if form == "fortran" else X.tolist() if form == "list" else X
    if form == "list" and not kw.get("center", True):
        arg = X

    def run():
        with Library(spec["lib"]):
            G = graphs.NNGraph(arg, **kw)
        return dict(W=enc.arr(G.W), coords=enc.arr(G.coords), Xin=enc.arr(G.Xin), sigma=enc.num(G.sigma),
                    attrs=[str(G.NNtype), str(G.use_flann), str(G.k), str(G.symmetrize_type), str(G.dist_type),
                           str(G.center), str(G.rescale)])
    ctx.rec("points", dict(spec, X=enc.arr(X), attrs=attrs), run)


def image(rng):
    h, w = int(rng.integers(2, 5)), int(rng.integers(2, 5))
    sh = (h, w) if rng.random() < .6 else (h, w, int(rng.integers(1, 4)))
    img = np.round(rng.random(sh), 2) if rng.random() < .6 else rng.integers(0, 4, sh) / 4
    img.flat[0] = .93
    img.flat[-1] = .11
    patch = [int(rng.integers(1, 6))] if rng.random() < .3 else [int(rng.integers(1, 6)), int(rng.integers(1, 6))]
    return img, patch


def images(ctx, rng, union):
    from pygsp import graphs
    img, patch = image(rng)
    n = img.shape[0] * img.shape[1]
    spec, kw = options(rng, n, lib="scipy")
    kw.update(NNtype="knn")
    kw.pop("epsilon", None)
    spec.update(type="knn", k=int(rng.integers(1, n)))
    kw["k"] = spec["k"]
    if not spec["sigma"]:
        spec["sigma"] = enc.num(.5)
        kw["sigma"] = .5
    if patch != [3, 3] or rng.random() < .5:
        kw["patch_shape"] = tuple(patch)
    inp = dict(spec, img=enc.arr(img), patch=patch)
    if not union:
        def run():
            G = graphs.ImgPatches(img, **kw)
            return dict(W=enc.arr(G.W), coords=enc.arr(G.coords), Xin=enc.arr(G.Xin), sigma=enc.num(G.sigma))
        ctx.rec("image", inp, run)
        return
    agg = str(rng.choice(["sum", "weighted", "grid", "max"]))
    f = dict(sum=None, weighted=lambda Wp, Wg: Wp + 2 * Wg, grid=lambda Wp, Wg: Wg, max=lambda Wp, Wg: Wp.maximum(Wg))[agg]
    if f is not None:
        kw["aggregate"] = f

    def run():
        G = graphs.Grid2dImgPatches(img, **kw)
        return dict(W=enc.arr(G.W), coords=enc.arr(G.coords), Wp=enc.arr(G.Gp.W), Xin=enc.arr(G.Gp.Xin),
                    fcoords=enc.arr(G.Gp.coords), sigma=enc.num(G.Gp.sigma))
    ctx.rec("union", dict(inp, agg=agg), run)


def cases(ctx):
    res = []
    for rep in range(2400 if ctx.thorough else 140):
        res.append(("points-%d" % rep, lambda ctx: [points(ctx, ctx.rng(i)) for i in range(8)]))
    for rep in range(600 if ctx.thorough else 40):
        res.append(("image-%d" % rep, lambda ctx: [images(ctx, ctx.rng(i), i % 2) for i in range(4)]))
    return res
