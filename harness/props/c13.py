"""C13: deterministic constructors."""
import json
import os

import numpy as np
from scipy import io, sparse

from .. import core, enc, gen

MODULE = "TraceC13"
NONE = {"s": [-1], "v": []}


def models(tier):
    return [dict(module="ConstructorsMC")]


def use_model(m, res, workdir):
    xs = sorted(set(p[2:] for p in res["prints"] if p.startswith("C ")))
    with open(os.path.join(workdir, "constructors.json"), "w") as fh:
        fh.write("[" + ",".join(xs) + "]")


def make(c, p, **kw):
    from pygsp import graphs
    if c == "DirectedPath":
        return graphs.Path(p[0], directed=True, **kw)
    return getattr(graphs, c)(*p, **kw)


NAMES = dict(Ring=["k"], Comet=["k"], Grid2d=["N1", "N2"], Torus=["Nv", "Mv"], LowStretchTree=["k", "root"],
             Path=["directed"], DirectedPath=["directed"])


def expected_attrs(c, p):
    return {"Ring": lambda: [p[1]], "Comet": lambda: [p[1]], "Grid2d": lambda: p, "Torus": lambda: p,
            "LowStretchTree": lambda: [p[0], 4**(p[0] - 1)], "Path": lambda: [0], "DirectedPath": lambda: [1]
            }.get(c, lambda: [])()


def construct(ctx, c, p, rng):
    w = float(rng.choice([0, .5, 1, 2.25])) if c == "Grid2d" else 0.
    lt = str(rng.choice(["", "combinatorial", "normalized"]))
    kw = {"lap_type": lt} if lt else {}
    if c == "Grid2d" and (w or rng.random() < .5):
        kw["diagonal"] = w
    size = int(rng.integers(1, 99)) if c in ("Star", "Comet") and rng.random() < .5 else 0
    if size:
        kw["plotting"] = {"vertex_size": size}
    q = list(p)
    if len(p) == 2 and p[0] == p[1] and c in ("Grid2d", "Torus") and rng.random() < .5:
        q = p[:1]            # the second size defaults to the first
    if c == "Ring" and p[1] == 1 and rng.random() < .5:
        q = p[:1]

    def run():
        G = make(c, q, **kw)
        n = G.N
        return dict(W=enc.arr(G.W), coords=enc.arr(G.coords) if hasattr(G, "coords") else NONE,
                    attrs=[int(getattr(G, a)) for a in NAMES.get(c, [])], lt=G.lap_type,
                    drawn=int(G.plotting["vertex_size"]), L=enc.arr(G.L) if n <= 40 else NONE)
    ctx.rec("construct", dict(c=c, p=p, size=size, w=enc.num(w), lt=lt or "combinatorial", attrs=expected_attrs(c, p)), run)


def line(ctx, rng):
    from pygsp import graphs
    n = int(rng.integers(2, 7))
    W = gen.random_weights(rng, n, bool(rng.integers(2)), False, rng.choice([.3, .6, 1]), isolated=rng.random() < .3,
                           binary=rng.random() < .3)
    if not W.any():
        W[0, 1] = W[1, 0] = 1
    d = int(rng.integers(0, 4))
    coords = np.round(rng.normal(size=(n, d)), 3) if d else None
    norm = rng.random() < .4

    def run():
        G = graphs.Graph(W, coords=coords) if d else graphs.Graph(W)
        if rng.random() < .3:
            gen.perturb(G, rng, 1, ["layout"])
        if norm:
            G.compute_laplacian("normalized")
        H = graphs.LineGraph(G)
        s, t, w = G.get_edge_list()
        return dict(src=enc.idx(s), tgt=enc.idx(t), wgt=enc.arr(w), W=enc.arr(H.W),
                    coords=enc.arr(H.coords) if hasattr(H, "coords") else NONE)
    ctx.rec("line", dict(W=enc.arr(W), coords=enc.arr(coords) if d else NONE), run)


def load(name):
    return io.loadmat(os.path.join(core.REPO, "pygsp", "data", "pointclouds", name + ".mat"))


def triples(W, weights=True):
    W = sparse.triu(sparse.coo_matrix(W)).tocsr()
    W.eliminate_zeros()
    W = W.tocoo()
    return [[int(i), int(j), enc.num(v) if weights else 0] for i, j, v in zip(W.row, W.col, W.data)]


def spoil(G):
    """Write over everything the graph hands out."""
    for a in (G.W.data, getattr(G, "coords", None), getattr(G, "labels", None), getattr(G, "Xin", None)):
        if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind in "fiub":
            a[...] = 1
    for v in getattr(G, "info", {}).values():
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = 0


def dataset(ctx, name, again, **kw):
    from pygsp import graphs
    inp = dict(name=name, connected="F" if kw.get("connected") is False else "T", info=[])
    if name == "Airfoil":
        d = load("airfoil")
        i, j = d["i_inds"].ravel().astype(int) - 1, d["j_inds"].ravel().astype(int) - 1
        inp.update(e=[[int(a), int(b), 0] for a, b in zip(i, j)], n=4253,
                   coords=enc.arr(np.concatenate([d["x"], d["y"]], axis=1)))
    elif name == "Minnesota":
        d = load("minnesota")
        inp.update(e=triples(d["A"]), n=2642, coords=enc.arr(d["xy"]))
    elif name == "Logo":
        d = load("logogsp")
        inp.update(e=triples(d["W"]), n=1130, coords=enc.arr(d["coords"]),
                   info=[enc.idx(np.asarray(d[k]).astype(int) - 1) for k in ("idx_g", "idx_s", "idx_p")])
    else:
        N = kw.get("N", 64)
        d = load("david%d" % N)
        inp.update(e=triples(d["W"]), n=N, coords=enc.arr(d["coords"]))

    def run():
        if again:
            spoil(getattr(graphs, name)(**kw))
        G = getattr(graphs, name)(**kw)
        return dict(e=triples(G.W), n=G.n_vertices, coords=enc.arr(G.coords),
                    directed=enc.flag(G.is_directed()), symmetric=enc.flag(bool((abs(G.W.astype(float) - G.W.T.astype(float))).sum() == 0)),
                    info=[enc.idx(G.info[k].astype(int)) for k in ("idx_g", "idx_s", "idx_p")] if name == "Logo" else [])
    ctx.rec("data", inp, run, timeout=120)


def points(ctx, name, again, count, rng, **kw):
    from pygsp import graphs
    if name == "Bunny":
        X, milli = np.asarray(load("bunny")["bunny"], dtype=float), 1000
    else:
        X, milli = load("two_moons")["features"][:kw.get("dim", 2)].T, 1
    sample = sorted(int(i) for i in rng.permutation(len(X))[:count])

    def run():
        if again:
            spoil(getattr(graphs, name)(**kw))
        G = getattr(graphs, name)(**kw)
        return dict(n=G.n_vertices, same=enc.flag(bool(np.array_equal(G.coords, X) and np.array_equal(G.Xin, X))),
                    rows=[[enc.num(v) for v in G.W[i].toarray().ravel()] for i in sample],
                    symmetric=enc.flag(bool(abs(G.W - G.W.T).max() < 1e-12)), sigma=enc.num(G.sigma),
                    labels=[int(v) for v in G.labels] if name == "TwoMoons" else [])
    ctx.rec("points", dict(name=name, points=enc.arr(X * milli), milli=milli, sample=sample,
                           sigma=enc.num(kw.get("sigmag", .05))), run, timeout=300)


def cases(ctx):
    with open(os.path.join(ctx.workdir, "constructors.json")) as fh:
        small = json.load(fh)
    res = []
    for b in range(0, len(small), 8):
        def fn(ctx, part=small[b:b + 8]):
            for i, x in enumerate(part):
                for k in range(4 if ctx.thorough else 2):
                    construct(ctx, x["c"], x["p"], ctx.rng(i, k))
        res.append(("small-%d" % b, fn))
    hi = 45 if ctx.thorough else 24
    for rep in range(400 if ctx.thorough else 40):
        def fn(ctx):
            rng = ctx.rng()
            n = int(rng.integers(10, hi))
            c = str(rng.choice(["Path", "DirectedPath", "Star", "FullConnected", "Ring", "Comet", "Grid2d", "Torus"]))
            p = {"Ring": lambda: [n, int(rng.integers(1, n // 2 + 1))], "Comet": lambda: [n, int(rng.integers(0, n))],
                 "Grid2d": lambda: [int(rng.integers(1, 7)), int(rng.integers(2, 7))],
                 "Torus": lambda: [int(rng.integers(3, 7)), int(rng.integers(3, 7))]}.get(c, lambda: [n])()
            construct(ctx, c, p, rng)
        res.append(("large-%d" % rep, fn))
    if ctx.thorough:
        res.append(("tree-4", lambda ctx: construct(ctx, "LowStretchTree", [4], ctx.rng())))
    for rep in range(600 if ctx.thorough else 60):
        res.append(("line-%d" % rep, lambda ctx: [line(ctx, ctx.rng(i)) for i in range(3)]))
    for again in (False, True):
        for name, kw in [("Airfoil", {}), ("Minnesota", {}), ("Minnesota", dict(connected=False)), ("Logo", {}),
                         ("DavidSensorNet", {}), ("DavidSensorNet", dict(N=500))]:
            label = "%s%s-%d" % (name, "-" + "".join(map(str, kw.values())) if kw else "", again)
            res.append((label, lambda ctx, name=name, kw=kw, again=again: dataset(ctx, name, again, **kw)))
    count = 60 if ctx.thorough else 8
    for again in (False, True):
        res.append(("Bunny-%d" % again, lambda ctx, again=again: points(ctx, "Bunny", again, count, ctx.rng())))
        for kw in (dict(), dict(dim=3), dict(sigmag=.2)):
            res.append(("TwoMoons-%s-%d" % ("".join(map(str, kw.values())), again),
                        lambda ctx, kw=kw, again=again: points(ctx, "TwoMoons", again, count, ctx.rng(), **kw)))
    return res
