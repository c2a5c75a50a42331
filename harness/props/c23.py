"""C23: layouts."""
import json
import os

import numpy as np

from .. import enc, gen, ref

MODULE = "TraceC23"


def models(tier):
    return [dict(module="LayoutMC", cfg="LayoutMC"), dict(module="LayoutMC", cfg="LayoutMC6")]


def use_model(m, res, workdir):
    xs = sorted(set(p[2:] for p in res["prints"] if p.startswith("L ")))
    with open(os.path.join(workdir, "%s.json" % m["cfg"]), "w") as fh:
        fh.write("[" + ",".join(xs) + "]")


def snapshot(G, spectrum=True):
    G.L
    return (G.N, enc.exact(G.W), enc.exact(G.L), G.lap_type, (G._lmax, G._lmax_method) if spectrum else None, sorted(G.signals),
            [enc.exact(v) for v in G.signals.values()], G.is_directed(), enc.exact(G.d), enc.exact(G.dw))


def build(W, rng, com=None, rad=None):
    from pygsp import graphs
    G = graphs.Graph(W) if rng.random() < .5 else graphs.Graph(gen.as_format(W, "csr"))
    lt = "normalized" if rng.random() < .3 else "combinatorial"
    if lt == "normalized":
        G.compute_laplacian(lt)
    if com is not None:
        com = [int(c) for c in com]
        G.info = {"node_com": com if rng.random() < .5 else np.array(com)}
        if rad is not None:
            G.info["world_rad"] = rad
    return G


def place(ctx, G, W, kind, rng, com=None, rad=None, opts=None, refused=False, why=None, infocom=None):
    """Set the coordinates of G, which had some (or none) before."""
    from pygsp import graphs
    n = G.N
    opts = dict(opts or {})
    seed = int(rng.integers(10**6)) if rng.random() < .7 else 0
    layout, arg = kind, kind
    before = enc.exact(G.coords) if getattr(G, "coords", None) is not None else {"s": [-1], "v": []}
    r = dict(layout=layout, n=n, W=enc.arr(W), lt=G.lap_type, refused=enc.flag(refused), prev=before, draws="F")
    if why:
        r["why"] = why
    kw = {}
    if not isinstance(kind, str):
        r["layout"] = "array"
        r["given"] = enc.exact(kind)
    elif kind == "spring":
        kw = dict(opts)
        dim = opts.get("dim", 2)
        fixed = opts.get("fixed", [])
        iters = opts.get("iterations", 50)
        r["draws"] = enc.flag("pos" not in opts and n > 2)
        if not refused:
            H = graphs.Graph(W)
            if "pos" in opts:
                start = np.array(opts["pos"], dtype=float)
            else:
                H.set_coordinates("spring", seed=seed, dim=dim, fixed=[0], iterations=0)
                start = H.coords
            r.update(dim=dim, fixed=[int(f) for f in fixed], iters=iters, k=enc.num(opts.get("k", 0)), scale=enc.num(opts.get("scale", 1)),
                     center=enc.arr(np.ravel(opts.get("center", np.zeros(dim)))), pos=enc.arr(start), haspos=enc.flag("pos" in opts))
    elif kind.startswith("laplacian") and not refused:
        r["ref"] = ref.certificate(W, G.lap_type)
    elif kind == "community2D" and not refused:
        r["com"] = [int(c) for c in com]
        r["rad"] = enc.num(np.sqrt(n) if rad is None else rad)
    named = isinstance(kind, str)
    if named and kind in ("random2D", "random3D", "community2D"):
        r["draws"] = "T"
    if named and kind in ("spring", "random2D", "random3D", "community2D"):
        kw["seed"] = seed
    if named and kind == "spring" and not kw.keys() - {"seed"} and rng.random() < .5:
        call = lambda G, **k: G.set_coordinates(**k)
    elif rng.random() < .3:
        call = lambda G, **k: G.set_coordinates(kind=arg, **k)
    else:
        call = lambda G, **k: G.set_coordinates(arg, **k)

    def run():
        spectrum = not (named and kind.startswith("laplacian"))      # eigenmaps compute a Fourier basis
        state = snapshot(G, spectrum)
        info = set(getattr(G, "info", {}))
        o = dict(err="")
        try:
            call(G, **kw)
        except Exception as e:
            o["err"] = type(e).__name__
        o["stays"] = enc.flag(snapshot(G, spectrum) == state and (not o["err"] or set(getattr(G, "info", {})) == info))
        has = getattr(G, "coords", None) is not None
        o["coords"] = enc.arr(G.coords) if has else {"s": [-1], "v": []}
        o["exact"] = enc.exact(G.coords) if has else {"s": [-1], "v": []}
        if not refused and r["draws"] == "T":
            def again(**k):
                H = build(W, rng, com, rad)
                if rng.random() < .5:
                    H.set_coordinates("ring2D")
                call(H, **k)
                return enc.exact(H.coords)
            o["again"] = again(**kw)
            o["other"] = again(**dict(kw, seed=kw["seed"] + 1)) if rng.random() < .5 else again(**{k: v for k, v in kw.items() if k != "seed"})
        if named and not refused and kind == "community2D":
            o["centers"] = enc.arr(G.info["com_coords"])
            o["rad"] = enc.num(G.info["world_rad"])
            o["sizes"] = [enc.integer(v) for v in G.info["comm_sizes"]]
        return o
    ctx.rec("layout", r, run)


def good_array(n, d, rng):
    x = rng.normal(size=(n, d)) if d > 1 else rng.normal(size=n)
    c = rng.integers(6)
    if c == 0:
        return x.tolist()
    if c == 1:
        return np.asfortranarray(x)
    if c == 2:
        return np.rint(x * 9).astype(int)
    if c == 3 and d == 1:
        return x[:, None]
    if c == 4 and d > 1:
        return x[:, None, :]
    return x


def spring_options(n, rng, dim=None):
    o = {}
    d = dim or int(rng.choice([2, 2, 3]))
    if d != 2 or rng.random() < .3:
        o["dim"] = d
    if rng.random() < .5:
        o["iterations"] = int(rng.choice([0, 1, 1, 2, 3, 10, 51]))
    if rng.random() < .5:
        o["scale"] = float(rng.choice([.25, 2, 10.5]))
    if rng.random() < .5:
        o["center"] = (rng.integers(-40, 41, (1, d)) / 8)
        if rng.random() < .4:
            o["center"] = o["center"].tolist()
    if rng.random() < .5:
        c = rng.integers(5)
        p = rng.integers(-8, 9, (n, d)) / 4
        p = np.abs(p) if c == 0 else -np.abs(p) if c == 1 else p
        o["pos"] = p.tolist() if rng.random() < .3 else p
    if rng.random() < .4:
        f = [int(i) for i in rng.permutation(n)[:rng.integers(1, n + 1)]]
        o["fixed"] = f if rng.random() < .6 else np.array(f) if rng.random() < .5 else tuple(f)
    if rng.random() < .4:
        o["k"] = float(rng.choice([.25, .5, 1, 2]))
    return o


def action(ctx, G, W, a, rng, com, good):
    """An action of the model."""
    n = G.N
    if a.startswith("array") and a[-1].isdigit():
        place(ctx, G, W, good_array(n, int(a[-1]), rng), rng)
    elif a in ("line1D", "line2D", "ring2D", "random2D", "random3D"):
        place(ctx, G, W, a, rng)
    elif a == "spring":
        place(ctx, G, W, "spring", rng, opts=dict(iterations=int(rng.choice([1, 2, 5]))))
    elif a == "spring3":
        place(ctx, G, W, "spring", rng, opts=dict(dim=3, iterations=2))
    elif a == "fixed":
        place(ctx, G, W, "spring", rng, opts=dict(pos=rng.integers(-8, 9, (n, 2)) / 4, fixed=[int(rng.integers(n))], iterations=2))
    elif a == "array-short":
        m = [n - 1, n + 1, 2 * n, 3 * n][int(rng.integers(4))]
        place(ctx, G, W, good_array(m, int(rng.integers(1, 4)), rng), rng, refused=True, why="ValueError")
    elif a == "array-wide":
        x = rng.normal(size=[(n, 4), (n, 5), (n, 2, 2), (2, n + 1), (n, n + 5)][int(rng.integers(5))])
        place(ctx, G, W, x, rng, refused=True, why="ValueError")
    elif a == "spring-pos":
        o = [dict(pos=rng.normal(size=(n - 1, 2))), dict(pos=rng.normal(size=(n, 3))), dict(pos=rng.normal(size=(n, 2)), dim=3),
             dict(unknown=1)][int(rng.integers(4))]
        place(ctx, G, W, "spring", rng, opts=o, refused=True)
    elif a == "unknown":
        place(ctx, G, W, ["unknown", "", "Spring", "ring", "random", "line3D", "community"][int(rng.integers(7))], rng, refused=True, why="ValueError")
    elif a.startswith("laplacian"):
        bad = n < (3 if a.endswith("2D") else 4)
        place(ctx, G, W, a, rng, refused=bad)
    elif a == "community2D":
        if good is None:
            place(ctx, G, W, a, rng, refused=True, why="AttributeError")
        else:
            place(ctx, G, W, a, rng, com=com, refused=not good)


def communities(n, good, rng):
    if good is None:
        return None
    if good:
        nc = int(rng.integers(1, n + 1))
        return rng.permutation(np.concatenate([np.arange(nc), rng.integers(nc, size=n - nc)]))
    com = rng.integers(0, 2, n) * 2 if rng.random() < .5 else rng.integers(1, 3, n)
    com[rng.integers(n)] = 2
    com[com == 0] = 1 if not (com == 0).any() else 0
    if len(set(com)) - 1 >= com.max():
        com = np.full(n, 1)
    return com if rng.random() < .7 else com[:-1] * 0


def simple_spectrum(rng, n):
    """Connected, with well separated eigenvalues for both Laplacians."""
    while True:
        W = gen.connected_weights(rng, n, unit=1 / 8)
        gaps = [np.diff(np.linalg.eigvalsh(ref.laplacian(W, lt)))[:4] for lt in ("combinatorial", "normalized")]
        if min(g.min() for g in gaps) > 1e-2:
            return W


def history(ctx, x, n, i):
    rng = ctx.rng(i)
    W = simple_spectrum(rng, n)
    good = {"none": None, "good": True, "bad": False}[x["com"]]
    com = communities(n, good, rng)
    G = build(W, rng, com)
    c = int(rng.integers(5))
    if c == 0:
        G.compute_fourier_basis()
    elif c == 1 and n > 3:
        G.compute_fourier_basis(2)
    elif c == 2 and n > 5:
        G.compute_fourier_basis(5)
    elif c == 3:
        G.set_coordinates("ring2D")
    if rng.random() < .3:
        G.set_signal(rng.normal(size=n), "s")
    for a in x["hist"]:
        if rng.random() < .2:
            gen.perturb(G, rng, 1, exclude=("layout", "signal", "bad", "line"))
        action(ctx, G, W, a, rng, com, good)


def random_layouts(ctx, i):
    rng = ctx.rng(i)
    n = int(rng.choice([1, 2, 3, 5, 6, 7]))
    W = gen.random_weights(rng, n, loops=rng.random() < .3)
    G = build(W, rng)
    for j in range(3):
        place(ctx, G, W, "spring", rng, opts=spring_options(n, rng))
    n = int(rng.choice([1, 2, 3, 9, 100, 120]))
    W = gen.random_weights(rng, n, directed=rng.random() < .3, density=.1)
    com = communities(n, True, rng)
    rad = float(rng.integers(1, 30) / 4) if rng.random() < .5 else None
    G = build(W, rng, com, rad)
    for kind in rng.permutation(["random2D", "random3D", "community2D", "line1D", "line2D", "ring2D", "spring", "array"])[:3]:
        if kind == "spring":
            place(ctx, G, W, "spring", rng, opts=dict(dim=int(rng.choice([2, 3])), iterations=4))
        elif kind == "array":
            place(ctx, G, W, good_array(n, int(rng.integers(1, 4)) if n > 1 else 2, rng), rng) if n > 1 else None
        else:
            place(ctx, G, W, str(kind), rng, com=com, rad=rad)
    if n > 20:
        return
    m = int(rng.integers(4, 12))
    W = simple_spectrum(rng, m)
    G = build(W, rng)
    for kind in rng.permutation(["laplacian_eigenmap2D", "laplacian_eigenmap3D", "switch"]):
        if kind == "switch":
            G.compute_laplacian("normalized" if G.lap_type == "combinatorial" else "combinatorial")
        else:
            place(ctx, G, W, str(kind), rng)


def generated(ctx, i):
    """Graphs of the package which have communities."""
    from pygsp import graphs
    rng = ctx.rng(i)
    if i % 2:
        n = int(rng.integers(8, 30))
        nc = int(rng.integers(1, 5))
        G = graphs.Community(n, Nc=nc, seed=int(rng.integers(1000)), min_comm=1)
    else:
        n = int(rng.integers(4, 30))
        G = graphs.StochasticBlockModel(n, k=int(rng.integers(1, 4)), p=.7, q=.2, seed=int(rng.integers(1000)))
    com = np.asarray(G.info["node_com"])
    if set(com) != set(range(max(com) + 1)) or len(G.info["comm_sizes"]) != max(com) + 1:
        return
    rad = G.info.get("world_rad")
    W = G.W.toarray().astype(float)
    place(ctx, G, W, "community2D", rng, com=com, rad=rad)


def cases(ctx):
    res = []
    for m in models(ctx.tier):
        with open(os.path.join(ctx.workdir, "%s.json" % m["cfg"])) as fh:
            xs = json.load(fh)
        n = 3 if m["cfg"] == "LayoutMC" else 6
        if n == 6 and not ctx.thorough:
            xs = xs[ctx.seed % 25::25]
        for b in range(0, len(xs), 40):
            res.append(("%s-%d" % (m["cfg"], b),
                        lambda ctx, part=xs[b:b + 40], n=n: [history(ctx, x, n, i) for i, x in enumerate(part)]))
    for rep in range(24 * (15 if ctx.thorough else 1)):
        res.append(("rand-%d" % rep, lambda ctx: [random_layouts(ctx, i) for i in range(5)]))
    for rep in range(4 * (10 if ctx.thorough else 1)):
        res.append(("generated-%d" % rep, lambda ctx: [generated(ctx, i) for i in range(8)]))
    return res
