"""C14: random constructors."""
import hashlib
import json
import os

import numpy as np

from .. import enc

MODULE = "TraceC14"
NONE = {"s": [-1], "v": []}


def models(tier):
    return [dict(module="RandomGraphsMC", cfg="RandomGraphsMC5" if tier == "thorough" else "RandomGraphsMC", workers=1)]


def use_model(m, res, workdir):
    xs = sorted(set(p[2:] for p in res["prints"] if p.startswith("P ")))
    with open(os.path.join(workdir, "blocks.json"), "w") as fh:
        fh.write("[" + ",".join(xs) + "]")


def some_seed(rng):
    return int(rng.choice([0, 1, 42, int(rng.integers(2**31))]))


def observe_sbm(G):
    return dict(W=enc.arr(G.W), z=enc.idx(G.z), M=enc.arr(G.M), node_com=enc.idx(G.info["node_com"]),
                sizes=enc.idx(G.info["comm_sizes"]), rad=enc.num(G.info["world_rad"]))


def sbm_model(ctx, par, rng):
    from pygsp import graphs
    P = np.array(par["P"], float) / enc.SCALE
    z = np.array(par["z"]) - 1
    n = len(z)
    kw = dict(directed=par["directed"], self_loops=par["loops"], connected=par["connected"])
    ctx.rec("sbm", dict(N=n, k=2, z=enc.idx(z), M=enc.arr(P), p=NONE, q=NONE, directed=enc.flag(kw["directed"]),
                        loops=enc.flag(kw["self_loops"]), connected=enc.flag(kw["connected"])),
            lambda: observe_sbm(graphs.StochasticBlockModel(N=n, k=2, z=z, M=P, seed=some_seed(rng), n_try=3, **kw)))


def sbm(ctx, rng):
    from pygsp import graphs
    n, k = int(rng.integers(2, 13)), int(rng.integers(1, 5))
    kw = dict(seed=some_seed(rng))
    inp = dict(N=n, k=k, M=NONE, p=NONE, q=NONE, z=NONE)
    for name, key in (("directed", "directed"), ("self_loops", "loops"), ("connected", "connected")):
        v = bool(rng.random() < .4)
        inp[key] = enc.flag(v)
        if v or rng.random() < .5:
            kw[name] = v
    if rng.random() < .4:
        z = rng.integers(0, k, n)       # in any order
        if rng.random() < .5:
            z.sort()
        kw["z"] = z
        inp["z"] = enc.idx(z)
    levels = [0, .25, .5, .75, 1]
    er = k == 1 and "z" not in kw and rng.random() < .7
    if er:
        p = float(rng.choice(levels))
        inp["p"], inp["q"] = enc.arr([p]), enc.arr([0])
        if rng.random() < .2:
            p, inp["p"] = None, enc.arr([.1])   # the default
    elif rng.random() < .5:
        M = rng.choice(levels, (k, k))
        kw["M"] = M.tolist() if rng.random() < .5 else M
        inp["M"] = enc.arr(M)
    else:
        p = rng.choice(levels, k) if rng.random() < .5 else float(rng.choice(levels))
        inp["p"] = enc.arr(np.atleast_1d(p))
        if np.ndim(p):
            p = p.tolist() if rng.random() < .5 else p
        kw["p"] = p
        inp["q"] = enc.arr([.3 / k])
        if rng.random() < .8:
            q = rng.choice(levels, (k, k)) if rng.random() < .5 else float(rng.choice(levels))
            inp["q"] = enc.arr(np.ravel(q))
            kw["q"] = q
    if rng.random() < .5:
        kw["n_try"] = int(rng.integers(1, 6))

    def run():
        if er:
            return observe_sbm(graphs.ErdosRenyi(N=n, **kw, **({} if p is None else dict(p=p))))
        return observe_sbm(graphs.StochasticBlockModel(N=n, k=k, **kw))
    ctx.rec("sbm", inp, run)


def patient(ctx, rng):
    """Trials go on until the graph is connected."""
    from pygsp import graphs
    n = 8
    directed = bool(rng.integers(2))
    ctx.rec("sbm", dict(N=n, k=1, M=NONE, p=enc.arr([.25]), q=enc.arr([0]), z=NONE, loops="F", connected="T", directed=enc.flag(directed)),
            lambda: observe_sbm(graphs.ErdosRenyi(N=n, p=.25, directed=directed, connected=True, n_try=None, seed=some_seed(rng))))


def frequencies(ctx, rng, directed, loops):
    from pygsp import graphs
    z = np.array([0, 0, 0, 1, 1, 1, 2, 2])
    M = np.array([[50, 10, 80], [30, 25, 90], [5, 60, 40]])
    if not directed:
        M = np.maximum(M, M.T)
    R = 150
    groups = [(a, b) for a in range(3) for b in range(3) if directed or a >= b] + (["loops0", "loops1"] if loops else [])
    ii, jj = np.indices((8, 8))
    masks, prob = [], []
    for g in groups:
        if isinstance(g, str):
            b = int(g[-1])
            masks.append((ii == jj) & (z[ii] == b))
            prob.append(int(M[b, b]))
        else:
            masks.append((z[ii] == g[0]) & (z[jj] == g[1]) & ((ii != jj) if directed else (ii > jj)))
            prob.append(int(M[g]))
    seeds = rng.integers(0, 2**31, R)

    def run():
        T = sum(graphs.StochasticBlockModel(N=8, k=3, z=z, M=M / 100, directed=directed, self_loops=loops, seed=int(s)).W.toarray() > 0
                for s in seeds)
        return dict(counts=[int(T[m].sum()) for m in masks])
    ctx.rec("counts", dict(draws=[int(R * m.sum()) for m in masks], prob=prob), run, timeout=100)


def blocks_drawn(ctx, rng):
    """Without labels, every vertex is as likely in each block."""
    from pygsp import graphs
    seeds = rng.integers(0, 2**31, 60)
    ctx.rec("counts", dict(draws=[1200] * 4, prob=[25] * 4),
            lambda: dict(counts=[int(c) for c in sum(
                np.bincount(graphs.StochasticBlockModel(N=20, k=4, p=0., q=0., seed=int(s)).z, minlength=4) for s in seeds)]))


def trials(ctx, rng):
    """Each trial is another draw: with more of them, more seeds give a connected graph."""
    from pygsp import graphs
    seeds = rng.integers(0, 2**31, 400)

    def reached(**kw):
        c = 0
        for s in seeds:
            try:
                graphs.ErdosRenyi(connected=True, seed=int(s), **kw)
                c += 1
            except ValueError:
                pass
        return c
    asked = [(50, dict(N=3, p=.5, n_try=1)), (75, dict(N=3, p=.5, n_try=2)), (88, dict(N=3, p=.5, n_try=3)),
             (25, dict(N=2, p=.5, directed=True, n_try=1)), (58, dict(N=2, p=.5, directed=True, n_try=3)), (65, dict(N=2, p=.1))]
    ctx.rec("counts", dict(draws=[400] * len(asked), prob=[a[0] for a in asked], what="trials"),
            lambda: dict(counts=[reached(**a[1]) for a in asked]), timeout=100)


def preference(ctx, rng):
    from pygsp import graphs
    seeds = rng.integers(0, 2**31, 600)

    def run():
        c = np.zeros(4, int)
        for s in seeds:
            W = graphs.BarabasiAlbert(N=4, m0=2, m=1, seed=int(s)).W.toarray()
            first = int(np.flatnonzero(W[2, :2])[0])
            second = int(np.flatnonzero(W[3, :3])[0])
            c += [first == 0, second == first, second == 1 - first, second == 2]
        return dict(counts=[int(x) for x in c])
    ctx.rec("counts", dict(draws=[600] * 4, prob=[50, 40, 20, 40]), run)


def attachment(ctx, rng):
    from pygsp import graphs
    n = int(rng.integers(3, 25))
    m0 = int(rng.integers(1, min(n, 6)))
    m = int(rng.integers(1, m0 + 1))
    kw = dict(m0=m0, m=m)
    if m0 == m == 1 and rng.random() < .5:
        kw = {}
    ctx.rec("attachment", dict(N=n, m0=m0, m=m),
            lambda: dict(W=enc.arr(graphs.BarabasiAlbert(N=n, seed=some_seed(rng), **kw).W)))


def regular(ctx, rng):
    from pygsp import graphs
    n = int(rng.integers(4, 19))
    k = int(rng.integers(1, max(2, n // 2 + 1)))
    if n * k % 2:
        k += 1
    k = min(k, n - 1)
    if n * k % 2:
        k -= 1
    ctx.rec("regular", dict(N=n, k=k),
            lambda: dict(W=enc.arr(graphs.RandomRegular(N=n, k=k, max_iter=400, seed=some_seed(rng)).W)))


def community(ctx, rng):
    from pygsp import graphs
    n = int(rng.integers(6, 31))
    nc = int(rng.integers(1, 5))
    large = rng.random() < .25
    if large:
        n = int(rng.integers(25, 46))
        nc = int(rng.choice([1, 2, 5, 6, 7]))
    kw = dict(Nc=nc)
    inp = dict(N=n, Nc=nc, sizes=NONE, dens=0, kn=0, eps=0, world=-1, ratio=enc.SCALE)
    inp["minc"] = int(round(n / (3 * nc)))
    c = rng.integers(4)
    if c == 0:
        cut = np.sort(rng.integers(0, n + 1, nc - 1))
        sizes = np.diff(np.concatenate([[0], cut, [n]]))
        kw["comm_sizes"] = sizes.tolist() if rng.random() < .5 else sizes
        inp["sizes"] = enc.idx(sizes)
    elif c == 1:
        kw["min_comm"] = inp["minc"] = int(rng.integers(0, n // nc + 1))
    elif c == 2:
        kw.pop("Nc")
        nc = inp["Nc"] = int(round(np.sqrt(n) / 2))
        inp["minc"] = int(round(n / (3 * nc)))
    h = str(rng.choice(["density", "knn", "eps", "default"]))
    if h == "density":
        kw["comm_density"] = float(rng.integers(0, 9) / 8)
        inp["dens"] = enc.num(kw["comm_density"])
    elif h == "knn":
        kw["k_neigh"] = inp["kn"] = int(rng.integers(1, 16 if large else 6))
    elif h == "eps":
        kw["epsilon"] = float(rng.choice([.5, 1., 2.5]))
        inp["eps"] = enc.num(kw["epsilon"])
    else:
        inp["eps"] = enc.num(np.sqrt(2 * np.sqrt(n)) / 2)
    inp["how"] = "eps" if h == "default" else h
    if nc == 1:
        kw["world_density"] = 0.
        inp["world"] = 0
    elif rng.random() < .7:
        kw["world_density"] = float(rng.choice([0, .125, .25, .375, .5, .875, 1]))
        inp["world"] = enc.num(kw["world_density"])
    if rng.random() < .4:
        kw["size_ratio"] = float(rng.choice([.5, 2, 3]))
        inp["ratio"] = enc.num(kw["size_ratio"])

    def run():
        G = graphs.Community(N=n, seed=some_seed(rng), **kw)
        return dict(W=enc.arr(G.W), coords=enc.arr(G.coords), com=enc.idx(G.info["node_com"]), sizes=enc.idx(G.info["comm_sizes"]),
                    rad=enc.num(G.info["world_rad"]), centers=enc.arr(G.info["com_coords"]))
    ctx.rec("community", inp, run)


def ring(ctx, rng):
    from pygsp import graphs
    n = int(rng.integers(3, 15))
    kw = dict(N=n, seed=some_seed(rng))
    ang = NONE
    if rng.random() < .5:
        a = np.unique(np.round(rng.random(n) * (6.28 if rng.random() < .5 else 1.5), 3))
        if len(a) < 3:
            a = np.array([0, 1., 2.])
        rng.shuffle(a)
        ang = enc.arr(a)
        kw = dict(angles=a.tolist() if rng.random() < .5 else a)

    def run():
        G = graphs.RandomRing(**kw)
        return dict(W=enc.arr(G.W), coords=enc.arr(G.coords), angles=enc.arr(G.angles))
    ctx.rec("ring", dict(N=n, angles=ang), run)


def placed(ctx, rng):
    from pygsp import graphs
    c = str(rng.choice(["Sensor", "SensorGrid", "Sphere", "Cube", "TwoMoons"]))
    seed = some_seed(rng)
    inp = dict(c=c, k=10, sigma=0, side=0, radius=0, distance=0, exact="F", dim=2)
    kw = dict(seed=seed)
    if c == "Sensor":
        n, k = int(rng.integers(8, 19)), int(rng.integers(1, 8))
        inp.update(k=k)
        kw.update(N=n)
        if k == 6:
            pass
        else:
            kw.update(k=k)
    elif c == "SensorGrid":
        side = int(rng.integers(3, 5))
        n, k = side**2, int(rng.integers(1, 8))
        inp.update(k=k, side=side)
        kw.update(N=n, k=k, distributed=True)
    elif c == "Sphere":
        n, dim = int(rng.integers(11, 19)), int(rng.integers(2, 5))
        r = float(rng.choice([1, .5, 2.5]))
        inp.update(dim=dim, radius=enc.num(r))
        kw.update(nb_pts=n, nb_dim=dim, radius=r)
    elif c == "Cube":
        dim = int(rng.integers(2, 4))
        n = int(rng.choice([12, 18, 24])) if dim == 3 else int(rng.integers(11, 19))
        r = float(rng.choice([1, .5, 2.5]))
        inp.update(dim=dim, radius=enc.num(r))
        kw.update(nb_pts=n + (int(rng.integers(6)) if dim == 3 else 0), nb_dim=dim, radius=r)
    else:
        n = int(rng.integers(8, 19))
        s, d = float(rng.choice([0, .07])), float(rng.choice([.5, 0, 1, 2]))
        sg = float(rng.choice([.05, .5]))
        inp.update(k=5, sigma=enc.num(sg), distance=enc.num(d), exact=enc.flag(s == 0))
        kw.update(moontype="synthesized", N=n, sigmad=s, sigmag=sg, distance=d)
    inp["n"] = n
    cls = dict(SensorGrid="Sensor").get(c, c)

    def run():
        G = getattr(graphs, cls)(**kw)
        return dict(W=enc.arr(G.W), coords=enc.arr(G.coords), sigma=enc.num(G.sigma),
                    labels=enc.idx(G.labels)["v"] if cls == "TwoMoons" else [])
    ctx.rec("placed", inp, run)


def roll(ctx, rng):
    from pygsp import graphs
    n, dim = int(rng.integers(4, 25)), int(rng.choice([2, 3, 3]))
    a, b = [(1, 4), (0, 2), (1.5, 3)][rng.integers(3)]
    inp = dict(N=n, dim=dim, a=enc.num(a), b=enc.num(b))
    kw = dict(N=n, a=a, b=b, dim=dim, seed=some_seed(rng), srtype=str(rng.choice(["uniform", "classic"])))
    if rng.random() < .3:
        kw["noise"] = True
    s = np.sqrt(2 / n)
    if rng.random() < .5:
        s = kw["s"] = float(rng.choice([.1, .4, 1]))
    t = 1e-6
    if rng.random() < .5:
        t = kw["thresh"] = float(rng.choice([.01, .3]))
    inp.update(noise=enc.flag("noise" in kw), s=enc.num(s), thresh=enc.num(t))

    def run():
        G = graphs.SwissRoll(**kw)
        return dict(x=enc.arr(G.x), coords=enc.arr(G.coords), W=enc.arr(G.W))
    ctx.rec("roll", inp, run)


def unrolled(ctx, rng):
    """Along the roll: as many points per area, or per angle."""
    from pygsp import graphs
    for srtype, cut in (("uniform", np.sqrt(15 * .3 + 1)), ("classic", 1 + 3 * .3)):
        seed = int(rng.integers(2**31))

        def run():
            x = graphs.SwissRoll(N=1000, srtype=srtype, seed=seed, s=.01, thresh=.9).x
            t = np.hypot(x[0], x[2]) / np.pi
            return dict(counts=[int((t < cut).sum()), int((x[1] < 7.35).sum()), int(((t < cut) & (x[1] < 10.5)).sum())])
        ctx.rec("counts", dict(draws=[1000] * 3, prob=[30, 35, 15]), run)
    seed = int(rng.integers(2**31))

    def noisy():
        x = graphs.SwissRoll(N=1000, noise=True, seed=seed, s=.01, thresh=.9).x
        return dict(counts=[int(((x[1] < 0) | (x[1] > 21)).sum()), int((x[1] < 7.35).sum())])
    ctx.rec("counts", dict(draws=[1000] * 2, prob=[4, 35], what="noise"), noisy)


def david(ctx, rng):
    from pygsp import graphs
    n = int(rng.integers(3, 30))

    def run():
        G = graphs.DavidSensorNet(N=n, seed=some_seed(rng))
        return dict(coords=enc.arr(G.coords), W=enc.arr(G.W))
    ctx.rec("david", dict(N=n), run)


def spread(ctx, rng):
    """Points drawn uniformly: a quarter of them in each quarter."""
    from pygsp import graphs
    seeds = rng.integers(0, 2**31, 40)

    def quarters(X):
        q = 2 * (X[:, 0] > .5) + (X[:, 1] > .5)
        return np.bincount(q.astype(int), minlength=4)

    def octants(X):
        q = 4 * (X[:, 0] > 0) + 2 * (X[:, 1] > 0) + (X[:, 2] > 0)
        return np.bincount(q.astype(int), minlength=8)
    makers = dict(
        sensor=(lambda s: quarters(graphs.Sensor(N=30, seed=s).coords), 1200, [25] * 4),
        cells=(lambda s: quarters(graphs.Sensor(N=36, distributed=True, seed=s).coords * 6 % 1), 1440, [25] * 4),
        david=(lambda s: quarters(graphs.DavidSensorNet(N=30, seed=s).coords), 1200, [25] * 4),
        square=(lambda s: quarters(graphs.Cube(nb_pts=30, nb_dim=2, seed=s).coords), 1200, [25] * 4),
        ring=(lambda s: np.bincount((graphs.RandomRing(N=30, seed=s).angles // (np.pi / 2)).astype(int), minlength=4), 1200, [25] * 4),
        sphere=(lambda s: octants(graphs.Sphere(nb_pts=32, seed=s).coords)[[0, 7]].repeat(2), 1280, [12, 13, 12, 13]),
        faces=(lambda s: [int((graphs.Cube(nb_pts=30, seed=s).coords[5 * i:5 * i + 5] > .25).sum()) for i in range(6)], 600, None),
        moons=(lambda s: [int((graphs.TwoMoons(moontype="synthesized", N=30, sigmad=0, seed=s).coords[k:k + 15, 0] > (.5, -.5)[k > 0]).sum())
                          for k in (0, 15)], 600, [50] * 2),
    )
    for name, (f, draws, prob) in makers.items():
        if prob is None:
            continue
        ctx.rec("counts", dict(draws=[draws] * len(prob), prob=prob, what=name),
                lambda: dict(counts=[int(x) for x in sum(np.asarray(f(int(s))) for s in seeds)]), timeout=60)


CLASSES = dict(
    StochasticBlockModel=dict(N=30, k=3), ErdosRenyi=dict(N=30, p=.4), BarabasiAlbert=dict(N=40, m0=3, m=2), RandomRegular=dict(N=24, k=4),
    Community=dict(N=40, Nc=3, world_density=.2), RandomRing=dict(N=20), Sensor=dict(N=20, k=4), SwissRoll=dict(N=30), TwoMoons=dict(moontype="synthesized", N=30),
    DavidSensorNet=dict(N=40), Sphere=dict(nb_pts=20), Cube=dict(nb_pts=24))
VARIANTS = [("Community", dict(N=40, Nc=3, world_density=.5, comm_density=.5)), ("Community", dict(N=40, Nc=3, k_neigh=3)),
            ("Sensor", dict(N=25, distributed=True)), ("SwissRoll", dict(N=30, dim=2, noise=True, srtype="classic")),
            ("ErdosRenyi", dict(N=12, p=.3, directed=True, self_loops=True, connected=True, n_try=None)), ("Cube", dict(nb_pts=20, nb_dim=2))]


def seeds(ctx, rng, c, kw):
    from pygsp import graphs

    def digest(seed):
        G = getattr(graphs, c)(seed=seed, **kw)
        h = hashlib.sha1(G.W.toarray().tobytes())
        if hasattr(G, "coords"):
            h.update(np.ascontiguousarray(G.coords).tobytes())
        return h.hexdigest()

    def state():
        s = np.random.get_state()
        return hashlib.sha1(s[1].tobytes() + str(s[2:]).encode()).hexdigest()

    def run(a):
        np.random.seed(11)
        s0 = state()
        o = dict(first=digest(a))
        o.update(state0=s0, state1=state())
        np.random.seed(12)
        o["again"] = digest(a)
        np.random.seed(11)
        o["other"] = digest(a + 1)
        np.random.seed(11)
        o["free1"] = digest(None)
        np.random.seed(11)
        o["free2"] = digest(None)
        return o
    for a in (0, 1, int(rng.integers(2**31))):
        ctx.rec("seeds", dict(c=c, seed=a), lambda: run(a))


def cases(ctx):
    res = []

    def add(name, n, k, f):
        for rep in range(n * (12 if ctx.thorough else 1)):
            res.append(("%s-%d" % (name, rep), lambda ctx: [f(ctx, ctx.rng(i)) for i in range(k)]))
    with open(os.path.join(ctx.workdir, "blocks.json")) as fh:
        blocks = json.load(fh)
    for b in range(40):
        res.append(("blocks-%d" % b, lambda ctx, b=b: [sbm_model(ctx, p, ctx.rng(i)) for i, p in enumerate(blocks[b::40])]))
    add("sbm", 40, 10, sbm)
    add("patient", 4, 3, patient)
    for d in (0, 1):
        for l in (0, 1):
            add("frequencies-%d%d" % (d, l), 1, 1, lambda ctx, rng, d=d, l=l: frequencies(ctx, rng, bool(d), bool(l)))
    add("drawn", 1, 1, blocks_drawn)
    add("trials", 1, 1, trials)
    add("preference", 1, 1, preference)
    add("attachment", 16, 8, attachment)
    add("regular", 16, 8, regular)
    add("community", 60, 5, community)
    add("ring", 24, 8, ring)
    add("placed", 48, 6, placed)
    add("roll", 24, 5, roll)
    add("unrolled", 1, 1, unrolled)
    add("david", 8, 4, david)
    add("spread", 1, 1, spread)
    for i, (c, kw) in enumerate(list(CLASSES.items()) + VARIANTS):
        add("seeds-%d-%s" % (i, c), 1, 2, lambda ctx, rng, c=c, kw=kw: seeds(ctx, rng, c, kw))
    return res
