"""C07: connectivity, components, subgraphs."""
import numpy as np

from .. import enc, gen

MODULE = "TraceC07"
use_model = gen.save_graphs
TYPES = ["combinatorial", "normalized"]


def models(tier):
    ms = ["GraphSpace_D3", "GraphSpace_U3", "GraphSpace_U4", "GraphSpace_D2", "GraphSpace_D4"]
    if tier == "thorough":
        ms += ["GraphSpace_U5"]
    return [dict(module="GraphSpace", cfg=m) for m in ms]


def attach(G, rng, n):
    """Coordinates and signals; returns what is recorded of them."""
    from pygsp import graphs  # noqa: F401
    rec = {"hascoords": False, "coords": {"s": [-1], "v": []}, "signals": {}}
    c = rng.integers(4)
    if c:
        coords = rng.integers(-20, 20, (n, 3) if c == 3 else (n, 2) if c == 2 else n) / 4
        if n == 1 or rng.random() < .5:
            G.coords = coords
        else:
            G.set_coordinates(coords)
        rec["hascoords"], rec["coords"] = True, enc.arr(coords)
    for k in range(int(rng.integers(0, 3))):
        s = rng.integers(-9, 9, n if rng.random() < .6 else (n, 2))
        if rng.random() < .5:
            s = s / 4
        G.set_signal(s, "s%d" % k)
        rec["signals"]["s%d" % k] = enc.arr(s)
    # one name is always present so that the record is never an empty sequence
    G.set_signal(np.arange(n), "id")
    rec["signals"]["id"] = enc.arr(np.arange(n))
    return rec


def describe(g, G):
    try:
        coords = enc.arr(g.coords)
    except AttributeError:
        coords = {"s": [-1], "v": []}
    same = set(g.plotting) == set(G.plotting) and all(
        np.array_equal(np.asarray(g.plotting[k], dtype=object), np.asarray(G.plotting[k], dtype=object))
        for k in G.plotting)
    return dict(W=enc.arr(g.W), n=enc.integer(g.n_vertices), N=enc.integer(g.N), lt=str(g.lap_type),
                L=enc.arr(g.L), coords=coords, signals={k: enc.arr(v) for k, v in g.signals.items()},
                plotting="T" if same else "F", conn=enc.flag(g.is_connected()), dir=enc.flag(g.is_directed()),
                ne=enc.integer(g.n_edges), dw=enc.arr(g.dw), cols=enc.integer(g.D.shape[1]), lmax=own(g))


def own(g):
    """The largest eigenvalue is that of the subgraph, rather than that of the graph."""
    if not g.n_edges:
        return "T"
    g.compute_fourier_basis()
    L = g.L.toarray()
    tol = 1e-6 * abs(L).max() + 1e-9
    return enc.flag(abs(g.lmax - np.linalg.eigvalsh(L)[-1]) < tol
                    and abs(g.U @ np.diag(g.e) @ g.U.T - L).max() < tol)


def build(ctx, W, adj, rng):
    from pygsp import graphs
    lt = TYPES[int(rng.integers(2))]
    plotting = {"vertex_size": int(rng.integers(1, 99)), "custom": 1} if rng.random() < .5 else {}
    G = graphs.Graph(adj, lap_type=lt, plotting=plotting)
    rec = attach(G, rng, len(W))
    if rng.random() < .5:
        gen.perturb(G, rng, 3, exclude=("signal", "layout"))
        if rng.random() < .5:
            G.is_connected()
    rec.update(W=enc.arr(W), lt=lt)
    return G, rec


def connected(ctx, W, adj):
    from pygsp import graphs
    rng = ctx.rng("conn", len(ctx.records))

    def run():
        G = graphs.Graph(adj)
        ans = []
        for _ in range(2):
            gen.perturb(G, rng, int(rng.integers(0, 3)))
            ans.append(enc.flag(G.is_connected()))
        return {"answers": ans}
    ctx.rec("connected", {"W": enc.arr(W)}, run)


def components(ctx, W, adj):
    rng = ctx.rng("comp", len(ctx.records))
    G, rec = build(ctx, W, adj, rng)

    def run():
        try:
            comps = G.extract_components()
        except Exception as e:
            return {"refused": type(e).__name__, "comps": []}
        return {"refused": "", "comps": [
            {"orig": [enc.integer(i) for i in np.ravel(c.info["orig_idx"])], "g": describe(c, G)}
            for c in comps]}
    ctx.rec("components", rec, run)


def subgraph(ctx, W, adj):
    rng = ctx.rng("sub", len(ctx.records))
    G, rec = build(ctx, W, adj, rng)
    n = len(W)
    k = int(rng.integers(1, n + 1))
    sel = rng.permutation(n)[:k]
    if rng.random() < .5:
        sel = np.sort(sel)
    rec["sel"] = [int(i) for i in sel]
    form = rng.integers(5)
    if form == 1:
        sel = sel.tolist()
    elif form == 2:
        m = np.zeros(n, dtype=bool)
        m[sel] = True
        sel, rec["sel"] = m, [int(i) for i in np.flatnonzero(m)]
    elif form == 3:
        sel = sel.astype(np.int32)
    elif form == 4 and (sel > 0).all():
        sel = sel - n          # negative indices
    ctx.rec("subgraph", rec, lambda: {"g": describe(G.subgraph(sel), G)})
    if form == 0 and k > 1:     # subgraph of a subgraph
        sel2 = rng.permutation(k)[:int(rng.integers(1, k + 1))]
        rec2 = dict(rec, sel=[int(sel[i]) for i in sel2])
        ctx.rec("subgraph", rec2, lambda: {"g": describe(G.subgraph(sel).subgraph(sel2), G)})


def cases(ctx):
    res = []
    for m in models(ctx.tier):
        Ws = gen.model_graphs(ctx.workdir, m["cfg"])
        for b in range(0, len(Ws), 60):
            def fn(ctx, part=Ws[b:b + 60], b=b):
                for i, W in enumerate(part):
                    connected(ctx, W, W)
                    components(ctx, W, W) if i % 2 == 0 or (W == W.T).all() else subgraph(ctx, W, W)
            res.append(("%s-%d" % (m["cfg"], b), fn))
    for rep in range(300 if ctx.thorough else 60):
        for directed in (False, True):
            def fn(ctx, directed=directed, rep=rep):
                rng = ctx.rng()
                n = int(rng.integers(1, 40 if rep % 10 == 0 else 12))
                W = gen.random_weights(rng, n, directed, rep % 2 == 0, rng.choice([.05, .15, .3]) if n < 20 else .06,
                                       isolated=rep % 5 == 0, binary=rep % 5 == 0)
                adj = gen.as_format(W, rng.choice(gen.FORMATS))
                connected(ctx, W, adj)
                connected(ctx, W, W * 2.**[-40, -100, 40][rep % 3])
                components(ctx, W, adj)
                subgraph(ctx, W, adj)
                subgraph(ctx, W, adj)
            res.append(("rand-%s-%d" % ("d" if directed else "u", rep), fn))
        if rep % 3 == 0:
            def cyc(ctx, rep=rep):
                # long directed cycles, paths and unions of them: few edges decide
                rng = ctx.rng()
                n = int(rng.integers(2, 26))
                W = np.zeros((n, n))
                p = rng.permutation(n)
                for i in range(n):
                    W[p[i], p[(i + 1) % n]] = 1
                if rep % 2:
                    i = int(rng.integers(n))
                    W[p[i], p[(i + 1) % n]] = 0
                    j = int(rng.integers(n))
                    W[p[j], p[int(rng.integers(n))]] += .5
                connected(ctx, W, W)
                U = np.maximum(W, W.T)
                connected(ctx, U, U)
                components(ctx, U, U)
                if rep == 0:
                    n = int(rng.integers(90, 140))
                    W = gen.random_weights(rng, n, False, True, .015)
                    components(ctx, W, W)
                    subgraph(ctx, W, W)
            res.append(("cycle-%d" % rep, cyc))
    return res
