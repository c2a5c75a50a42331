"""C09: filter banks form a consistent algebra."""
import json
import os

import numpy as np

from .. import enc, gen, ref

MODULE = "TraceC09"
BASE = [[[.5, .125], [1., 0, -.046875]], [[1., -.125]], [[.25], [-1., .0625], [.5, 0, .03125]]]


def models(tier):
    return [dict(module="FilterAlgebraMC", cfg="FilterAlgebra3" if tier == "thorough" else "FilterAlgebra2")]


def use_model(m, res, workdir):
    xs = sorted(set(p[2:] for p in res["prints"] if p.startswith("X ")))
    with open(os.path.join(workdir, "expressions.json"), "w") as fh:
        fh.write("[" + ",".join(xs) + "]")


def poly(c):
    return lambda x: sum(a * np.asanyarray(x)**i for i, a in enumerate(c)) + 0 * np.asanyarray(x)


def base(G, k):
    from pygsp import filters
    ks = [poly(c) for c in BASE[k - 1]]
    return filters.Filter(G, ks if len(ks) > 1 or k % 2 else ks[0])


def apply(g, o, G, H):
    op, a = o["op"], o["a"]
    if op == "new":
        return base(G, a)
    if op == "index":
        return g[a]
    if op == "slice":
        s = slice(a if a else None, o["b"] if o["b"] != 99 else None, o["s"] if o["s"] != 1 else None)
        return g[s]
    if op == "add":
        return g + base(G, a)
    if op == "radd":
        return base(g.G, a) + g
    if op == "double":
        return g + g
    if op == "complement":
        return g.complement() if a < 0 else g.complement(a / 1e6)
    if op == "tighten":
        g += g.complement()
        return g
    if op == "inverse":
        return g.inverse()
    if op == "retarget":
        return g(H if g.G is G else G)


def setup():
    from pygsp import graphs
    G, H = graphs.Ring(6), graphs.Path(5)
    G.estimate_lmax("bounds")
    H.estimate_lmax("bounds")
    return G, H


def expression(ctx, ops, rng):
    shape = [(), (1,), (6,), (2, 3), (3, 1, 2), (7,)][int(rng.integers(6))]
    x = np.rint(rng.uniform(0, 4, shape) * 1e4) / 1e4
    arg = x.tolist() if rng.random() < .3 else x
    # the same banks are evaluated elsewhere too: nothing is retained from one evaluation to the next
    x2 = np.rint(rng.uniform(0, 4, int(rng.integers(1, 5))) * 1e4) / 1e4

    def run():
        G, H = setup()
        g, looks, target, stop, banks = None, [], True, "", []
        for o in ops:
            try:
                g0, g = g, apply(g, o, G, H)
            except ValueError:
                stop = "ValueError"
                break
            if o["op"] == "retarget":
                target &= g.G is not g0.G and isinstance(g, type(g0).__mro__[-2])
            look = dict(nf=enc.integer(g.n_filters), len=enc.integer(len(g)), x=enc.arr(x), exc="",
                        y=enc.arr(0), called=enc.arr(0), A=0, B=0, x2=enc.arr(x2), y2=enc.arr(0), exc2="", again="T")
            banks.append(g)
            try:
                look["y"] = enc.arr(g.evaluate(arg))
                look["called"] = enc.arr(g(arg))
                A, B = g.estimate_frame_bounds(arg)
                look["A"], look["B"] = enc.num(A), enc.num(B)
            except Exception as e:
                look["exc"] = type(e).__name__
            try:
                look["y2"] = enc.arr(g.evaluate(x2))
            except Exception as e:
                look["exc2"] = type(e).__name__
            looks.append(look)
        for b, look in zip(banks, looks):
            if not look["exc"]:
                y = enc.arr(b.evaluate(arg))
                look["again"] = "T" if y == look["y"] and len(b) == look["len"] else "F"
        return dict(looks=looks, target="T" if target else "F", stop=stop)
    ctx.rec("expression", dict(ops=ops), run)


def inverse(ctx, ops, rng):
    from pygsp import graphs
    n = int(rng.integers(2, 8))
    while True:
        W = gen.connected_weights(rng, n, density=.3, kmax=6)
        if np.linalg.eigvalsh(ref.laplacian(W, "combinatorial"))[-1] < 4:
            break
        W = None
        n = max(2, n - 1)
    s = rng.integers(-8, 9, n) / 4

    def run():
        G = graphs.Graph(W)
        g = None
        for o in ops:
            g = apply(g, o, G, G)
        c = g.filter(s, method="exact")
        z = g.inverse().filter(c, method="exact")
        return dict(z=enc.arr(z), c=enc.arr(c))
    ctx.rec("inverse", dict(ops=ops, W=enc.arr(W), s=enc.arr(s), ref=ref.certificate(W, "combinatorial")), run)


def grid(ctx, ops, spectrum):
    def run():
        G, H = setup()
        g = None
        for o in ops:
            g = apply(g, o, G, H)
        if spectrum:        # known eigenvalues change nothing
            g.G.compute_fourier_basis(**({} if spectrum == 1 else dict(n_eigenvectors=2)))
        A, B = g.estimate_frame_bounds()
        return dict(A=enc.num(A), B=enc.num(B))
    ctx.rec("grid", dict(ops=ops, lmax=4000000), run)


def cases(ctx):
    with open(os.path.join(ctx.workdir, "expressions.json")) as fh:
        exprs = json.load(fh)
    res = []
    size = 40
    for b in range(0, len(exprs), size):
        def fn(ctx, part=exprs[b:b + size]):
            for i, ops in enumerate(part):
                rng = ctx.rng(i)
                expression(ctx, ops, rng)
                # filtering needs all bounds to be feasible and banks which differ in length from the graph's size
                if all(o["op"] not in ("complement", "retarget") for o in ops) and rng.random() < .35:
                    inverse(ctx, ops, rng)
        res.append(("expressions-%d" % b, fn))
    plain = [e for e in exprs if all(o["op"] in ("new", "index", "slice", "add", "radd", "double") for o in e)]
    rng = np.random.default_rng(ctx.seed)
    for j in rng.permutation(len(plain))[:64 if ctx.thorough else 16]:
        res.append(("grid-%d" % j, lambda ctx, j=j: grid(ctx, plain[j], int(j) % 3)))
    return res
