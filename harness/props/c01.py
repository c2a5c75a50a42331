"""C01: cached spectral quantities stay coherent over any history of calls."""
import copy
import json
import os

import numpy as np

from .. import enc, gen, ref

MODULE = "TraceC01"
N = 6
PARTIAL = (2, 3, 4)
TYPES = ["combinatorial", "normalized"]
READS = ["L", "lmax", "basis", "coherence", "D", "grad", "gft", "exact", "cheby", "frame bounds"]
ALL = ([("laplacian", t) for t in TYPES] * 2 + [("estimate", m) for m in ("lanczos", "bounds")] * 2 +
       [("fourier", k) for k in (2, 3, 4, 6, 6)] +
       [(o, "") for o in ("bad laplacian", "bad estimate", "bad fourier", "bad filter", "bad signal",
                          "diff", "eigenmap", "neutral", "copy")] + [(o, "") for o in READS])


def models(tier):
    return [dict(module="SpectralCacheMC", cfg="SpectralCacheMC"),
            dict(module="SpectralCacheH", cfg="SpectralCacheH4" if tier == "thorough" else "SpectralCacheH3")]


def use_model(m, res, workdir):
    hs = sorted(set(p[2:] for p in res["prints"] if p.startswith("H ")))
    with open(os.path.join(workdir, "hist-%s.json" % m["module"]), "w") as fh:
        fh.write("[" + ",".join(hs) + "]")


def make_graphs():
    """Weight matrices on six vertices, whose three estimates of the largest
    eigenvalue differ for both Laplacians."""
    rng = np.random.default_rng(7)
    res = {}

    def ok(W):
        for lt in TYPES:
            L = ref.laplacian(W, lt)
            e = np.linalg.eigvalsh(L)
            b = 2 if lt == "normalized" else ref.bounds(W)
            if b < 1.03 * e[-1] or e[-1] > 40:
                return False
            if np.diff(e[1:]).min() < .02:
                return False
        return True
    kinds = dict(weighted=dict(), loops=dict(loops=True), binary=dict(binary=True),
                 directed=dict(directed=True), disconnected=dict(isolated=True))
    for name, kw in kinds.items():
        for rep in range(2):
            while True:
                f = gen.random_weights if name in ("directed", "disconnected") else gen.connected_weights
                W = f(rng, N, density=.6, kmax=12, **kw)
                S = (W + W.T) / 2
                c = ref.n_components(S)
                if c == (2 if name == "disconnected" else 1) and ok(W) \
                   and (name != "directed" or (W != W.T).any()):
                    break
            res["%s%d" % (name, rep)] = W
    return res


class Player:
    def __init__(self, W, start, x, rng, partial_ok):
        from pygsp import filters, graphs
        self.rng, self.x, self.partial_ok = rng, x, partial_ok
        self.G = G = graphs.Graph(W, lap_type=start) if start != "combinatorial" or rng.random() < .5 \
            else graphs.Graph(W)
        self.bank = filters.Filter(G, [lambda x: .5 + x / 8, lambda x: x**2 / 32])
        self.ramp = filters.Filter(G, lambda x: x / 8)

    def raised(self, f):
        try:
            f()
        except Exception as e:
            return dict(raised=type(e).__name__)
        return dict(raised="")

    def do(self, op, arg):
        G, rng = self.G, self.rng
        from pygsp import filters
        if op == "laplacian":
            G.compute_laplacian(arg) if arg == "normalized" or rng.random() < .7 else G.compute_laplacian()
        elif op == "estimate":
            G.estimate_lmax(arg) if arg == "bounds" or rng.random() < .7 else G.estimate_lmax()
        elif op == "fourier":
            G.compute_fourier_basis(arg) if arg != N or rng.random() < .5 else G.compute_fourier_basis()
        elif op == "diff":
            G.compute_differential_operator()
        elif op == "bad laplacian":
            return self.raised(lambda: G.compute_laplacian(["unknown", "Normalized", ""][rng.integers(3)]))
        elif op == "bad estimate":
            return self.raised(lambda: G.estimate_lmax(["unknown", "fourier_basis", "Bounds"][rng.integers(3)]))
        elif op == "bad fourier":
            return self.raised(lambda: G.compute_fourier_basis([N + 1, N + 5, 0][rng.integers(3)]))
        elif op == "bad filter":
            if rng.random() < .5:
                return self.raised(lambda: self.bank.filter(np.ones(N + 1), method="exact"))
            return self.raised(lambda: self.bank.filter(self.x, method="unknown"))
        elif op == "bad signal":
            f = [G.gft, G.grad, G.dirichlet_energy, G.igft][rng.integers(4)]
            return self.raised(lambda: f(np.ones(N + 1)))
        elif op == "lmax":
            v = enc.num(G.lmax)
            return dict(lmax=v, again=enc.num(G.lmax))
        elif op == "basis":
            if rng.random() < .5:
                U = enc.arr(G.U)
                return dict(e=enc.arr(G.e), U=U)
            e = enc.arr(G.e)
            return dict(e=e, U=enc.arr(G.U))
        elif op == "coherence":
            c = enc.num(G.coherence)
            return dict(coherence=c, e=enc.arr(G.e), U=enc.arr(G.U))
        elif op == "D":
            return dict(D=enc.arr(G.D))
        elif op == "L":
            return dict(L=enc.arr(G.L), lt=str(G.lap_type))
        elif op == "grad":
            return dict(g=enc.arr(G.grad(self.x)))
        elif op == "gft":
            y = enc.arr(G.gft(self.x))
            return dict(y=y, e=enc.arr(G.e), U=enc.arr(G.U))
        elif op == "exact":
            return dict(y=enc.arr(self.bank.filter(self.x, method="exact")))
        elif op == "cheby":
            return dict(y=enc.arr(self.bank.filter(self.x, order=int(rng.integers(2, 12)))))
        elif op == "frame bounds":
            A, B = self.ramp.estimate_frame_bounds()
            return dict(A=enc.num(A), B=enc.num(B))
        elif op == "eigenmap":
            G.set_coordinates("laplacian_eigenmap2D")
        elif op == "neutral":
            gen.perturb(G, rng, 1, exclude=("switch", "bad", "fourier", "bounds", "lanczos", "diff", "grad",
                                            "gft", "exact", "cheby", "energy",
                                            "classes", "interpolate", "levels", "features"))
        elif op == "copy":
            # whatever is done to a copy or to another graph leaves this one alone
            H = copy.deepcopy(G) if rng.random() < .5 else G.subgraph(list(range(N)))
            if rng.random() < .5:
                H.compute_laplacian(TYPES[rng.integers(2)])
            H.estimate_lmax("bounds")
            H.compute_fourier_basis()
            H.compute_differential_operator()
        return {}


def play(ctx, name, W, hist, rng, tail=True):
    start = hist[0]["arg"]
    partial_ok = "disconnected" not in name
    ops = [(h["op"], h["arg"]) for h in hist[1:]]
    if tail:
        reads = list(rng.permutation(READS))
        ops += [(o, "") for o in reads]
    if not partial_ok:
        # partial bases are not determined on disconnected graphs
        ops = [("fourier", N) if o == "fourier" else ("neutral", "") if o == "eigenmap" else (o, a)
               for o, a in ops]
    x = rng.integers(-8, 9, N) / 4

    def run():
        p = Player(W, start, x, rng, partial_ok)
        events = []
        for op, arg in ops:
            ev = dict(op=op, arg=arg, exc="", out={})
            try:
                ev["out"] = p.do(op, arg)
            except Exception as e:
                ev["exc"] = type(e).__name__
            events.append(ev)
        return dict(events=events)
    ctx.rec("history", dict(W=enc.arr(W), x=enc.arr(x), start=start, graph=name,
                            ref={t: ref.certificate(W, t) for t in TYPES}), run)


def cases(ctx):
    res = []
    graphs = make_graphs()
    names = sorted(graphs)

    def block(label, hists, size, every):
        for b in range(0, len(hists), size):
            def fn(ctx, part=hists[b:b + size], b=b):
                for i, h in enumerate(part):
                    picks = names if every else [names[(b + i) % len(names)]]
                    for name in picks:
                        play(ctx, name, graphs[name], h, ctx.rng(i, name))
            res.append(("%s-%d" % (label, b), fn))
    with open(os.path.join(ctx.workdir, "hist-SpectralCacheMC.json")) as fh:
        block("transitions", json.load(fh), 20, ctx.thorough)
    with open(os.path.join(ctx.workdir, "hist-SpectralCacheH.json")) as fh:
        block("sequences", json.load(fh), 20, False)
    for k in range(1500 if ctx.thorough else 60):
        def fn(ctx, k=k):
            rng = ctx.rng()
            hist = [dict(op="new", arg=TYPES[rng.integers(2)])]
            for j in rng.integers(0, len(ALL), int(rng.integers(8, 30))):
                hist.append(dict(op=ALL[j][0], arg=ALL[j][1]))
            name = names[int(rng.integers(len(names)))]
            play(ctx, name, graphs[name], hist, rng)
        res.append(("walk-%d" % k, fn))
    return res
