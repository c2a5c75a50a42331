"""C11: exchange with NetworkX and graph-tool."""
import copy
import json
import os

import numpy as np

from .. import enc, gen

MODULE = "TraceC11"


def models(tier):
    return [dict(module="ExchangeMC", cfg="ExchangeMC")] + [
        dict(module="GraphSpace", cfg=m) for m in ("GraphSpace_D2", "GraphSpace_D3", "GraphSpace_U3")]


def use_model(m, res, workdir):
    if m["module"] == "GraphSpace":
        return gen.save_graphs(m, res, workdir)
    xs = sorted(set(p[2:] for p in res["prints"] if p.startswith("S ")))
    with open(os.path.join(workdir, "signals.json"), "w") as fh:
        fh.write("[" + ",".join(xs) + "]")


LIBS = ["networkx", "graph-tool"]


def sig(signals, e=enc.exact):
    return [dict(n=k, a=e(v)) for k, v in signals.items()]


def describe_nx(x):
    nodes = list(x.nodes())
    names = list(x.nodes[nodes[0]]) if nodes else []
    return dict(n=len(nodes) if nodes == list(range(len(nodes))) else -1,
                directed="T" if x.is_directed() else "F",
                edges=[[int(a), int(b), enc.exact(d["weight"])["v"][0]] for a, b, d in x.edges(data=True)],
                attrs=[dict(n=k, a=enc.exact([x.nodes[i][k] for i in nodes])) for k in names])


def describe_gt(x):
    w = x.edge_properties["weight"]
    return dict(n=int(x.num_vertices()), directed="T" if x.is_directed() else "F",
                edges=[[int(e.source()), int(e.target()), enc.exact(w[e])["v"][0]] for e in x.edges()],
                attrs=[dict(n=k, a=enc.exact([p[v] for v in x.vertices()])) for k, p in x.vertex_properties.items()])


def describe(lib, x):
    return describe_nx(x) if lib == "networkx" else describe_gt(x)


def values(rng, sh):
    c = int(rng.integers(6))
    if c == 0:
        return rng.integers(-9, 10, sh)
    if c == 1:
        return rng.random(sh) < .5
    if c == 2:
        x = rng.normal(size=sh)
        x[rng.random(sh) < .2] = np.nan
        return x
    if c == 3:
        return rng.integers(0, 9, sh).astype(rng.choice(["uint8", "int16", "int32"]))
    if c == 4:
        return rng.normal(size=sh).astype(np.float32)
    return rng.normal(size=sh) * 10.**rng.integers(-8, 8)


def weights(rng, W):
    """The matrix with values of some type (the pattern and symmetry kept)."""
    c = int(rng.integers(6))
    if c == 0:
        return W != 0
    if c == 1:
        return np.ceil(W).astype(rng.choice(["uint8", "int16", "int32", "int64"]))
    if c == 2:
        return W.astype(np.float32)
    if c == 3:
        return W / 3 * 10.**rng.integers(-6, 6)
    return W


def make(W, signals, rng):
    from pygsp import graphs
    G = graphs.Graph(gen.as_format(W, rng.choice(["dense", "csr", "lil", "coo", "csr_array"])))
    if rng.random() < .4:       # exported before, with other signals
        for k, v in random_signals(rng, len(W)).items():
            G.set_signal(v, k)
        for k, v in signals.items():
            if rng.random() < .6:
                G.set_signal(np.flip(v, 0) + 1 if v.dtype != bool else ~v, k)
        for lib in rng.permutation(LIBS)[:int(rng.integers(1, 3))]:
            G.to_networkx() if lib == "networkx" else G.to_graphtool()
        G.signals.clear()
    for k, v in signals.items():
        G.set_signal(v, k)
    if rng.random() < .2:
        gen.perturb(G, rng, 2, exclude=("signal", "layout"))
    return G


def roundtrip(ctx, lib, W, signals, rng):
    from pygsp import graphs

    def run():
        G = make(W, signals, rng)
        x = G.to_networkx() if lib == "networkx" else G.to_graphtool()
        d = describe(lib, x)
        H = (graphs.Graph.from_networkx if lib == "networkx" else graphs.Graph.from_graphtool)(x)
        again = describe(lib, x)
        return dict(x=d, W=enc.exact(H.W), sigs=sig(H.signals), after=dict(W=enc.exact(G.W), sigs=sig(G.signals)),
                    kept="T" if again == d else "F")
    ctx.rec("round trip", dict(lib=lib, W=enc.exact(W), sigs=sig(signals)), run)


NAMES = ["s", "value", "a_b", "x_y_z", "n1", "S", "key_", "_u", "t_007", "w_1"]


def random_signals(rng, n):
    res = {}
    for k in rng.permutation(NAMES)[:int(rng.integers(0, 4))]:
        d = int(rng.choice([0, 0, 2, 3, 11]))
        if d and k == "w_1":
            k = "w"
        res[str(k)] = values(rng, n if d == 0 else (n, d))
    return res


def imported(ctx, lib, rng):
    n = int(rng.integers(1, 8))
    directed, multi = bool(rng.integers(2)), bool(rng.integers(2)) or lib == "graph-tool"
    edges, seen = [], set()
    for _ in range(int(rng.integers(0, 14))):
        i, j = (int(v) for v in rng.integers(n, size=2))
        key = (i, j) if directed else (min(i, j), max(i, j))
        if key in seen and not multi:
            continue
        seen.add(key)
        edges.append([i, j, float(rng.integers(1, 17)) / 4, int(rng.random() < .8)])
    wname = ["weight", "cost", None][int(rng.choice([0, 0, 1, 2]))]
    if lib == "graph-tool" and wname is None:
        wname = "weight"
        absent = True
    else:
        absent = lib == "graph-tool" and rng.random() < .2
    integer = rng.random() < .3
    for e in edges:
        if integer:
            e[2] = float(int(e[2]) + 1)
        if lib == "graph-tool":
            e[3] = 1
        if wname is None or absent:
            e[3] = 0
    attrs = {}
    for k in rng.permutation(NAMES)[:int(rng.integers(0, 4))]:
        v = rng.integers(-9, 10, n) / (1 if rng.random() < .4 else 4)
        if lib == "networkx" and rng.random() < .4:
            v[rng.random(n) < .4] = np.nan
        if not np.isnan(v).all():
            attrs[str(k)] = v
    if rng.random() < .3:          # signals broken by an export
        for j in range(int(rng.integers(2, 12))):
            attrs["v_%d" % j] = rng.integers(-9, 10, n) / 2
    if rng.random() < .5:
        attrs = {k: attrs[k] for k in rng.permutation(list(attrs)).tolist()}

    def run():
        from pygsp import graphs
        kw = {} if wname == "weight" else dict(weight=wname)
        if lib == "networkx":
            import networkx as nx
            x = getattr(nx, ("Multi" if multi else "") + ("DiGraph" if directed else "Graph"))()
            label = [lambda i: i, lambda i: "v%d" % ((i * 7) % 11), lambda i: 100 - i, lambda i: (i, i)][int(rng.integers(4))]
            for i in range(n):
                x.add_node(label(i), **{k: (v[i].item() if rng.random() < .5 else v[i]) for k, v in attrs.items()
                                        if not np.isnan(v[i])})
            for i, j, w, has in edges:
                a = {} if not has else {wname: int(w) if integer else w}
                if wname != "weight" and rng.random() < .5:
                    a["weight"] = 77.
                x.add_edge(label(i), label(j), **a)
            before = copy.deepcopy((list(x.nodes(data=True)), list(x.edges(data=True))))
            H = graphs.Graph.from_networkx(x, **kw)
            kept = before == (list(x.nodes(data=True)), list(x.edges(data=True)))
        else:
            import graph_tool as gt
            x = gt.Graph(directed=directed)
            x.add_vertex(n)
            p = x.new_edge_property(str(rng.choice(["int", "short", "double", "long"])) if integer else "double")
            gone = []
            for i, j, w, has in edges:
                if rng.random() < .15:      # edges which are removed again
                    e = x.add_edge(j, i)
                    p[e] = 50
                    gone.append(e)
                p[x.add_edge(i, j)] = int(w) if integer else w
            for e in gone:
                x.remove_edge(e)
            if not absent:
                x.edge_properties[wname] = p
            else:
                x.edge_properties["other"] = p
            for k, v in attrs.items():
                isint = (v == np.rint(v)).all()
                q = x.new_vertex_property("int" if isint and rng.random() < .5 else "double")
                for i in range(n):
                    q[x.vertex(i)] = int(v[i]) if isint else v[i]
                x.vertex_properties[k] = q

            def look():
                return ([(int(e.source()), int(e.target()), p[e]) for e in x.edges()],
                        {k: [q[v] for v in x.vertices()] for k, q in x.vertex_properties.items()},
                        sorted(x.edge_properties), x.num_vertices())
            before = look()
            H = graphs.Graph.from_graphtool(x, **kw)
            kept = before == look()
        return dict(W=enc.arr(H.W), sigs=sig(H.signals, enc.arr), kept="T" if kept else "F")
    ctx.rec("import", dict(lib=lib, n=n, directed="T" if directed else "F",
                           edges=[[i, j, enc.num(w), h] for i, j, w, h in edges],
                           attrs=sig(attrs, enc.arr)), run)


def cases(ctx):
    with open(os.path.join(ctx.workdir, "signals.json")) as fh:
        plain = json.load(fh)
    res = []
    for b in range(0, len(plain), 60):
        def fn(ctx, part=plain[b:b + 60]):
            for i, s in enumerate(part):
                rng = ctx.rng(i)
                n = int(rng.integers(1, 5))
                W = gen.random_weights(rng, n, bool(rng.integers(2)), True, .4)
                for lib in LIBS:
                    roundtrip(ctx, lib, W, {x["n"]: values(rng, n if x["d"] == 0 else (n, x["d"])) for x in s}, rng)
        res.append(("signals-%d" % b, fn))
    for m in ("GraphSpace_D2", "GraphSpace_D3", "GraphSpace_U3"):
        Ws = gen.model_graphs(ctx.workdir, m)
        for b in range(0, len(Ws), 60):
            def fn(ctx, part=Ws[b:b + 60]):
                for i, W in enumerate(part):
                    rng = ctx.rng(i)
                    for lib in LIBS:
                        roundtrip(ctx, lib, weights(rng, W), random_signals(rng, len(W)), rng)
            res.append(("%s-%d" % (m, b), fn))
    for rep in range(2000 if ctx.thorough else 80):
        def fn(ctx, rep=rep):
            rng = ctx.rng()
            n = int(rng.integers(1, 14)) if rep % 20 else int(rng.integers(40, 70))
            W = gen.random_weights(rng, n, rep % 2 == 0, rep % 3 == 0, rng.choice([0, .1, .3, .8]) if n < 20 else .02, isolated=rep % 4 == 0)
            for lib in LIBS:
                roundtrip(ctx, lib, weights(rng, W), random_signals(rng, n), rng)
                for _ in range(3):
                    imported(ctx, lib, rng)
        res.append(("rand-%d" % rep, fn))
    return res
