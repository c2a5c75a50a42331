"""C12: saving and loading."""
import hashlib
import json
import os
import pathlib
import shutil
import tempfile

import numpy as np

from .. import enc, gen
from .c11 import sig

MODULE = "TraceC12"
CONF = {"FileStoreMC": 5, "FileStoreMC3": 20}


def models(tier):
    return [dict(module="FileStoreMC", cfg=c) for c in CONF]


def use_model(m, res, workdir):
    xs = sorted(set(p[2:] for p in res["prints"] if p.startswith("F ")))
    with open(os.path.join(workdir, "%s.json" % m["cfg"]), "w") as fh:
        fh.write("[" + ",".join(xs) + "]")


def values(rng, sh):
    c = int(rng.integers(5))
    if c == 0:
        return rng.integers(-9, 10, sh)
    if c == 1:
        return rng.random(sh) < .5
    if c == 2:
        return rng.normal(size=sh).astype(np.float32)
    if c == 3:
        return rng.integers(0, 9, sh).astype(rng.choice(["uint8", "int16", "int32"]))
    return rng.normal(size=sh) * 10.**rng.integers(-4, 3)


def random_graph(rng):
    n = int(rng.integers(1, 7)) if rng.random() < .8 else int(rng.integers(8, 26))
    W = gen.random_weights(rng, n, bool(rng.integers(2)), rng.random() < .4, rng.choice([.2, .5, .9] if n < 8 else [.1]),
                           isolated=rng.random() < .3)
    c = int(rng.integers(4))
    if c == 0:
        W = W != 0
    elif c == 1:
        W = np.ceil(W).astype(rng.choice(["uint8", "int32", "int64"]))
    elif c == 2:
        W = W / 3
    signals = {}
    for k in rng.permutation(["s", "value", "a_b", "x_y_z", "n1", "S"])[:int(rng.integers(0, 4))]:
        d = int(rng.choice([0, 0, 2, 3, 11]))
        signals[str(k)] = values(rng, n if d == 0 else (n, d))
    return W, signals


def history(ctx, ops, rng):
    from pygsp import graphs
    data = [random_graph(rng) for _ in range(2)]
    # graph-tool's GML neither reads booleans nor narrow integers back
    rec = [dict(W=enc.exact(W), sigs=sig(s), Wa=enc.arr(W), sigsa=sig(s, enc.arr),
                gml="T" if all(a.dtype.kind == "f" or a.dtype.kind == "i" and a.dtype.itemsize >= 4
                               for a in [W, *s.values()]) else "F") for W, s in data]
    tmp = tempfile.mkdtemp(dir=ctx.workdir)
    os.mkdir(os.path.join(tmp, "sub.gml"))

    def contents():
        files = [os.path.relpath(os.path.join(d, f), tmp) for d, _, fs in os.walk(tmp) for f in fs]
        return {f: hashlib.sha1(open(os.path.join(tmp, f), "rb").read()).hexdigest() for f in files}

    def run():
        Gs = []
        for W, s in data:
            G = graphs.Graph(W)
            for k, v in s.items():
                G.set_signal(v.copy(), k)
            Gs.append(G)
        events = []
        for o in ops:
            ev = dict(o, exc="", out={})
            path = os.path.join(tmp, o["path"])
            if o["backend"] == "networkx" and rng.random() < .2:
                path = pathlib.Path(path)
            kw = {}
            if o["fmt"] or rng.random() < .3:
                kw["fmt"] = o["fmt"] or None
            if o["backend"] or rng.random() < .3:
                kw["backend"] = o["backend"] or None
            before = contents()
            try:
                if o["op"] == "save":
                    Gs[o["g"] - 1].save(path, **kw)
                else:
                    H = graphs.Graph.load(path, **kw)
                    ev["out"] = dict(W=enc.exact(H.W), sigs=sig(H.signals), Wa=enc.arr(H.W), sigsa=sig(H.signals, enc.arr))
            except Exception as e:
                ev["exc"] = "ValueError" if isinstance(e, ValueError) else type(e).__name__
            now = contents()
            ev["files"] = sorted(now)
            same = [f for f in before if f != o["path"] or o["op"] == "load" or ev["exc"]]
            ev["others"] = "T" if all(now.get(f) == before[f] for f in same) else "F"
            ev["after"] = ["T" if enc.exact(G.W) == r["W"] and sig(G.signals) == r["sigs"] else "F" for G, r in zip(Gs, rec)]
            events.append(ev)
        return dict(events=events)
    ctx.rec("history", dict(graphs=rec), run)
    shutil.rmtree(tmp, ignore_errors=True)


PATHS = ["a.graphml", "b.gml", "c.gexf", "d.x.GML", "noext", "graphml", "sub.gml/e.graphml", "sub.gml/noext"]


def walk(ctx, rng):
    """A long history, loading mostly what was saved."""
    ops, held = [], {}
    for _ in range(int(rng.integers(4, 14))):
        p = str(rng.choice(PATHS))
        ext = os.path.splitext(p)[1][1:]
        c = rng.random()
        if c < .45:
            fmt = str(rng.choice(["graphml", "gml", "gexf"]))
            be = str(rng.choice(["", "networkx", "graph-tool"]))
            o = dict(op="save", g=int(rng.integers(1, 3)), path=p, fmt="" if fmt == ext else fmt, backend=be)
            if not (fmt == "gexf" and be == "graph-tool"):
                held[p] = (o["fmt"], be)
        elif c < .9 and held:
            p = str(rng.choice(sorted(held)))
            be = held[p][1]
            if be != "graph-tool":
                be = str(rng.choice(["", "networkx"]))
            o = dict(op="load", g=0, path=p, fmt=held[p][0], backend=be)
        else:
            o = dict(op=str(rng.choice(["save", "load"])), g=1, path=p, fmt=str(rng.choice(["", "xml", "GraphML"])),
                     backend=str(rng.choice(["", "igraph"])))
            if o["fmt"] == "" and o["backend"] == "" and ext in ("graphml", "gml", "gexf"):
                o["fmt"] = "dot"
        ops.append(o)
    history(ctx, ops, rng)


def cases(ctx):
    res = []
    for c, every in CONF.items():
        with open(os.path.join(ctx.workdir, c + ".json")) as fh:
            hists = json.load(fh)
        if not ctx.thorough:
            hists = hists[ctx.seed % every::every]
        for b in range(0, len(hists), 40):
            def fn(ctx, part=hists[b:b + 40]):
                for i, h in enumerate(part):
                    history(ctx, h, ctx.rng(i))
            res.append(("%s-%d" % (c, b), fn))
    for rep in range(3000 if ctx.thorough else 120):
        def fn(ctx):
            for i in range(3):
                walk(ctx, ctx.rng(i))
        res.append(("walk-%d" % rep, fn))
    return res
