"""C21: plots and figures."""
import json
import os
import re

import numpy as np

from .. import enc, gen

MODULE = "TraceC21"
NONE = {"s": [-1], "v": []}


def models(tier):
    return [dict(module="PlottingMC", cfg="PlottingMC"), dict(module="FiguresMC", cfg="FiguresMC")] + \
        ([dict(module="FiguresMC", cfg="FiguresMC6")] if tier == "thorough" else [])


def use_model(m, res, workdir):
    xs = sorted(set(p[2:] for p in res["prints"] if p.startswith("F ")))
    with open(os.path.join(workdir, "%s.json" % m["cfg"]), "w") as fh:
        fh.write("[" + ",".join(xs) + "]")


# What is on the axes.

def cycle(a, n):
    """One row for each item, the way matplotlib does it."""
    a = np.asarray(a, dtype=float)
    return a if len(a) in (0, n) else a[np.arange(n) % len(a)]


def no(d):
    return {"s": [0, d], "v": []}


def observe(ax, old, d, n):
    from matplotlib import collections, colors, lines
    from mpl_toolkits.mplot3d import art3d
    o = dict(pts=no(2), sizes=NONE, arr=NONE, clim=NONE, rgb=NONE, hlpts=no(2), hlsizes=NONE, hlrgb=NONE,
             segs=no(2), widths=NONE, ecolors=NONE, solid="?", curves=[], vlines=[], texts=[], cbar="F")
    new = [a for a in ax.get_children() if id(a) not in old]
    vertices, marks, segs = [], [], []
    for a in new:
        if isinstance(a, collections.PathCollection):
            if isinstance(a, art3d.Path3DCollection):
                xy = np.stack([np.ma.getdata(v) for v in a._offsets3d], axis=1)
            else:
                xy = np.ma.getdata(a.get_offsets())
            face = np.asarray(collections.Collection.get_facecolor(a))      # neither shaded nor sorted
            hollow = a.get_array() is None and (len(face) == 0 or np.all(face[:, 3] == 0))
            (marks if hollow else vertices).append((a, xy))
        elif isinstance(a, collections.LineCollection):
            s = np.asarray(a._segments3d) if isinstance(a, art3d.Line3DCollection) else np.asarray(a.get_segments())
            if len(s):
                segs.append((a, s))
        elif isinstance(a, lines.Line2D):
            if a.get_transform() == ax.get_xaxis_transform():
                o["vlines"].append(dict(x=enc.arr(a.get_xdata()), rgb=enc.arr(colors.to_rgb(a.get_color()))))
            else:
                o["curves"].append(dict(x=enc.arr(a.get_xdata()), y=enc.arr(a.get_ydata())))
        elif hasattr(a, "get_text") and a not in (ax.title, ax._left_title, ax._right_title) and a.get_text() != "":
            pos = a.get_position_3d() if hasattr(a, "get_position_3d") else a.get_position()
            o["texts"].append(dict(pos=[enc.num(v) for v in pos], label=str(a.get_text())))
    o["vlines"].sort(key=lambda v: 0)

    def sizes(a, k):
        s = getattr(a, "_sizes3d", None)
        return cycle(s if s is not None and len(s) else a.get_sizes(), k)
    if vertices:
        xy = np.concatenate([v for _, v in vertices])
        o["pts"] = enc.arr(xy)
        o["sizes"] = enc.arr(np.concatenate([sizes(a, len(v)) for a, v in vertices]))
        if all(a.get_array() is not None for a, _ in vertices):
            o["arr"] = enc.arr(np.concatenate([np.ma.getdata(a.get_array()).astype(float) for a, _ in vertices]))
            o["clim"] = enc.arr(vertices[0][0].get_clim())
        else:
            o["rgb"] = enc.arr(np.concatenate([cycle(collections.Collection.get_facecolor(a), len(v))[:, :3] for a, v in vertices]))
        o["cbar"] = enc.flag(any(a.colorbar is not None for a, _ in vertices))
    marks = [m for m in marks if len(m[1])]
    if marks:
        o["hlpts"] = enc.arr(np.concatenate([v for _, v in marks]))
        o["hlsizes"] = enc.arr(np.concatenate([sizes(a, len(v)) for a, v in marks]))
        o["hlrgb"] = enc.arr(np.concatenate([cycle(collections.Collection.get_edgecolor(a), len(v))[:, :3] for a, v in marks]))
    if segs:
        o["segs"] = enc.arr(np.concatenate([s for _, s in segs]))
        o["widths"] = enc.arr(np.concatenate([cycle(a.get_linewidth(), len(s)) for a, s in segs]))
        o["ecolors"] = enc.arr(np.concatenate([cycle(a.get_colors() if hasattr(a, "get_colors") else a.get_color(), len(s)) for a, s in segs]))
        o["solid"] = enc.flag(all(st[1] is None for a, _ in segs for st in a.get_linestyle()))
    o["ylim"] = enc.arr(ax.get_ylim())
    o["title"] = ax.get_title()
    o["view"] = [enc.num(getattr(ax, "elev", 0)), enc.num(getattr(ax, "azim", 0))]
    return o


# Graphs and options.

def signal(n, rng, many=False):
    while True:
        x = rng.integers(-40, 41, (n, int(rng.integers(1, 5))) if many else n) / 8
        c = rng.integers(6)
        if c == 0:
            x = x * 0 + float(rng.integers(-3, 3))
        elif c == 1:
            x = np.abs(x) + 1
        elif c == 2:
            x = -np.abs(x) - 1
        if np.all((x >= 0) & (x <= 1)) and (n in (3, 4) or x.shape[-1] in (3, 4)):
            continue     # could be a color
        break
    c = rng.integers(8)
    if c == 0:
        return x, x.tolist()
    if c == 1 and not many:
        return x, x[:, None]
    if c == 2 and not many:
        return x, x[None, :]
    if c == 3:
        x = np.rint(x)
        if np.all((x >= 0) & (x <= 1)):
            x = x + 2
        return x, x.astype(int)
    if c == 4:
        return x, np.asfortranarray(np.repeat(x, 2, axis=0))[::2]
    return x, x


def colors(n, rng, d):
    """Colors of n items: what they are, and how to ask for them."""
    from matplotlib.colors import to_rgba
    c = int(rng.integers(5 if d > 1 else 3))
    name = ["k", "red", "#12ab9f", "0.25", "C3", "darkgreen"][int(rng.integers(6))]
    if c == 0:
        return np.tile(to_rgba(name), (n, 1)), name
    if c == 1 and n != 3:       # else it might be a signal
        v = tuple(rng.integers(0, 9, 3) / 8)
        return np.tile(to_rgba(v), (n, 1)), v
    if c in (1, 2):
        v = tuple(rng.integers(1, 9, 4) / 8)
        return np.tile(to_rgba(v), (n, 1)), (v,)
    if c == 3:
        v = [["k", "red", "#12ab9f", "C3"][int(i)] for i in rng.integers(0, 4, n)]
        return np.array([to_rgba(x) for x in v]).reshape(n, 4), v
    v = rng.integers(1, 9, (n, 3 + int(rng.integers(2)))) / 8
    return np.array([to_rgba(x) for x in v]).reshape(n, 4), v


def random_graph(rng, n, d):
    from pygsp import graphs
    directed = rng.random() < .3
    W = gen.random_weights(rng, n, directed=directed, loops=rng.random() < .3, density=[.1, .5, .9][int(rng.integers(3))])
    plotting = {}
    if rng.random() < .5:
        plotting = dict(vertex_size=int(rng.integers(1, 200)), edge_width=float(rng.integers(1, 40) / 8), normalize_intercept=float(rng.integers(0, 9) / 8),
                        highlight_color="#%06x" % int(rng.integers(2**24)), edge_style=["-", "--"][int(rng.integers(2))],
                        vertex_color=tuple(rng.integers(0, 9, 4) / 8), edge_color=tuple(rng.integers(1, 9, 4) / 8))
        plotting = {k: plotting[k] for k in rng.permutation(list(plotting))[:rng.integers(1, 8)]}
        if d == 3 and rng.random() < .5:
            plotting.update(elevation=float(rng.integers(-80, 80)), azimuth=float(rng.integers(-80, 80)), distance=9)
    given = {str(k): v for k, v in plotting.items()}
    if rng.random() < .5:
        G = graphs.Graph(W, plotting=given)
    else:
        G = graphs.Graph(W)
        G.plotting.update(given)
    x = rng.integers(-40, 41, (n, d)) / 8
    G.coords = x if d > 1 else x[:, 0]
    return G, W, x


def base(G):
    from matplotlib.colors import to_rgba
    p = G.plotting
    return dict(vs=enc.num(p["vertex_size"]), ew=enc.num(p["edge_width"]), c=enc.num(p["normalize_intercept"]),
                ec=[enc.num(v) for v in to_rgba(p["edge_color"])], hc=[enc.num(v) for v in to_rgba(p["highlight_color"])[:3]],
                solid=enc.flag(p["edge_style"] == "-"))


def frozen(v):
    if isinstance(v, dict):
        return {k: frozen(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [frozen(x) for x in v]
    if isinstance(v, np.ndarray):
        return enc.exact(v) if v.dtype.kind in "biuf" else v.tolist()
    return v if isinstance(v, (int, float, str, type(None))) else repr(v)


def widgets():
    """The windows which are open."""
    from pyqtgraph.Qt import QtWidgets
    app = QtWidgets.QApplication.instance()
    return [w for w in app.topLevelWidgets() if w.isVisible()] if app is not None else []


def tracked():
    from pygsp import plotting
    return sum(len(getattr(plotting, name, ())) for name in ("_plt_figures", "_qtg_widgets"))


def axes(rng, d):
    """Axes of the user, with something on them."""
    from matplotlib import pyplot as plt
    if rng.random() < .3:       # not managed by pyplot
        from matplotlib.figure import Figure
        fig = Figure()
    else:
        fig = plt.figure()
    k = int(rng.integers(1, 3))
    ax = fig.add_subplot(1, k, k, projection="3d" if d == 3 else None)
    if rng.random() < .5:
        ax.scatter(*([[0, 1]] * (d if d == 3 else 2)), c="k")
    return fig, ax


def draw_graph(ctx, rng):
    from matplotlib import pyplot as plt
    from pygsp import plotting
    n, d = int(rng.choice([1, 2, 3, 4, 5, 7])), int(rng.choice([1, 2, 2, 2, 3]))
    G, W, x = random_graph(rng, n, d)
    ne = G.n_edges
    kw = {}
    r = dict(n=n, dim=d, W=enc.arr(W), coords=enc.arr(x), base=base(G), size=dict(kind="none"), ewidth=dict(kind="none"),
             ecolor=dict(kind="none"), limits=[], highlight=[], indices="F", colorbar="T", title="?", edges="?", view=[])
    c = rng.integers(4)
    if c == 0:
        v, kw["vertex_color"] = colors(n, rng, d)
        r["color"] = dict(kind="rgb", v=enc.arr(v[:, :3]))
    elif c == 1:
        from matplotlib.colors import to_rgba
        r["color"] = dict(kind="rgb", v=enc.arr(np.tile(to_rgba(G.plotting["vertex_color"])[:3], (n, 1))))
    else:
        v, kw["vertex_color"] = signal(n, rng, d == 1 and n > 1 and rng.random() < .3)
        r["color"] = dict(kind="signal", v=enc.arr(v))
    if rng.random() < .5:
        if rng.random() < .4:
            kw["vertex_size"] = [int(rng.integers(1, 300)), float(rng.integers(1, 300)) / 2, np.int64(50)][int(rng.integers(3))]
            r["size"] = dict(kind="scalar", v=enc.arr([float(kw["vertex_size"])]))
        else:
            v, kw["vertex_size"] = signal(n, rng)
            r["size"] = dict(kind="signal", v=enc.arr(v))
    if rng.random() < .5:
        if rng.random() < .4:
            v, kw["edge_color"] = colors(ne, rng, 2)
            r["ecolor"] = dict(kind="rgba", v=enc.arr(v))
        elif ne > 0:
            v, kw["edge_color"] = signal(ne, rng)
            r["ecolor"] = dict(kind="signal", v=enc.arr(v))
    if rng.random() < .5:
        if rng.random() < .4:
            kw["edge_width"] = float(rng.integers(1, 40)) / 4
            r["ewidth"] = dict(kind="scalar", v=enc.arr([kw["edge_width"]]))
        else:
            v, kw["edge_width"] = signal(ne, rng) if ne else (np.zeros(0), np.zeros(0))
            r["ewidth"] = dict(kind="signal", v=enc.arr(v))
    if rng.random() < .4:
        kw["edges"] = bool(rng.random() < .5)
        r["edges"] = enc.flag(kw["edges"])
    if rng.random() < .4:
        h = [int(i) for i in rng.integers(0, n, int(rng.integers(0, 4)))]
        k = rng.integers(6)
        kw["highlight"] = h if k == 0 else tuple(h) if k == 1 else np.array(h, dtype=int) if k == 2 else iter(h) if k == 3 else h
        if k == 4:
            h = [int(rng.integers(n))]
            kw["highlight"] = h[0] if rng.random() < .5 else np.int64(h[0])
        elif k == 5:
            h = list(range(int(rng.integers(1, n + 1))))
            kw["highlight"] = range(len(h))
        r["highlight"] = h
    if rng.random() < .3:
        kw["indices"] = True
        r["indices"] = "T"
    if rng.random() < .3:
        kw["colorbar"] = bool(rng.random() < .5)
        r["colorbar"] = enc.flag(kw["colorbar"])
    if rng.random() < .4 and r["color"]["kind"] == "signal":
        lim = sorted(float(v) for v in rng.choice(np.arange(-50, 51) / 8, 2, replace=False))
        kw["limits"] = lim if rng.random() < .6 else tuple(lim) if rng.random() < .5 else np.array(lim)
        r["limits"] = [enc.num(v) for v in lim]
    if rng.random() < .4:
        kw["title"] = r["title"] = ["", "A title", "$x$"][int(rng.integers(3))]
    if d == 3 and "elevation" in G.plotting:
        r["view"] = [enc.num(G.plotting["elevation"]), enc.num(G.plotting["azimuth"])]
    if rng.random() < .3:
        kw["backend"] = "matplotlib"
    if rng.random() < .3:
        G.compute_fourier_basis()
    if rng.random() < .2:
        G.set_signal(np.arange(n), "s")

    def run():
        fig = ax = None
        plt.close("all")
        if rng.random() < .4:
            fig, ax = axes(rng, d)
            kw["ax"] = ax
        deftitle = G.__repr__(limit=4)
        old = {id(a) for a in ax.get_children()} if ax is not None else set()
        before = set(plt.get_fignums())
        state = (frozen({k: v for k, v in kw.items() if k not in ("ax",)}), enc.exact(G.W), enc.exact(G.coords), frozen(G.plotting), sorted(G.signals), G.lap_type)
        f2, a2 = G.plot(**kw) if rng.random() < .9 or "vertex_color" in kw else G.plot(None, **kw)
        o = observe(a2, old, d, n)
        o["returned"] = enc.flag(a2.figure is f2 and (ax is None or a2 is ax))
        o["same"] = enc.flag(a2 is ax)
        o["ax"], o["deftitle"] = enc.flag(ax is not None), deftitle
        o["newfigs"] = len(set(plt.get_fignums()) - before)
        o["naxes"] = len(f2.axes)
        o["stays"] = enc.flag(state == (frozen({k: v for k, v in kw.items() if k not in ("ax",)}), enc.exact(G.W), enc.exact(G.coords), frozen(G.plotting), sorted(G.signals), G.lap_type))
        plotting.close_all()
        plt.close("all")
        return o
    ctx.rec("graph", r, run)


def random_filter(G, rng):
    from pygsp import filters
    c = int(rng.integers(7))
    nf = int(rng.integers(1, 5))
    if c == 0:
        return filters.Heat(G, scale=[1, 10][:int(rng.integers(1, 3))])
    if c == 1:
        return filters.MexicanHat(G, nf + 1)
    if c == 2:
        return filters.Itersine(G, nf + 1)
    if c == 3:
        return filters.Abspline(G, nf + 1)
    if c == 4:
        return filters.Regular(G)
    if c == 5:
        return filters.Rectangular(G, band_max=.5)
    ks = [(lambda x, k=k: 2 - x / (k + 2)) for k in range(nf)]
    return filters.Filter(G, ks if nf > 1 else ks[0])


def draw_filter(ctx, rng):
    from matplotlib import collections, pyplot as plt, colors as mc
    from pygsp import graphs, plotting
    n = int(rng.integers(3, 8))
    W = gen.connected_weights(rng, n)
    G = graphs.Graph(W)
    if rng.random() < .3:
        G.compute_laplacian("normalized")
    if rng.random() < .3:
        G.set_coordinates("random3D" if rng.random() < .5 else "random2D")
    basis = rng.random() < .6
    if basis:
        c = int(rng.integers(4))        # eigenvalues are available whatever the largest one comes from
        G.compute_fourier_basis(int(rng.integers(1, n)) if c == 0 else None)
        if c < 2:
            G.estimate_lmax("bounds")
    else:
        G.estimate_lmax(["bounds", "lanczos"][int(rng.integers(2))])
    g = random_filter(G, rng)
    pts = int(rng.integers(2, 30))
    kw = dict(n=pts)
    r = dict(n=pts, nf=g.n_filters, lmax=enc.num(G.lmax), e=enc.arr(G.e) if basis else NONE, title="?", lw=0)
    r["sum"], r["labels"], r["eigenvalues"] = enc.flag(g.n_filters > 1), enc.flag(g.n_filters > 1), enc.flag(basis)
    for name in ("sum", "labels", "eigenvalues"):
        if rng.random() < .4:
            kw[name] = bool(rng.random() < .5)
            if name == "eigenvalues" and not basis:
                kw[name] = False
            r[name] = enc.flag(kw[name])
    if rng.random() < .3:
        kw["title"] = r["title"] = "A title"
    if rng.random() < .3:
        kw["linewidth"] = int(rng.integers(1, 6))
        r["lw"] = kw["linewidth"]
    d = 2

    def run():
        plt.close("all")
        ax = None
        if rng.random() < .4:
            fig, ax = axes(rng, d)
            kw["ax"] = ax
        deftitle = repr(g)
        old = {id(a) for a in ax.get_children()} if ax is not None else set()
        before = set(plt.get_fignums())
        state = (frozen({k: v for k, v in kw.items() if k != "ax"}), enc.exact(G.W), frozen(G.plotting), G.lmax, getattr(G, "_e", None) is None, repr(g))
        f2, a2 = g.plot(**kw)
        o = dict(curves=[], dots=[], bars={"s": [0], "v": []}, legend=[], cbar="F")
        for a in a2.get_children():
            if id(a) in old:
                continue
            if hasattr(a, "get_xdata"):
                x, y = np.asarray(a.get_xdata()), a.get_ydata()
                c = dict(x=enc.arr(x), y=enc.arr(y), lw=int(a.get_linewidth()), rgb=mc.to_hex(a.get_color()))
                dots = a.get_linestyle() in ("None", "none", "", " ")
                o["dots" if dots else "curves"].append(c)
            elif isinstance(a, collections.LineCollection):
                s = np.asarray(a.get_segments())
                ok = np.all(s[:, 0, 0] == s[:, 1, 0]) and np.all(np.sort(s[:, :, 1]) == [0, 1]) and a.get_transform() == a2.get_xaxis_transform()
                o["bars"] = enc.arr(s[:, 0, 0]) if ok else NONE
        o["ref"] = [enc.arr(v) for v in g.evaluate(merge(G, pts, r["eigenvalues"] == "T"))]
        o["eref"] = [enc.arr(v) for v in g.evaluate(G.e)] if basis else []
        leg = a2.get_legend()
        for t in (leg.get_texts() if leg else []):
            m = re.match(r"\$g_\{(\d+)\}\(\\lambda\)\$$", t.get_text())
            o["legend"].append(int(m.group(1)) if m else -1 if "sum" in t.get_text() else -2)
        o["title"] = a2.get_title()
        o["returned"] = enc.flag(a2.figure is f2 and (ax is None or a2 is ax))
        o["same"] = enc.flag(a2 is ax)
        o["ax"], o["deftitle"] = enc.flag(ax is not None), deftitle
        o["newfigs"] = len(set(plt.get_fignums()) - before)
        o["naxes"] = len(f2.axes)
        o["stays"] = enc.flag(state == (frozen({k: v for k, v in kw.items() if k != "ax"}), enc.exact(G.W), frozen(G.plotting), G.lmax, getattr(G, "_e", None) is None, repr(g)))
        plotting.close_all()
        plt.close("all")
        return o
    ctx.rec("filter", r, run)


def merge(G, n, eigenvalues):
    x = np.linspace(0, G.lmax, n)
    return np.sort(np.concatenate([x, G.e])) if eigenvalues else x


def draw_qt(ctx, rng):
    from matplotlib import pyplot as plt
    from pygsp import plotting
    n, d = int(rng.choice([2, 3, 5, 7])), int(rng.choice([2, 2, 3]))
    G, W, x = random_graph(rng, n, d)
    r = dict(n=n, dim=d, W=enc.arr(W), coords=enc.arr(x), signal=NONE, limits=[], edges="T", title="?")
    kw = dict(backend="pyqtgraph", title="A title %d" % int(rng.integers(100)))
    r["title"] = kw["title"]
    if rng.random() < .7:
        v, kw["vertex_color"] = signal(n, rng)
        r["signal"] = enc.arr(v)
        if rng.random() < .4:
            lim = sorted(float(a) for a in rng.choice(np.arange(-50, 51) / 8, 2, replace=False))
            kw["limits"] = lim
            r["limits"] = [enc.num(a) for a in lim]
    if rng.random() < .4:
        kw["edges"] = bool(rng.random() < .5)
        r["edges"] = enc.flag(kw["edges"])

    def run():
        plt.close("all")
        plotting.close_all()
        if rng.random() < .3:
            plotting.BACKEND = "pyqtgraph"
            k2 = {k: v for k, v in kw.items() if k != "backend"}
        else:
            k2 = kw
        try:
            G.plot(**k2)
        finally:
            plotting.BACKEND = "matplotlib"
        ws = widgets()
        o = dict(widgets=len(ws), newfigs=len(plt.get_fignums()), adj=[], pen="F", segs=no(3), rgb=NONE, pts=no(2))
        w = ws[-1]
        o["title"] = w.windowTitle()
        o["visible"] = enc.flag(w.isVisible())
        if d == 2:
            items = list(list(w.centralWidget.items)[0].addedItems)
            for it in items:
                if type(it).__name__ == "GraphItem":
                    o["adj"] = [[int(a) for a in e] for e in it.adjacency] if it.adjacency is not None else []
                    o["pen"] = enc.flag(it.pen is not None)
                    o["pts"] = enc.arr(it.pos)
            for it in items:
                if type(it).__name__ == "ScatterPlotItem":
                    o["pts"] = enc.arr(np.stack([it.data["x"], it.data["y"]], axis=1))
                    o["rgb"] = enc.arr(np.array([b.color().getRgb()[:3] for b in it.data["brush"]], dtype=float))
        else:
            for it in w.items:
                if type(it).__name__ == "GLLinePlotItem":
                    o["segs"] = enc.arr(it.pos)
                else:
                    o["pts"] = enc.arr(it.pos)
                    if r["signal"] is not NONE:
                        o["rgb"] = enc.arr(np.asarray(it.color)[:, :3] * 255)
        G.plot(**k2, **({} if "backend" in k2 else dict(backend="pyqtgraph")))
        o["second"] = len(widgets())
        plotting.close_all()
        o["closed"] = enc.flag(not w.isVisible() and widgets() == [])
        o["left"] = tracked()
        plotting.close_all()
        return o
    ctx.rec("qt", r, run)


def draw_spectrogram(ctx, rng):
    from pygsp import features, graphs, plotting
    n, m = int(rng.integers(4, 8)), int(rng.integers(2, 5))
    G = graphs.Graph(gen.connected_weights(rng, n))
    G.estimate_lmax("bounds")
    features.compute_spectrogram(G, M=m)
    kw = {}
    order = [int(i) for i in rng.permutation(n)]
    if rng.random() < .6:
        kw["node_idx"] = np.array(order) if rng.random() < .5 else order
    else:
        order = list(range(n))

    def run():
        plotting.close_all()
        title, spectr = "Spectrogram of " + G.__repr__(limit=4), enc.arr(G.spectr)
        G.plot_spectrogram(**kw)
        ws = widgets()
        w = ws[-1]
        it = list(w.centralWidget.items)[0].items[0]
        o = dict(x=[enc.integer(v) for v in it.data["x"]], y=[enc.integer(v) for v in it.data["y"]], title=w.windowTitle(), deftitle=title, spectr=spectr,
                 rgb=enc.arr(np.array([b.color().getRgb()[:3] for b in it.data["brush"]], dtype=float)),
                 widgets=len(ws), visible=enc.flag(w.isVisible()))
        plotting.close_all()
        return o
    r = dict(n=n, m=m, order=order)
    ctx.rec("spectrogram", r, run)


def history(ctx, hist, i):
    """Replay a history of the model."""
    from matplotlib import pyplot as plt
    from pygsp import filters, graphs, plotting
    rng = ctx.rng(i)
    plotting.close_all()
    plt.close("all")
    G = graphs.Path(3)
    G.set_coordinates("line2D")
    G.estimate_lmax("bounds")
    g = filters.Heat(G, 3)
    figs, opens, ret, last, nested = [], [], True, None, 0
    track = True

    def plot(**kw):
        c = rng.integers(3)
        return G.plot(**kw) if c == 0 else G.plot([1, 2, 3], edges=False, **kw) if c == 1 else g.plot(n=5, **kw)

    def run():
        nonlocal ret, track
        for s in hist:
            a, f = s["a"], s["f"]
            if a == "plot":
                fig, ax = plot()
                ret = ret and ax.figure is fig and fig not in figs
                figs.append(fig)
            elif a == "user":
                fig = plt.figure()
                fig.add_subplot(111)
                figs.append(fig)
            elif a == "on":
                if f <= len(figs):
                    ax = figs[f - 1].axes[0]
                    res = plot(ax=ax)
                    ret = ret and res[0] is figs[f - 1] and res[1] is ax
            elif a == "close":
                c = rng.integers(2)
                (plt.close if c else plotting.close)(figs[f - 1])
            elif a == "closeall":
                plotting.close_all()
                track = track and tracked() == 0
            elif a == "everything":
                (plt.close if rng.random() < .5 else plotting.close)("all")
            elif a == "refused":
                c = int(rng.integers(4))
                try:
                    [lambda: G.plot(np.arange(4)), lambda: G.plot(vertex_size=[1, 2]), lambda: G.plot(backend="x"), lambda: G.plot(edge_width=np.ones(5))][c]()
                    ret = False
                except ValueError:
                    pass
            nums = {id(plt.figure(k)) for k in plt.get_fignums()}
            opens.append([k + 1 for k, fig in enumerate(figs) if id(fig) in nums])
            if len(nums) != len(opens[-1]):
                opens[-1].append(-1)
        return dict(open=opens, tracked=enc.flag(track), returned=enc.flag(ret))

    ctx.rec("history", dict(hist=hist), run)
    plt.close("all")
    plotting.close_all()


def many(ctx):
    from pygsp import graphs, plotting
    n = 145
    for ne in (9999, 10000, 10001, 500):
        rows, cols = np.triu_indices(n, 1)
        W = np.zeros((n, n))
        W[rows[:ne], cols[:ne]] = W[cols[:ne], rows[:ne]] = 1
        G = graphs.Graph(W)
        G.set_coordinates("ring2D")

        def run():
            fig, ax = G.plot()
            k = sum(len(c.get_segments()) for c in ax.collections if hasattr(c, "get_segments"))
            fig, ax = G.plot(edges=True)
            k2 = sum(len(c.get_segments()) for c in ax.collections if hasattr(c, "get_segments"))
            plotting.close_all()
            return dict(drawn=k, asked=k2)
        ctx.rec("many", dict(ne=ne), run)


def cases(ctx):
    res = []
    for m in models(ctx.tier):
        if m["module"] != "FiguresMC":
            continue
        with open(os.path.join(ctx.workdir, "%s.json" % m["cfg"])) as fh:
            xs = json.load(fh)
        if not ctx.thorough:
            xs = xs[ctx.seed % 9::9]
        elif m["cfg"] == "FiguresMC6":
            xs = xs[ctx.seed % 5::5]
        for b in range(0, len(xs), 50):
            res.append(("%s-%d" % (m["cfg"], b), lambda ctx, part=xs[b:b + 50]: [history(ctx, x, i) for i, x in enumerate(part)]))
    mult = 12 if ctx.thorough else 1
    for rep in range(40 * mult):
        def fn(ctx):
            for i in range(12):
                rng = ctx.rng(i)
                draw_graph(ctx, rng)
                if i % 3 == 0:
                    draw_filter(ctx, rng)
                if i % 6 == 0:
                    draw_qt(ctx, rng)
                if i % 12 == 0:
                    draw_spectrogram(ctx, rng)
        res.append(("rand-%d" % rep, fn))
    res.append(("many", many))
    return res
