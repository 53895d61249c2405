"""C36: drawings show the graph they were made from."""
import networkx as nx
import numpy as np

from graphs import families, random_planar, relabel
from rec import api

MC = [{"module": "M_C36", "exact_states": 3965, "workers": "2"},
      {"module": "M_C36", "cfg": "M_C36_four.cfg", "exact_states": 20485, "workers": "3"},
      {"module": "M_C36", "cfg": "M_C36_convex.cfg", "refute": "NoCrossings", "workers": "1"},
      {"module": "M_C36", "cfg": "M_C36_straight.cfg", "refute": "WeightsReadable", "workers": "1"},
      {"module": "M_C36", "cfg": "M_C36_deep.cfg", "tier": "thorough", "exact_states": 40960, "workers": "4"}]
ASSUMPTIONS = ["the figure is what matplotlib's Agg backend holds when show() is called; red marks are highlights",
               "node names are the nodes' str(); orientation matrices are indexed by nodes 0..n-1"]
EMPTY = {"ok": False, "shown": 0, "dots": [], "names": [], "lines": [], "arrows": [], "redlines": [], "redarrows": [], "texts": [], "title": ""}
S = 8


def read(plt):
    """marks of the current figure, as they come: no reference to what was to be drawn"""
    from matplotlib.collections import LineCollection, PathCollection
    from matplotlib.colors import to_rgba
    from matplotlib.patches import FancyArrowPatch
    o = dict(EMPTY, ok=True, dots=[], names=[], lines=[], arrows=[], redlines=[], redarrows=[], texts=[])
    if not plt.get_fignums():
        return EMPTY
    fig = plt.gcf()
    fig.canvas.draw()
    texts = []

    def red(c):
        return tuple(round(float(x), 3) for x in np.ravel(c)[:3]) == (1.0, 0.0, 0.0)
    for ax in fig.axes:
        def pt(p):
            q = ax.transData.transform((float(p[0]), float(p[1])))
            return [int(round(S * q[0])), int(round(S * q[1]))]
        for c in ax.collections:
            if isinstance(c, LineCollection):
                cols = c.get_colors()
                for k, s in enumerate(c.get_segments()):
                    o["redlines" if red(cols[k % len(cols)]) else "lines"].append([pt(s[0]), pt(s[-1])])
            elif isinstance(c, PathCollection):
                o["dots"] += [pt(x) for x in c.get_offsets()]
        for p in ax.patches:
            if isinstance(p, FancyArrowPatch):
                a, b = p._posA_posB
                st = getattr(p.get_arrowstyle(), "arrow", "-")
                isred = red(to_rgba(p.get_edgecolor()))
                if st.endswith(">"):
                    o["redarrows" if isred else "arrows"].append([pt(a), pt(b)])
                elif st.startswith("<"):
                    o["redarrows" if isred else "arrows"].append([pt(b), pt(a)])
                else:
                    o["redlines" if isred else "lines"].append([pt(a), pt(b)])
        for t in ax.texts:
            if t.get_visible() and t.get_text():
                texts.append((t.get_text(), pt(t.get_position())))
        if ax.get_title():
            o["title"] += ax.get_title()
    for s, p in texts:
        if p in o["dots"]:
            o["names"].append([s, p])
        else:
            try:
                o["texts"].append([int(round(1e4 * float(s)))] + p)
            except (ValueError, OverflowError):
                return dict(EMPTY)
    return o


def drive(ctx):
    import matplotlib.pyplot as plt
    rng = ctx.rng
    plane, weights, pfo_of = api("plot_planar_embedding"), api("plot_graph_with_edge_weights"), api("pfo_algorithm")
    snap = []

    def show(*a, **k):
        snap.append(read(plt))
    real, plt.show = plt.show, show

    def figure(fn, *a, **k):
        plt.close("all")
        del snap[:]
        try:
            v, exc, _ = ctx.call(fn, *a, **k)
            o = snap[-1] if snap else read(plt)
            o = dict(o, shown=len(snap))
        finally:
            plt.close("all")
        return v, exc, o

    def title(k):
        t = [None, None, "Matching", "A & B", "0"][int(rng.integers(0, 5))]
        if t is not None:
            k["title"] = t
        return t or ""

    def planar(G, P, name):
        ns = list(G.nodes())
        pos = {x: i + 1 for i, x in enumerate(ns)}
        es, orient = [], []
        for u, v in G.edges():
            es.append([pos[u], pos[v]])
            if P is not None:
                lo, hi = min(u, v), max(u, v)
                if P[lo, hi] < 0:
                    orient.append([pos[lo], pos[hi]])
                elif P[lo, hi] > 0:
                    orient.append([pos[hi], pos[lo]])
        k = {}
        t = title(k)
        args = (G,) if P is None else (G, P)
        if P is not None and rng.integers(0, 2):
            args, k = (G,), dict(k, pfo=P)
        v, exc, o = figure(plane, *args, **k)
        can = None
        if o["ok"] and o["redarrows"]:
            can = (("out", "redarrows", 0, 0), o["redarrows"][0][1])
        elif o["ok"] and o["lines"]:
            can = (("out", "lines", 0, 0), [-1, -1])
        ctx.emit("plane", o, exc, "plot_planar_embedding(%s: nodes %s, edges %s, %s, %s)" % (name, ns, list(G.edges()), None if P is None else P.tolist(), k.get("title")),
                 can, n=len(ns), names=[str(x) for x in ns], es=es, orient=orient, title=t, w=40 + len(es) ** 2, fn="plain" if P is None else "oriented")

    def weighted(X, M, match, name):
        """X the argument, M the matrix it stands for"""
        n = M.shape[0]
        d = not np.allclose(M, M.T)
        en = [[i + 1, j + 1, int(round(round(1e4 * M[i, j])))] for i in range(n) for j in range(n) if M[i, j] != 0 and (d or i < j)]
        k = {}
        t = title(k)
        mt = []
        if match is not None:
            at = [e for e in en if e[0] != e[1]]
            mt = [at[int(i)] for i in rng.permutation(len(at))[:match]]
            k["matching"] = [(e[0] - 1, e[1] - 1) if d or rng.integers(0, 2) else (e[1] - 1, e[0] - 1) for e in mt]
        v, exc, o = figure(weights, X, **k)
        can = None
        if o["ok"] and o["texts"]:
            can = (("out", "texts", 0, 0), 70000)
        ctx.emit("weights", o, exc, "plot_graph_with_edge_weights(%s %s, %s)" % (name, M.tolist(), k), can, n=n, names=[str(i) for i in range(n)],
                 directed=bool(d), entries=en, match=[e[:2] for e in mt], title=t, w=40 + len(en) ** 2, fn="directed" if d else "symmetric")

    try:
        sc = ctx.scen
        pl = [s for s in sc if s["mode"] == "pfo" and s["n"] == 4]
        ws = [s for s in sc if s["mode"] == "weights" and s["n"] == 3]
        for i in rng.choice(len(pl), ctx.q(90, 900), replace=False):
            s = pl[int(i)]
            n = s["n"]
            G = nx.Graph()
            G.add_nodes_from(int(x) for x in rng.permutation(n))
            P = np.zeros((n, n))
            for u, v, x in s["a"]:
                G.add_edge(*((u - 1, v - 1) if rng.integers(0, 2) else (v - 1, u - 1)))
                P[u - 1, v - 1] = 0 if x == 9 else x
                if rng.integers(0, 2):
                    P[v - 1, u - 1] = -P[u - 1, v - 1]
            planar(G, P, "scenario")
        for i in rng.choice(len(ws), ctx.q(90, 729), replace=False):
            s = ws[int(i)]
            M = np.zeros((3, 3))
            for u, v, x in s["a"]:
                M[u - 1, v - 1] = x
            weighted(M, M, [None, 0, 1, 2][int(rng.integers(0, 4))], "scenario")
        for name, G in families():
            if G.number_of_nodes() > 12:
                continue
            H, _ = relabel(rng, G, "ints")
            planar(H, np.asarray(ctx.call(pfo_of, H, _forms=False)[0]), name)
            for how in (["str", "tuple", "neg", "big"] if ctx.thorough else [["str", "tuple", "neg", "big"][int(rng.integers(0, 4))]]):
                H, _ = relabel(rng, G, how)
                planar(H, None, name)
        for k in range(ctx.q(40, 500)):
            n = int(rng.integers(1, 11))
            G = random_planar(rng, n, connected=bool(rng.integers(0, 3)))
            G, _ = relabel(rng, G, "ints")
            P = rng.integers(-1, 2, size=(n, n)).astype(float) * rng.choice([1, .5, 3])
            planar(G, P, "random")
        for k in range(ctx.q(80, 900)):
            n = int(rng.integers(1, 8))
            M = rng.normal(size=(n, n)) * [1, 1, 30, .01][int(rng.integers(0, 4))] if k % 2 else rng.integers(-3, 4, size=(n, n)).astype(float)
            M[rng.random((n, n)) < rng.choice([0, .4, .8])] = 0
            M[np.abs(M) < 2e-4] = 0
            if k % 3:
                M = np.triu(M, 1) + np.triu(M, int(rng.integers(0, 2))).T
                if rng.random() < .25 and n > 1:        # not quite symmetric
                    i, j = rng.permutation(n)[:2]
                    M[i, j] += rng.choice([2e-3, -5e-3, 7e-4]) if M[i, j] > .1 else 0
            if n <= 2:                   # a loop has no height when all nodes are on one line
                np.fill_diagonal(M, 0)
            m = None if rng.integers(0, 3) == 0 else int(rng.integers(0, 4))
            if k % 4 == 0:
                G = (nx.from_numpy_array(M) if np.allclose(M, M.T) else nx.from_numpy_array(M, create_using=nx.DiGraph))
                G = nx.relabel_nodes(G, {i: "node %d" % (7 * i % 11) for i in range(n)}) if rng.integers(0, 2) else G
                weighted(G, M, m, "graph of")
            else:
                weighted(M, M, m, "matrix")
    finally:
        plt.show = real
        plt.close("all")
