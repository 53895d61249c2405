"""C21: matching enumeration, counting, tree depth, random planar graphs, plotted graphs."""
import os

os.environ.setdefault("MPLBACKEND", "Agg")
import networkx as nx
import numpy as np

from graphs import families, random_planar, relabel
from props.C18 import whole
from rec import api

MC = [{"module": "M_C21", "expect_states": 1000, "workers": "4"},
      {"module": "M_C21", "cfg": "M_C21_deep.cfg", "tier": "thorough", "workers": "6", "timeout": 850}]
ASSUMPTIONS = ["at most 14 nodes for the enumeration", "plotted weights avoid rounding ties"]
LABELS = ["same", "ints", "big", "neg", "str", "tuple"]


def drive(ctx):
    rng = ctx.rng
    brute, count, depth = api("find_perfect_matchings_brute"), api("count_perfect_matchings"), api("compute_tree_depth")
    rand, plot = api("generate_random_planar_graph"), api("plot_graph_with_edge_weights")

    def graph(G, how, name):
        H, _ = relabel(rng, G, how)
        ns = list(H.nodes())
        pos = {x: i + 1 for i, x in enumerate(ns)}
        es = sorted(sorted((pos[u], pos[v])) for u, v in H.edges())
        n = len(ns)
        call = "(%s: nodes %s, edges %s)" % (name, ns, list(H.edges()))
        import math
        if n <= 16 and math.comb(len(es), n // 2) <= 60000:
            v, exc, _ = ctx.call(brute, H)
            try:
                o = {"ok": True, "ms": [[[pos[e[0]], pos[e[1]]] for e in m] for m in v]}
            except (TypeError, KeyError, IndexError):
                o = {"ok": False, "ms": []}
            can = None
            if o["ok"] and exc == "" and n % 2 == 0 and n:
                can = (("out", "ms"), o["ms"][1:]) if o["ms"] else (("out", "ms"), [es])
            ctx.emit("brute", o, exc, "find_perfect_matchings_brute" + call, can, n=n, es=es, w=30 + 10 * len(o["ms"]))
            if n and (nx.check_planarity(H)[0] or n <= 14):
                v, exc, _ = ctx.call(count, H)
                o = whole(v)
                ctx.emit("count", o, exc, "count_perfect_matchings" + call, (("out", "c"), 1) if o["ok"] else None, n=n, es=es, w=40)
        want_tree = n > 0 and nx.is_tree(H)
        v, exc, _ = ctx.call(depth, H)
        if want_tree:
            o = whole(v)
            ctx.emit("depth", o, exc, "compute_tree_depth" + call, (("out", "c"), 1) if o["ok"] else None, es=es, root=1, w=20)
        elif n:
            ctx.emit("refuse", {"type": exc.split(":")[0] if exc else "none"}, "", "compute_tree_depth" + call,
                     (("out", "type"), "x"), want="ValueError", w=5)

    sc = ctx.scen
    for t in rng.choice(len(sc), min(len(sc), ctx.q(500, 4000)), replace=False):
        s = sc[int(t)]
        G = nx.Graph()
        G.add_nodes_from(range(1, s["n"] + 1))
        G.add_edges_from(sorted(map(tuple, s["E"])))
        graph(G, LABELS[int(rng.integers(0, 6))], "scenario")
    extra = [("K5", nx.complete_graph(5)), ("K6", nx.complete_graph(6)), ("K33", nx.complete_bipartite_graph(3, 3)), ("K34", nx.complete_bipartite_graph(3, 4)),
             ("K44", nx.complete_bipartite_graph(4, 4)), ("K7", nx.complete_graph(7)), ("petersen", nx.petersen_graph()), ("moebius", nx.circulant_graph(8, [1, 4])),
             ("K2,6", nx.complete_bipartite_graph(2, 6)), ("2K33", nx.disjoint_union(nx.complete_bipartite_graph(3, 3), nx.path_graph(2))),
             ("K5+K1", nx.disjoint_union(nx.complete_graph(5), nx.empty_graph(1))), ("K5+K3", nx.disjoint_union(nx.complete_graph(5), nx.complete_graph(3)))]
    for name, G in families() + extra:
        for how in ("same", LABELS[int(rng.integers(1, 6))]):
            graph(G, how, name)
    for _ in range(ctx.q(80, 600)):
        n = int(rng.integers(1, 9))
        graph(nx.gnp_random_graph(n, float(rng.choice([0.3, 0.5, 0.8])), seed=int(rng.integers(0, 10 ** 6))), LABELS[int(rng.integers(0, 6))], "gnp")
    for n in (10, 12, 14, 15, 16):
        for _ in range(ctx.q(2, 8) if n < 15 else 1):
            graph(random_planar(rng, n, m=n + 2 if n < 15 else n), LABELS[int(rng.integers(0, 6))], "planar")
    for k in range(ctx.q(12, 60)):                   # up to the size which is still enumerated
        n = (14, 13, 15, 12, 14, 11)[k % 6]
        G = nx.path_graph(n) if k % 4 else nx.cycle_graph(n)
        for _ in range(int(rng.integers(1, 5))):
            i, j = (int(x) for x in rng.permutation(n)[:2])
            G.add_edge(i, j)
        graph(G, LABELS[int(rng.integers(0, 6))], "chords")
    for _ in range(ctx.q(60, 400)):
        n = int(rng.integers(1, 15)) if _ % 10 else int(rng.integers(20, 60))
        G = nx.Graph()
        G.add_node(0)
        for i in range(1, n):
            G.add_edge(i, max(0, i - 1 - int(rng.integers(0, [1, 2, 4, 20][int(rng.integers(0, 4))]))))
        graph(G, LABELS[int(rng.integers(0, 6))], "tree")
    # a tree plus an edge, a forest: refused
    for _ in range(ctx.q(12, 40)):
        n = int(rng.integers(4, 9))
        G = random_planar(rng, n, m=n)
        graph(G, LABELS[int(rng.integers(0, 6))], "unicyclic")
        T = nx.path_graph(n)
        T.remove_edge(1, 2)
        graph(T, LABELS[int(rng.integers(0, 6))], "forest")

    # random planar graphs
    for n in list(range(2, 10)) + [12, 15, 20, 30]:
        for k in range(ctx.q(5, 25) if n < 20 else ctx.q(2, 8)):
            sd = [None, 0, 1, int(rng.integers(0, 2 ** 31))][k % 4]
            v, exc, _ = ctx.call(rand, n, sd) if k % 2 else ctx.call(rand, n, seed=sd)
            o, rot, can = {"ok": False, "none": v is None, "nodes": [], "es": []}, [], None
            if isinstance(v, nx.Graph) and not v.is_directed() and not v.is_multigraph():
                try:
                    o.update(ok=True, nodes=sorted(int(x) + 1 for x in v.nodes()), es=sorted(sorted((int(a) + 1, int(b) + 1)) for a, b in v.edges()))
                    pl, emb = nx.check_planarity(v)
                    if pl:
                        rot = [[int(a) + 1, int(b) + 1, int(emb[a][b]["cw"]) + 1] for a in v for b in v[a]]
                    can = (("out", "nodes", 0), 50)
                except (TypeError, ValueError):
                    o["ok"] = False
            ctx.emit("random", o, exc, "generate_random_planar_graph(%d, seed=%s)" % (n, sd), can, n=n, rot=rot, w=20 + n * n)

    # the graph behind a plot
    import matplotlib.pyplot as plt
    for i in range(ctx.q(60, 300)):
        n = int(rng.integers(1, 7))
        kind = ["sym", "asym", "skew", "diag", "near", "graph", "digraph"][i % 7]
        U = rng.integers(-300000, 300000, size=(n, n))
        U = np.where(rng.random((n, n)) < 0.35, 0, U)
        U = np.where((U % 10) == 5, U + 1, U)
        small = rng.random((n, n)) < 0.1
        U = np.where(small, rng.integers(1, 4, size=(n, n)), U)
        if kind in ("sym", "graph"):
            U = np.triu(U) + np.triu(U, 1).T
        elif kind == "skew":
            U = np.triu(U, 1) - np.triu(U, 1).T
        elif kind == "diag":
            U = np.diag(np.diag(U))
        elif kind == "near" and n > 1:
            U = np.triu(U) + np.triu(U, 1).T
            U[0, n - 1] = U[n - 1, 0] = 20000
            U[0, n - 1] += 21           # larger than any tolerance
        A = U / 1e5
        arg = A
        if kind == "graph":
            arg = nx.from_numpy_array(A)
        elif kind == "digraph":
            arg = nx.from_numpy_array(A, create_using=nx.DiGraph)
        kw = {}
        if i % 3 == 1:
            kw["title"] = "t"
        if i % 4 == 1 and kind == "sym":
            e = [(a, b) for a in range(n) for b in range(a) if U[a, b]]
            if e:
                kw["matching"] = e[:1]
        v, exc, _ = ctx.call(plot, arg, **kw)
        plt.close("all")
        o, can = {"ok": False, "directed": False, "nodes": [], "ws": []}, None
        if isinstance(v, nx.Graph):
            try:
                ws = []
                good = True
                for a, b, w in v.edges(data="weight"):
                    q = float(w) * 1e4
                    good = good and abs(q - round(q)) < 1e-6
                    ws.append([int(a) + 1, int(b) + 1, int(round(q))])
                o = {"ok": good, "directed": v.is_directed(), "nodes": sorted(int(x) + 1 for x in v.nodes()), "ws": ws}
                can = (("out", "ws", 0, 2), 1) if ws else (("out", "directed"), not v.is_directed())
            except (TypeError, ValueError):
                pass
        ctx.emit("plot", o, exc, "plot_graph_with_edge_weights(%s %s)" % (kind, A.tolist()), can, A=[[int(x) for x in r] for r in U], w=20)
