"""C20: faces and the dual graph."""
import networkx as nx
import numpy as np
from networkx.algorithms.planar_drawing import triangulate_embedding

from graphs import families, grid, random_planar, relabel
from rec import api

MC = [{"module": "M_C20", "expect_states": 500, "workers": "4"},
      {"module": "M_C20", "cfg": "M_C20_any.cfg", "refute": "Euler", "workers": "2"},
      {"module": "M_C20", "cfg": "M_C20_deep.cfg", "tier": "thorough", "workers": "6", "timeout": 850}]
ASSUMPTIONS = ["graphs are planar, have at least one edge and labels that can be compared with each other"]
LABELS = ["same", "ints", "big", "neg", "str", "tuple"]


def encfaces(v, pos):
    try:
        return {"ok": True, "f": [[[pos[e[0]], pos[e[1]]] for e in f] for f in v]}
    except (TypeError, KeyError, IndexError):
        return {"ok": False, "f": []}


def drive(ctx):
    rng = ctx.rng
    ff, dual = api("faces"), api("dual_graph_H")
    nth = [0]

    def edges(G, pos):
        return sorted(sorted((pos[u], pos[v])) for u, v in G.edges())

    def run(G, emb, rot, name):
        """faces of G, with the embedding emb when given (rot its triples), and duals"""
        ns = list(G.nodes())
        pos = {x: i + 1 for i, x in enumerate(ns)}
        es = edges(G, pos)
        out = sorted(pos[x] for x in set(triangulate_embedding(emb if emb is not None else nx.check_planarity(G)[1], False)[1]))
        v, exc, _ = ctx.call(ff, G, emb) if emb is not None else ctx.call(ff, G)
        o = encfaces(v, pos)
        can = None
        if o["ok"] and exc == "" and o["f"] and o["f"][0]:
            can = (("out", "f", 0, 0, 1), 1)
        ctx.emit("faces", o, exc, "faces(%s: nodes %s, edges %s%s)" % (name, ns, list(G.edges()), "" if emb is None else ", embedding %s" % rot),
                 can, es=es, rot=rot, outer=out, w=10 + len(es) ** 2, fn="free" if emb is None else "given")
        if not o["ok"] or exc or not nx.is_connected(G):
            return
        F = v
        nth[0] += 1
        trees = [nx.maximum_spanning_tree(G)]
        # a random spanning tree, and one with other edge attributes and node order
        H = G.copy()
        for a, b in H.edges():
            H[a][b]["weight"] = float(rng.random())
        trees.append(nx.minimum_spanning_tree(H))
        T = nx.bfs_tree(G, ns[int(rng.integers(0, len(ns)))]).to_undirected()
        trees.append(T)
        trees.append(nx.dfs_tree(G, ns[int(rng.integers(0, len(ns)))]).to_undirected())
        # a connected subgraph with all bridges and more edges than a tree
        B = trees[1].copy()
        for a, b in G.edges():
            if rng.integers(0, 3) == 0:
                B.add_edge(a, b)
        trees.append(B)
        # only the bridges
        B = nx.Graph()
        B.add_nodes_from(G)
        B.add_edges_from(nx.bridges(G))
        trees.append(B)
        for i in (range(6) if ctx.thorough else {nth[0] % 6, (nth[0] * 5 + 1) % 4}):
            T = trees[i]
            F2 = [list(f) for f in F]
            if rng.integers(0, 2):            # faces may come in any order
                F2 = [F2[int(j)] for j in rng.permutation(len(F2))]
            v2, exc, _ = ctx.call(dual, G, F2, T)
            try:
                o2 = {"ok": True, "nodes": sorted(int(x) + 1 for x in v2.nodes()), "es": sorted(sorted((int(a) + 1, int(b) + 1)) for a, b in v2.edges())}
                o2["ok"] = not v2.is_directed()
            except (TypeError, ValueError, AttributeError):
                o2 = {"ok": False, "nodes": [], "es": []}
            can = None
            if o2["ok"] and exc == "" and o2["es"]:
                can = (("out", "es", 0, 0), 40)
            ctx.emit("dual", o2, exc, "dual_graph_H(%s: nodes %s, edges %s, %s, tree edges %s)" % (name, ns, list(G.edges()), F2, list(T.edges())), can,
                     es=es, tree=edges(T, pos), faces=encfaces(F2, pos)["f"], spanning=nx.is_tree(T), w=10 + len(es) ** 2)

    sc = ctx.scen
    for t in rng.choice(len(sc), min(len(sc), ctx.q(260, 2500)), replace=False):
        s = sc[int(t)]
        n = s["n"]
        rot = {(a, b): c for a, b, c in s["rot"]}
        G0 = nx.Graph()
        G0.add_nodes_from(range(1, n + 1))
        G0.add_edges_from(sorted({(min(a, b), max(a, b)) for a, b in rot}))
        how = LABELS[int(rng.integers(0, 6))]
        G, _ = relabel(np.random.default_rng(int(t)), G0, how)
        mp = mapping(np.random.default_rng(int(t)), G0, how)
        emb = nx.PlanarEmbedding()
        emb.add_nodes_from(G.nodes())
        for v in range(1, n + 1):
            nb = [b for a, b in rot if a == v]
            if not nb:
                continue
            u = nb[int(rng.integers(0, len(nb)))]
            order = [u]
            while rot[(v, order[-1])] != u:
                order.append(rot[(v, order[-1])])
            prev = None
            for x in order:               # clockwise
                if prev is None:
                    emb.add_half_edge(mp[v], mp[x])
                else:
                    emb.add_half_edge_cw(mp[v], mp[x], mp[prev])
                prev = x
        pos = {x: i + 1 for i, x in enumerate(G.nodes())}
        triples = [[pos[mp[v]], pos[mp[u]], pos[mp[w]]] for (v, u), w in rot.items()]
        run(G, emb, triples, "scenario")
        if rng.integers(0, 2):
            run(G, None, [], "scenario")

    for name, G in families() + [("grid44", grid(4, 4)), ("dodecahedron", nx.dodecahedral_graph()), ("icosahedron", nx.icosahedral_graph())]:
        for how in LABELS if ctx.thorough else ["same", LABELS[int(rng.integers(1, 6))]]:
            H, _ = relabel(rng, G, how)
            run(H, None, [], name)
            emb = nx.check_planarity(H)[1]
            pos = {x: i + 1 for i, x in enumerate(H.nodes())}
            run(H, emb, [[pos[v], pos[u], pos[emb[v][u]["cw"]]] for v in H for u in H[v]], name)
    for k in range(ctx.q(126, 930)):
        G = random_planar(rng, int(rng.integers(2, 12)) if k % 21 else int(rng.integers(14, 31)), connected=bool(rng.integers(0, 4)))
        if G.number_of_edges() == 0:
            continue
        H, _ = relabel(rng, G, LABELS[int(rng.integers(0, 6))])
        run(H, None, [], "random")


def mapping(rng, G0, how):
    """node map used by relabel with this generator"""
    n = G0.number_of_nodes()
    p = rng.permutation(n)
    old = list(G0.nodes())
    lab = {"ints": lambda i: int(p[i]), "big": lambda i: int(p[i]) * 7 + 3, "neg": lambda i: int(p[i]) - n // 2,
           "str": lambda i: "v%s%d" % ("zyxwabcdefgh"[int(p[i]) % 12], int(p[i])), "tuple": lambda i: (int(p[i]) % 3, int(p[i])),
           "same": lambda i: i}[how]
    return {old[i]: lab(i) for i in range(n)}
