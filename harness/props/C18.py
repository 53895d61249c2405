"""C18: weighted perfect matchings of planar graphs."""
import networkx as nx
import numpy as np

from graphs import families, grid, random_planar, relabel
from rec import api

MC = [{"module": "M_C18", "expect_states": 10000, "workers": "4"},
      {"module": "M_C18", "cfg": "M_C18_deep.cfg", "tier": "thorough", "workers": "4", "timeout": 850}]
ASSUMPTIONS = ["counts are compared as integers after rounding (relative error below 1e-6 accepted)"]
LABELS = ["same", "ints", "big", "neg", "str", "tuple"]


def whole(v, scale=1.0):
    try:
        if isinstance(v, (str, bytes)) or v is None:
            raise TypeError
        c = np.asarray(v, dtype=complex)
        if c.size != 1:
            raise TypeError
        a = abs(complex(c.reshape(-1)[0])) / scale
        k = int(round(a))
        if abs(a - k) > 1e-4 + 1e-6 * a or k > 2 ** 30:
            return {"ok": False, "c": 0}
        return {"ok": True, "c": k}
    except (TypeError, ValueError):
        return {"ok": False, "c": 0}


def drive(ctx):
    rng = ctx.rng
    f = api("count_perfect_matchings_planar")

    def build(n, ws, how, unit=1):
        G = nx.Graph()
        G.add_nodes_from(range(1, n + 1))
        for u, v, w in ws:
            G.add_edge(u, v, weight=w * unit)
        return relabel(rng, G, how)[0]

    def count(n, ws, how="same", weighted=True, unit=1):
        """weights in units of unit"""
        if weighted:
            G = build(n, ws, how, unit)
        else:                                  # no weight attribute at all
            G = nx.Graph()
            G.add_nodes_from(range(1, n + 1))
            G.add_edges_from((u, v) for u, v, _ in ws)
            G = relabel(rng, G, how)[0]
        v, exc, _ = ctx.call(f, G)
        o = whole(v, float(unit) ** (n // 2))
        ctx.emit("count", o, exc, "count_perfect_matchings_planar(%d nodes, edges %s, labels %s)" % (n, list(G.edges(data="weight")), how),
                 (("out", "c"), 1) if o["ok"] else None, n=n, ws=ws, w=40 + 3 ** min(n, 10) // 4)
        return o

    # histories of the model
    sc = [s for s in ctx.scen if s["ws"]]
    for t in rng.choice(len(sc), min(len(sc), ctx.q(600, 5000)), replace=False):
        s = sc[int(t)]
        count(s["n"], s["ws"], LABELS[int(rng.integers(0, 6))])

    # graphs grown edge by edge, counted after every edge
    sess = 0
    for _ in range(ctx.q(14, 80)):
        sess += 1
        n = int(rng.integers(4, 9))
        G = random_planar(rng, n)
        es = [tuple(sorted((u + 1, v + 1))) for u, v in G.edges()]
        es = [es[int(i)] for i in rng.permutation(len(es))]
        how = LABELS[int(rng.integers(0, 6))]
        ctx.emit("begin", {"ok": True}, "", "", None, sess=sess, n=n, w=5)
        ws = []
        for u, v in es:
            ws.append([u, v, int(rng.choice([1, 1, 2, 3, -1, -2, 5, 0]))])
            val, exc, _ = ctx.call(f, build(n, ws, how))
            o = whole(val)
            ctx.emit("step", o, exc, "count_perfect_matchings_planar(%d nodes, %s, labels %s)" % (n, ws, how),
                     (("out", "c"), 1) if o["ok"] else None, sess=sess, e=ws[-1], w=100)

    # families and random planar graphs, connected or not, odd or even
    def weights(es, kind):
        pick = {"one": [1], "pos": [1, 2, 3, 4], "neg": [1, -1, 2, -2, 3], "big": [1, 10, 17], "mixed": [1, 1, -1], "zero": [0, 1, 1, 2]}[kind]
        return [[int(u), int(v), int(rng.choice(pick))] for u, v in es]
    for name, G in families():
        n = G.number_of_nodes()
        if n > 10:
            continue
        es = [tuple(sorted((u + 1, v + 1))) for u, v in G.edges()]
        for kind in ("one", "pos", "neg", "big", "zero"):
            for how in ("same", LABELS[int(rng.integers(1, 6))]):
                count(n, weights(es, kind), how)
        count(n, weights(es, "one"), LABELS[int(rng.integers(0, 6))], False)
    for _ in range(ctx.q(60, 500)):
        n = int(rng.integers(1, 10))
        G = random_planar(rng, n, connected=bool(rng.integers(0, 3)))
        es = [tuple(sorted((u + 1, v + 1))) for u, v in G.edges()]
        count(n, weights(es, ["one", "pos", "neg", "mixed", "zero"][int(rng.integers(0, 5))]), LABELS[int(rng.integers(0, 6))],
              unit=float(rng.choice([1, 1, 0.5, 0.1, 0.25, 0.0625, 3.7])))
    for _ in range(ctx.q(8, 40)):
        n = int(rng.choice([10, 11, 12, 12, 14, 14]))
        G = random_planar(rng, n, m=2 * n if n < 14 else n + 5)
        es = [tuple(sorted((u + 1, v + 1))) for u, v in G.edges()]
        count(n, weights(es, "pos"), LABELS[int(rng.integers(0, 6))])
    # larger graphs
    for G in (grid(4, 4), grid(3, 6), grid(4, 5), nx.dodecahedral_graph(), nx.circular_ladder_graph(7), nx.cycle_graph(18)):
        es = [tuple(sorted((u + 1, v + 1))) for u, v in G.edges()]
        count(G.number_of_nodes(), weights(es, ["one", "mixed"][int(rng.integers(0, 2))]), LABELS[int(rng.integers(0, 6))])
    # disjoint unions
    for _ in range(ctx.q(20, 120)):
        parts = [random_planar(rng, int(rng.integers(1, 6))) for _ in range(int(rng.integers(2, 4)))]
        G = nx.disjoint_union_all(parts)
        n = G.number_of_nodes()
        if n > 10:
            continue
        es = [tuple(sorted((u + 1, v + 1))) for u, v in G.edges()]
        count(n, weights(es, "neg"), LABELS[int(rng.integers(0, 6))])
