"""Graph generators shared by the graph properties."""
import networkx as nx
import numpy as np


def random_planar(rng, n, m=None, connected=True):
    """random planar graph on 0..n-1 with about m edges"""
    G = nx.Graph()
    G.add_nodes_from(range(n))
    if connected:
        p = rng.permutation(n)
        for i in range(1, n):
            G.add_edge(int(p[i]), int(p[int(rng.integers(0, i))]))
    m = int(rng.integers(n - 1, max(n, 3 * n - 5))) if m is None else m
    pairs = [(u, v) for u in range(n) for v in range(u)]
    rng.shuffle(pairs)
    for u, v in pairs:
        if G.number_of_edges() >= m:
            break
        if G.has_edge(u, v):
            continue
        G.add_edge(int(u), int(v))
        if not nx.check_planarity(G)[0]:
            G.remove_edge(int(u), int(v))
    return G


def grid(a, b):
    return nx.convert_node_labels_to_integers(nx.grid_2d_graph(a, b))


def families():
    """named planar graphs"""
    out = [("C%d" % n, nx.cycle_graph(n)) for n in (3, 4, 5, 6, 8)]
    out += [("P%d" % n, nx.path_graph(n)) for n in (2, 3, 4, 6, 7)]
    out += [("star%d" % n, nx.star_graph(n)) for n in (2, 3, 5)]
    out += [("wheel%d" % n, nx.wheel_graph(n)) for n in (4, 5, 6, 8)]
    out += [("K4", nx.complete_graph(4)), ("grid23", grid(2, 3)), ("grid24", grid(2, 4)), ("grid33", grid(3, 3)),
            ("grid25", grid(2, 5)), ("cube", nx.convert_node_labels_to_integers(nx.hypercube_graph(3))),
            ("octahedron", nx.octahedral_graph()), ("ladder4", nx.ladder_graph(4)), ("barbell", nx.barbell_graph(4, 0)),
            ("lollipop", nx.lollipop_graph(4, 2)), ("btree", nx.balanced_tree(2, 2)),
            ("K23", nx.complete_bipartite_graph(2, 3)), ("K24", nx.complete_bipartite_graph(2, 4)),
            ("prism5", nx.circular_ladder_graph(5)), ("cycle+pendant", nx.Graph([(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (2, 5)])),
            ("bowtie", nx.Graph([(0, 1), (1, 2), (2, 0), (0, 3), (3, 4), (4, 0)]))]
    return out


def relabel(rng, G, how):
    """a copy of G with other labels and shuffled node and edge insertion
    order; weights and attributes are kept.  Returns (graph, node list)."""
    n = G.number_of_nodes()
    old = list(G.nodes())
    p = rng.permutation(n)
    if how == "ints":
        lab = [int(x) for x in p]
    elif how == "big":
        lab = [int(x) * 7 + 3 for x in p]
    elif how == "neg":
        lab = [int(x) - n // 2 for x in p]
    elif how == "str":
        lab = ["v%s%d" % ("zyxwabcdefgh"[int(x) % 12], int(x)) for x in p]
    elif how == "tuple":
        lab = [(int(x) % 3, int(x)) for x in p]
    else:
        lab = [int(x) for x in np.arange(n)]
    mp = dict(zip(old, lab))
    H = nx.Graph()
    ns = [mp[x] for x in old]
    if how != "same":
        ns = [ns[int(i)] for i in rng.permutation(n)]
    H.add_nodes_from(ns)
    es = [(mp[u], mp[v], d) for u, v, d in G.edges(data=True)]
    if how != "same":
        es = [es[int(i)] for i in rng.permutation(len(es))]
    for u, v, d in es:
        if how != "same" and rng.integers(0, 2):
            u, v = v, u
        H.add_edge(u, v, **d)
    return H, ns
