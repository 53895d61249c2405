"""C19: Pfaffian orientations."""
import networkx as nx
import numpy as np
from networkx.algorithms.planar_drawing import triangulate_embedding

from graphs import families, grid, random_planar, relabel
from rec import api, asnum

MC = [{"module": "M_C19", "expect_states": 1000, "workers": "4"},
      {"module": "M_C19", "cfg": "M_C19_even.cfg", "refute": "Pfaffian", "workers": "2"},
      {"module": "M_C19", "cfg": "M_C19_deep.cfg", "workers": "4", "timeout": 850},
      {"module": "M_C19", "cfg": "M_C19_deeper.cfg", "tier": "thorough", "workers": "4", "timeout": 850}]
ASSUMPTIONS = ["graphs are connected and planar with at least one edge"]
LABELS = ["same", "ints", "big", "neg", "str", "tuple"]


def realmat(v, n):
    A = asnum(v)
    if A is None or A.shape != (n, n) or (A.size and (np.abs(A - np.round(A.real)).max() > 1e-9 or np.abs(A).max() > 1000)):
        return {"ok": False, "p": []}
    return {"ok": True, "p": [[int(round(x.real)) for x in row] for row in A]}


def enc(A):
    A = asnum(A)
    if A is None or A.ndim != 2 or (A.size and not np.all(np.isfinite(A))) or np.abs(A - np.round(A)).max() > 1e-9 or np.abs(A).max() > 1e6:
        return None
    return [[[int(round(x.real)), int(round(x.imag))] for x in row] for row in A]


def drive(ctx):
    rng = ctx.rng
    import matplotlib.pyplot as plt
    pfo, cf = api("pfo_algorithm"), api("complete_face")

    # the completion steps of the model
    sc = ctx.scen
    seen = set()
    steps = []
    for s in sc:
        for t in s["steps"]:
            k = (s["n"], str(t["face"]), str(t["before"]))
            if k not in seen:
                seen.add(k)
                steps.append(t)
    for i in rng.choice(len(steps), min(len(steps), ctx.q(700, 6000)), replace=False):
        t = steps[int(i)]
        P = np.array(t["before"], dtype=complex)
        n = len(P)
        mark = int(rng.integers(0, 3))
        if mark:                    # the library marks unassigned edges by an imaginary entry
            P[t["u"] - 1, t["v"] - 1] = P[t["v"] - 1, t["u"] - 1] = 99j if mark == 1 else 3j
        # other edges which are still unassigned
        face = [(a - 1, b - 1) for a, b in t["face"]]
        k = int(rng.integers(0, len(face)))
        face = face[k:] + face[:k]
        if mark == 0 and rng.integers(0, 2):
            P = P.real.copy()
        before = enc(P)
        done(ctx, cf, P, face, before, bool(rng.integers(0, 2)))
        # the same face once more: nothing is left to do
        if rng.integers(0, 3) == 0:
            B = enc(P)
            if B is not None:
                done(ctx, cf, P, face, B, False)

    def run(G, how, name, w, **kw):
        n = G.number_of_nodes()
        H, _ = relabel(rng, G, how)
        ns = list(H.nodes())
        pos = {x: i + 1 for i, x in enumerate(ns)}
        es = sorted(sorted((pos[u], pos[v])) for u, v in H.edges())
        I = nx.convert_node_labels_to_integers(H)
        emb = nx.check_planarity(I)[1]
        rot = [[v + 1, u + 1, emb[v][u]["cw"] + 1] for v in I for u in I[v]]
        outer = sorted({x + 1 for x in triangulate_embedding(emb, False)[1]})
        v, exc, _ = ctx.call(pfo, H, **kw)
        if kw:
            plt.close("all")
        o = realmat(v, n)
        can = None
        if o["ok"] and exc == "" and all(abs(o["p"][a - 1][b - 1]) == 1 for a, b in es):
            a, b = es[0]
            can = (("out", "p", a - 1, b - 1), -o["p"][a - 1][b - 1])
        ctx.emit("pfo", o, exc, "pfo_algorithm(%s: nodes %s, edges %s)" % (name, ns, list(H.edges())), can, n=n, es=es, rot=rot, outer=outer, w=w)

    for name, G in families() + [("grid44", grid(4, 4)), ("grid34", grid(3, 4)), ("grid36", grid(3, 6)), ("dodecahedron", nx.dodecahedral_graph()),
                                 ("ladder7", nx.ladder_graph(7)), ("prism6", nx.circular_ladder_graph(6))]:
        w = 100 if G.number_of_nodes() <= 8 else 1500
        for how in LABELS if ctx.thorough else ["same", LABELS[int(rng.integers(1, 6))]]:
            run(G, how, name, w)
    # every connected plane graph of the model, by its edges
    seen = set()
    for s in sc:
        es = frozenset((min(a, b) - 1, max(a, b) - 1) for a, b, _ in s["rot"])
        if (s["n"], es) in seen:
            continue
        seen.add((s["n"], es))
        G = nx.Graph()
        G.add_nodes_from(range(s["n"]))
        G.add_edges_from(sorted(es))
        run(G, LABELS[int(rng.integers(0, 6))], "scenario", 20)
    for _ in range(ctx.q(350, 2000)):
        n = int(rng.integers(2, 11))
        G = random_planar(rng, n)
        if rng.integers(0, 3) == 0:
            for u, v in G.edges():
                G[u][v]["weight"] = [1, 2, 3, -1, 7, 0, 0.5, -0.25][int(rng.integers(0, 8))]
        run(G, LABELS[int(rng.integers(0, 6))], "random", 30 + 4 ** min(n, 10) // 300)
    for _ in range(ctx.q(8, 60)):
        run(random_planar(rng, int(rng.integers(3, 8))), LABELS[int(rng.integers(0, 6))], "drawn", 30, verbose=True)
    for _ in range(ctx.q(12, 60)):
        n = int(rng.choice([12, 14]))
        run(random_planar(rng, n, m=int(n * 1.6)), LABELS[int(rng.integers(0, 6))], "random", 2500)


def done(ctx, cf, P, face, before, verbose):
    v, exc, _ = ctx.call(cf, P, [tuple(e) for e in face], verbose)
    after = enc(P)
    m = enc(v) if v is not None else None
    out = {"ok": m is not None and after is not None, "m": m or [], "arg": after or [], "none": v is None}
    open_ = [e for e in face if before[min(e)][max(e)][0] == 0]
    can = None
    if exc == "":
        if not open_:
            can = (("out", "none"), False)
        elif out["ok"]:
            u, w = open_[0]
            can = (("out", "m", min(u, w), max(u, w), 0), -2 * m[min(u, w)][max(u, w)][0])
    ctx.emit("complete", out, exc, "complete_face(%s, %s)" % (before, face), can,
             before=before, face=[[a + 1, b + 1] for a, b in face], w=15, fn="none" if not open_ else "some")
