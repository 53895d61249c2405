"""C14: calls do not disturb arguments, each other or global state."""
import hashlib
import pickle
import random

import networkx as nx
import numpy as np

from rec import api

MC = [{"module": "M_C14", "expect_states": 2000, "workers": "2"},
      {"module": "M_C14", "cfg": "M_C14_value.cfg", "refute": "Repeatable"},
      {"module": "M_C14", "cfg": "M_C14_identity.cfg", "refute": "Repeatable"},
      {"module": "M_C14", "cfg": "M_C14_deep.cfg", "tier": "thorough", "workers": "4"}]
ASSUMPTIONS = ["complete_face updates its matrix argument by documented contract and is exempt from arguments_unmodified",
               "results are compared to 1e-9 (bit-identical reproduction is not required)"]


# ------------------------------------------------------------ argument makers
def cm(g, *s):
    return g.normal(size=s) + 1j * g.normal(size=s)


def herm(g, n):
    A = cm(g, n, n)
    return A + A.conj().T


def skew(g, n, cplx=True):
    A = cm(g, n, n) if cplx else g.normal(size=(n, n))
    return A - A.T


def Hform(g, n):
    A, B = herm(g, n), skew(g, n)
    return np.block([[-A.conj(), B], [-B.conj(), A]])


def Vform(g, n):
    A, Z = herm(g, n), skew(g, n)
    return np.block([[-Z.conj(), A], [-A.conj(), Z]])


def dm(g, d):
    A = cm(g, d, d)
    A = A @ A.conj().T
    return A / np.trace(A).real


def ket(g, d):
    v = cm(g, d, 1)
    return v / np.linalg.norm(v)


def pdf(g, d):
    p = g.random(d) + 0.05
    return p / p.sum()


def jw(n):
    """the ladder operators, built here"""
    Z, a, I = np.diag([1., -1]), np.array([[0., 1], [0, 0]]), np.eye(2)
    low = []
    for k in range(n):
        M = np.eye(1)
        for m in range(n):
            M = np.kron(M, Z if m < k else a if m == k else I)
        low.append(M.astype(complex))
    return [x.conj().T.copy() for x in low] + low


def planar(g, w=False, lab=False):
    G = nx.Graph()
    names = ["a", "b", "c", "d", "e", "f"] if lab else list(range(6))
    es = [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0), (0, 3), (1, 4)][:7 + int(g.integers(0, 1))]
    if g.integers(0, 2):
        es = [(0, 1), (1, 2), (2, 0), (2, 3), (3, 4), (4, 5), (5, 3)]
    G.add_nodes_from([names[int(i)] for i in g.permutation(6)])
    for u, v in es:
        G.add_edge(names[u], names[v], **({"weight": float(g.integers(1, 4))} if w else {}))
    return G


def tree(g):
    G = nx.Graph()
    for i in range(1, 7):
        G.add_edge(int(g.integers(0, i)), i)
    return G


def embed(G):
    F = []
    emb = nx.check_planarity(G)[1]
    seen = set()
    for u, v in emb.edges():
        if (u, v) not in seen:
            f = emb.traverse_face(u, v, seen)
            F.append([(f[i], f[(i + 1) % len(f)]) for i in range(len(f))])
    return F


def gFT(g):
    G = planar(g)
    return (G, embed(G), nx.minimum_spanning_tree(G))


def cf(g):
    O = np.zeros((4, 4), complex)
    for u, v in [(0, 1), (1, 2), (2, 3)]:
        s = 1 - 2 * int(g.integers(0, 2))
        O[u, v], O[v, u] = s, -s
    O[0, 3] = O[3, 0] = 99j
    return (O, [(0, 1), (1, 2), (2, 3), (3, 0)])


def eqpath(p):
    """a path result is compared through its values"""
    return [np.asarray(p(t)) for t in (0.0, 0.25, 0.5, 1.0)]


# name -> list of (builder(g) -> args, kwargs)
def N(*ns, **kw):
    return [((lambda g, n=n: (n,)), kw) for n in ns]


REG = {
    "permutation_to_matrix": [(lambda g: ([int(x) for x in g.permutation(4)],), {})],
    "pauli_matrices": [(lambda g: (), {})],
    "generate_pauli_group": N(1, 2) + N(1, verbose=True),
    "jordan_wigner_lowering": N(1, 2, 3),
    "jordan_wigner_alphas": N(1, 2, 3),
    "jordan_wigner_majoranas": N(1, 2, 3),
    "rotate_operators": [(lambda g: (cm(g, 4, 4), jw(2)), {}), (lambda g: (cm(g, 4, 4), jw(2)), {"Left": True}),
                         (lambda g: (g.normal(size=(4, 4)), [x.real.copy() for x in jw(2)]), {}),
                         (lambda g: (cm(g, 4, 4), jw(2)), {"verbose": True})],
    "build_V": [(lambda g: (2, cm(g, 2, 2)), {}), (lambda g: (2, cm(g, 2, 2), cm(g, 2, 2)), {})],
    "build_H": [(lambda g: (2, cm(g, 2, 2)), {}), (lambda g: (2, cm(g, 2, 2), cm(g, 2, 2)), {}),
                (lambda g: (2, g.normal(size=(2, 2)), g.normal(size=(2, 2))), {})],
    "build_Omega": N(1, 2, 3), "build_reordering_xx_to_xp": N(1, 2, 3), "build_K": N(1, 2, 3),
    "kitaev_chain": [(lambda g: (4, float(g.normal()), float(g.normal()), float(g.normal())), {})],
    "correlation_matrix": [(lambda g: (dm(g, 4),), {})],
    "is_symp": [(lambda g: (cm(g, 4, 4),), {})],
    "check_canonical_form": [(lambda g: (skew(g, 4, False),), {}),
                             (lambda g: (np.kron(np.diag(g.normal(size=2)), np.array([[0, 1], [-1, 0]])),), {})],
    "generate_gaussian_state": [(lambda g: (2, Hform(g, 2) / 4), {}), (lambda g: (3, Hform(g, 3) / 6), {}),
                                (lambda g: (2, Hform(g, 2) / 4, jw(2)), {}), (lambda g: (3, herm(g, 8) / 4), {})],
    "build_op": [(lambda g: (2, cm(g, 4, 4), jw(2)), {}), (lambda g: (2, cm(g, 4, 4), jw(2)), {"direct": True}),
                 (lambda g: (2, g.normal(size=(4, 4)), jw(2)), {"verbose": True})],
    "compute_cov_matrix": [(lambda g: (dm(g, 4),), {}), (lambda g: (dm(g, 4), 2, jw(2)), {})],
    "compute_2corr_matrix": [(lambda g: (dm(g, 4), 2), {}), (lambda g: (dm(g, 4), 2, jw(2)), {"conjugation": 1}),
                             (lambda g: (dm(g, 4), 2, jw(2)), {"conjugation": -1})],
    "compute_algebra_S": [(lambda g: ([(1 + int(g.integers(1, 9))) * x for x in jw(2)],), {})],
    "is_matchgate": [(lambda g: (cm(g, 4, 4),), {}), (lambda g: (np.eye(4) * (1 + g.random()),), {"verbose": True})],
    "eigh_sp": [(lambda g: (Hform(g, 2),), {}), (lambda g: (Hform(g, 3),), {}), (lambda g: (0 * Hform(g, 2),), {})],
    "eigv_sp": [(lambda g: (Vform(g, 2),), {}), (lambda g: (Vform(g, 3),), {})],
    "eigm_sp_can": [(lambda g: (1j * skew(g, 4, False),), {}), (lambda g: (1j * skew(g, 6, False),), {})],
    "eigm_sp": [(lambda g: (1j * skew(g, 4, False),), {}), (lambda g: (1j * skew(g, 6, False),), {})],
    "sgn": [(lambda g: ([int(x) for x in g.permutation(5)],), {}), (lambda g: (g.permutation(5),), {})],
    "pf": [(lambda g: (skew(g, 4),), {}), (lambda g: (g.integers(-3, 4, size=(4, 4)),), {})],
    "hf": [(lambda g: (cm(g, 4, 4),), {}), (lambda g: (g.integers(-3, 4, size=(4, 4)),), {})],
    "pt": [(lambda g: (cm(g, 3, 3),), {}), (lambda g: (g.integers(-3, 4, size=(3, 3)),), {}),
           (lambda g: (g.integers(-3, 4, size=(3, 3)).tolist(),), {})],
    "dt": [(lambda g: (cm(g, 3, 3),), {}), (lambda g: (g.integers(-3, 4, size=(3, 3)),), {})],
    "dt_eigen": [(lambda g: (cm(g, 3, 3),), {}), (lambda g: (g.integers(-3, 4, size=(3, 3)),), {})],
    "stabilizer_distribution": [(lambda g: (dm(g, 4),), {}), (lambda g: (ket(g, 4),), {}), (lambda g: (ket(g, 2).ravel(),), {})],
    "SRE": [(lambda g: (dm(g, 4),), {}), (lambda g: (ket(g, 4), 1), {}), (lambda g: (ket(g, 2).ravel(), 3), {})],
    "renyi_entropy": [(lambda g, a=a: (pdf(g, 4), a), {}) for a in (0, 1, 2, 0.5, np.inf)] + [(lambda g: (dm(g, 4), 2), {})],
    "linear_entropy": [(lambda g: (pdf(g, 4),), {})],
    "cov_distribution": [(lambda g: (dm(g, 4),), {}), (lambda g: (ket(g, 4),), {})],
    "FAF": [(lambda g: (dm(g, 4),), {}), (lambda g: (ket(g, 8), 3), {})],
    "total_variation_distance": [(lambda g: (pdf(g, 4), pdf(g, 4)), {}), (lambda g: (dm(g, 4), ket(g, 4)), {})],
    "trace_distance": [(lambda g: (dm(g, 4), dm(g, 4)), {}), (lambda g: (ket(g, 4), ket(g, 4).ravel()), {})],
    "relative_entropy": [(lambda g: (pdf(g, 4), pdf(g, 4)), {}), (lambda g: (dm(g, 4), ket(g, 4)), {})],
    "bhattacharyya_coeff": [(lambda g: (pdf(g, 4), pdf(g, 4)), {})],
    "jensen_shannon_divergence": [(lambda g: (pdf(g, 4), pdf(g, 4)), {})],
    "complete_face": [(cf, {})],
    "compute_tree_depth": [(lambda g: (tree(g),), {})],
    "count_perfect_matchings": [(lambda g: (planar(g),), {}), (lambda g: (planar(g, True, True),), {})],
    "count_perfect_matchings_planar": [(lambda g: (planar(g),), {}), (lambda g: (planar(g, True, True),), {}),
                                       (lambda g: (nx.disjoint_union(planar(g), planar(g, True)),), {})],
    "dual_graph_H": [(gFT, {})],
    "faces": [(lambda g: (planar(g),), {}), (lambda g: (lambda G: (G, nx.check_planarity(G)[1]))(planar(g)), {})],
    "find_perfect_matchings_brute": [(lambda g: (planar(g),), {}), (lambda g: (planar(g, False, True),), {})],
    "pfo_algorithm": [(lambda g: (planar(g),), {}), (lambda g: (planar(g, True, True),), {}), (lambda g: (planar(g),), {"verbose": True})],
    "plot_graph_with_edge_weights": [(lambda g: (skew(g, 4, False),), {}), (lambda g: (planar(g, True),), {"title": "t"}),
                                     (lambda g: (np.ones((4, 4)) * (1 + g.integers(0, 3)), [(0, 1)]), {})],
    "plot_planar_embedding": [(lambda g: (planar(g),), {}), (lambda g: (planar(g), skew(g, 6, False)), {})],
    "get_orthogonal_vectors": [(lambda g: (ket(g, 4),), {}), (lambda g: (g.normal(size=3),), {})],
    "build_unitary_path": [(lambda g: (ket(g, 4), ket(g, 4)), {}), (lambda g: (g.normal(size=3), g.normal(size=3)), {})],
    "build_linear_path": [(lambda g: (ket(g, 4), ket(g, 4)), {}), (lambda g: (g.normal(size=3), g.normal(size=3)), {})],
    "analyze_pdf": [(lambda g: (dm(g, 4),), {"name": "x"}), (lambda g: (pdf(g, 4),), {"stem": False})],
    "cast_to_density_matrix": [(lambda g: (dm(g, 4),), {}), (lambda g: (ket(g, 4),), {}), (lambda g: (pdf(g, 4),), {})],
    "cast_to_pdf": [(lambda g: (dm(g, 4),), {}), (lambda g: (pdf(g, 4),), {})],
    "clean": [(lambda g: (g.normal(size=(3, 3)) * 10.0 ** -g.integers(0, 9, size=(3, 3)),), {}),
              (lambda g: (cm(g, 3, 3) * 10.0 ** -g.integers(0, 9, size=(3, 3)),), {}),
              (lambda g: (list(g.normal(size=3)), 3), {}), (lambda g: (np.matrix(g.normal(size=(2, 2))), 2), {}),
              (lambda g: (g.integers(-3, 4, size=(3, 3)),), {})],
    "formatted_output": [(lambda g: (float(g.normal()), 4), {}), (lambda g: (g.normal(size=3),), {})],
    "print_custom": [(lambda g: (g.normal(size=(2, 2)), 3), {}), (lambda g: (cm(g, 2, 2),), {}), (lambda g: ([1.5, "a", None],), {}),
                     (lambda g: ({"a": 1},), {}), (lambda g: ([[1.0], [1.0, 2.0]], 5), {}), (lambda g: (float(g.normal()), 2), {})],
    "_print": [(lambda g: (g.normal(size=(2, 2)), 3), {}), (lambda g: ("word", 5), {})],
    "kron_plus": [(lambda g: (cm(g, 2, 2), cm(g, 3, 1)), {})],
    "partial_trace_over_1": [(lambda g: (cm(g, 6, 6), 2), {})],
    "partial_trace_over_2": [(lambda g: (cm(g, 6, 6), 2), {}), (lambda g: (g.normal(size=(4, 4)), 2), {})],
}
RAND = {
    "random_FF_rotation": N(2, seed=3) + N(2) + N(2, returnH=True),
    "random_FF_state": N(2, seed=3) + N(2, pure=True) + N(2, fixedN=True) + N(2, returnH=True),
    "random_H_generator": N(2, seed=3) + N(2, fixedN=True),
    "random_qubit_state": N(2, seed=3) + N(1), "random_qubit_pure_state": N(2, seed=3) + N(1),
    "random_CHP_state": N(2), "random_FF_state_randH": N(2, seed=3) + N(2),
    "random_FF_state_rotPDF": N(2, seed=3) + N(2, returnS=True),
    "random_FF_pure_state_W0": N(2, seed=3) + N(2), "random_FF_pure_state_WN": N(2, seed=3) + N(2, N=1),
    "random_FF_pure_state_CN": N(2, seed=3) + N(2),
    "generate_random_planar_graph": N(5, seed=3) + N(5),
    "generate_random_bitstring": [(lambda g: (6, 2), {})],
}
UPDATES = {"complete_face"}
SUPPLIERS = ("pauli_matrices", "generate_pauli_group", "jordan_wigner_lowering", "jordan_wigner_alphas",
             "jordan_wigner_majoranas", "build_Omega", "build_reordering_xx_to_xp", "build_K")


# ---------------------------------------------------------------- observation
def canon(x):
    if isinstance(x, np.ndarray):
        return (type(x).__name__, x.dtype.str, x.shape, np.ascontiguousarray(x).tobytes(), bool(x.flags.writeable),
                bool(x.flags.c_contiguous), bool(x.flags.f_contiguous))
    if isinstance(x, nx.Graph):
        return (type(x).__name__, [(n, sorted(d.items())) for n, d in x.nodes(data=True)],
                [(u, [(v, sorted(d.items())) for v, d in nb.items()]) for u, nb in x.adj.items()], sorted(x.graph.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [canon(y) for y in x])
    if isinstance(x, dict):
        return ("dict", [(k, canon(v)) for k, v in x.items()])
    return (type(x).__name__, x)


def digest(x):
    return hashlib.sha1(pickle.dumps(canon(x), 4)).hexdigest()[:16]


def rngdig():
    s = np.random.get_state()
    return hashlib.sha1(s[1].tobytes() + repr((s[2:], random.getstate())).encode()).hexdigest()[:16]


def podig():
    return hashlib.sha1(repr(sorted(np.get_printoptions().items(), key=str)).encode()).hexdigest()[:12]


def flat(v, out):
    if callable(v):
        v = eqpath(v)
    if v is None or isinstance(v, (str, bool)):
        out.append(repr(v))
    elif isinstance(v, nx.Graph):
        out.append(repr((sorted(map(repr, v.nodes())), sorted((repr(sorted([a, b], key=repr)), repr(sorted(d.items())))
                                                              for a, b, d in v.edges(data=True)))))
    elif isinstance(v, (list, tuple)):
        out.append("%s%d" % (type(v).__name__, len(v)))
        for x in v:
            flat(x, out)
    else:
        try:
            out.append(np.array(v.toarray() if hasattr(v, "toarray") else v).astype(complex))
        except Exception:
            out.append(repr(v))
    return out


class Tags:
    def __init__(self):
        self.vals = []

    def tag(self, v, text):
        p = flat(v, [text])
        for i, q in enumerate(self.vals):
            if len(p) == len(q) and all(
                    (isinstance(a, str) and isinstance(b, str) and a == b) or
                    (not isinstance(a, str) and not isinstance(b, str) and a.shape == b.shape and
                     np.allclose(a, b, rtol=1e-9, atol=1e-11, equal_nan=True)) for a, b in zip(p, q)):
                return i + 1
        self.vals.append(p)
        return len(self.vals)


def scribble(v, depth=0):
    """overwrite everything mutable in a result"""
    if depth > 4:
        return
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size:
            v[...] = 7
    elif isinstance(v, nx.Graph):
        v.clear()
    elif isinstance(v, (list, tuple)):
        for x in v:
            scribble(x, depth + 1)
        if isinstance(v, list):
            v.clear()
    elif isinstance(v, dict):
        v.clear()
    elif hasattr(v, "data") and hasattr(v, "toarray"):
        v.data[:] = 7


def rewrite(old, new):
    """make the caller's own object `old` hold the value of `new`, in place where possible"""
    if isinstance(old, np.ndarray) and old.shape == new.shape and old.dtype == new.dtype:
        old[...] = new
        return old
    if isinstance(old, nx.PlanarEmbedding):
        return new
    if isinstance(old, nx.Graph):
        old.clear()
        old.add_nodes_from(new.nodes(data=True))
        old.add_edges_from(new.edges(data=True))
        return old
    if isinstance(old, list):
        vals = [rewrite(a, b) for a, b in zip(old, new)] if len(old) == len(new) else list(new)
        old[:] = vals
        return old
    return new


def drive(ctx):
    import matplotlib.pyplot as plt
    rng = ctx.rng
    tags, sess, nth = {}, [0], {}
    every = [(f, j, True) for f, vs in REG.items() for j in range(len(vs))]
    rnd = [(f, j, False) for f, vs in RAND.items() for j in range(len(vs))]
    allf = every + rnd

    def build(F, v):
        fn, j, _ = F
        b, kw = (REG if F[2] else RAND)[fn][j]
        return list(b(np.random.default_rng([ctx.seed, sum(map(ord, fn)), j, v]))), dict(kw)

    def begin():
        sess[0] += 1
        np.set_printoptions(precision=int(rng.choice([3, 5, 8, 11])), suppress=bool(rng.integers(0, 2)), linewidth=int(rng.choice([60, 75, 120])))
        ctx.emit("begin", {"tag": 0}, "", "new session", None, sess=sess[0], w=20, fn="")

    seen = set()

    def go(F, v, args=None):
        fn, j, det = F
        fresh, kw = build(F, v)
        args = fresh if args is None else args
        f = api(fn)
        before, r0, p0 = digest([args, kw]), rngdig(), podig()
        val, exc, text = ctx.call(f, *args, **kw)
        after, r1, p1 = digest([args, kw]), rngdig(), podig()
        plt.close("all")
        if fn in UPDATES:
            after = before
        arg = "%d:%d" % (j, v)
        tag = 0 if exc else tags.setdefault((fn, arg), Tags()).tag(val, text if det and fn != "complete_face" else "")
        again = (sess[0], fn, arg) in seen and det
        seen.add((sess[0], fn, arg))
        n = nth[fn] = nth.get(fn, 0) + 1
        can = (("out", "tag"), 9000) if again and n % 2 else (("out", "after"), "x") if n % 3 else (("out", "po"), "x")
        ctx.emit("call", {"tag": tag, "after": after, "rng": r1, "po": p1}, exc, "%s %s value %d kwargs %s" % (fn, "fresh" if args is fresh else "same object", v, kw),
                 can, sess=sess[0], fn=fn, arg=arg, det=det, before=before, rng=r0, po=p0, w=60)
        return val

    def scrib(v):
        scribble(v)
        ctx.emit("scribble", {"tag": 0}, "", "overwrite the result in place", None, sess=sess[0], fn="", w=10)

    def session(ops, F, G):
        """one behaviour of the heap machine: two functions, inputs owned by the caller"""
        begin()
        res, own = {}, {}
        for op, f, i, v, a in ops:
            if op == "call":
                H = F if f == "f" else G
                if (f, i) not in own:
                    own[f, i] = build(H, v)[0]
                res[a] = go(H, v, own[f, i])
            elif op == "scribble":
                scrib(res[a])
                own.clear()          # a result may legitimately share memory with the caller's input
            else:
                for k in list(own):
                    if k[1] == i:
                        H = F if k[0] == "f" else G
                        new = build(H, v)[0]
                        own[k] = [rewrite(x, y) for x, y in zip(own[k], new)]
                ctx.emit("rewrite", {"tag": 0}, "", "write a new value into an input", None, sess=sess[0], fn="", w=10)

    # every function: repeated call, scribble, repeated call, rewritten input
    for F in allf:
        if F[0] in UPDATES:
            begin()
            for _ in range(2):
                scrib(go(F, 1))
            go(F, 1)
            continue
        session([["call", "f", 1, 1, 1], ["call", "f", 1, 1, 2], ["scribble", "", 0, 0, 1], ["call", "f", 1, 1, 3],
                 ["rewrite", "", 1, 2, 0], ["call", "f", 1, 2, 4], ["scribble", "", 0, 0, 4], ["call", "f", 1, 2, 5],
                 ["call", "f", 1, 2, 6]], F, F)
    # scenarios from the model: pairs of functions
    sc = [s["ops"] for s in ctx.scen]
    sc = [s for s in sc if any(o[0] != "call" for o in s)]
    pool = [F for F in allf if F[0] not in UPDATES and not F[0].startswith("plot") and F[0] != "analyze_pdf"]
    for k in range(ctx.q(150, 1500)):
        F, G = pool[k % len(pool)], pool[int(rng.integers(0, len(pool)))]
        session(sc[int(rng.integers(0, len(sc)))], F, G)
    # scribbling over a building block must not reach the functions built on it
    for name in SUPPLIERS:
        begin()
        deps = [F for F in every if F[0] not in UPDATES and not F[0].startswith("plot") and F[0] not in ("pf", "hf")]
        if not ctx.thorough:
            deps = [F for F in deps if F[0] not in ("clean", "print_custom", "sgn", "kron_plus", "pt", "dt")]
        for F in deps:
            go(F, 1)
        for F in [F for F in every if F[0] == name]:
            scrib(go(F, 1))
        for F in deps:
            go(F, 1)
    np.set_printoptions(precision=8, suppress=False, linewidth=75)
