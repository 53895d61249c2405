"""C29: trace distance."""
import numpy as np

from props.C25 import ename, form, mixed
from props.C27 import argument, scalar
from rec import api, fx, fxmat, ints

MC = [{"module": "M_C29", "expect_states": 3000, "workers": "4"},
      {"module": "M_C29", "cfg": "M_C29_diag.cfg", "expect_states": 500, "workers": "2"},
      {"module": "M_C29", "cfg": "M_C29_deep.cfg", "tier": "thorough", "workers": "6", "timeout": 880}]
ASSUMPTIONS = ["a distribution within 1e-5 of a basis vector may be read as a wavefunction"]
AXIS = [np.array([2, 0j]), np.array([0j, 2]), np.array([1, 1 + 0j]), np.array([1, -1 + 0j]), np.array([1, 1j]), np.array([1, -1j])]
BLANK = {"form": "dist", "c": [], "v": [], "M": []}


def state(a):
    """the density matrix a record describes (for the eigenbasis certificate)"""
    if a["form"] == "dist":
        c = np.array(a["c"], float)
        return np.diag(c / c.sum()) + 0j
    z = np.array([[complex(*t) for t in r] for r in (a["M"] if a["form"] == "mat" else [a["v"]])])
    if a["form"] == "wave":
        z = np.outer(z[0], z[0].conj())
    return z / np.trace(z).real


def drive(ctx):
    rng = ctx.rng
    td = api("trace_distance")

    def dist(x, y):
        v, exc, _ = ctx.call(td, x, y)
        return scalar(v, exc)

    def pair(a, x, b, y):
        lam, U = np.linalg.eigh(state(a) - state(b))
        out = {"ab": dist(x, y), "ba": dist(y, x)}
        n = len(lam)
        can = (("out", "ab", "x"), 100 * n) if out["ab"]["ok"] and out["ba"]["ok"] else None
        ctx.emit("pair", out, "", "trace_distance(%r, %r)" % (x, y), can, fn=a["form"] + "_" + b["form"], p=a, r=b,
                 U=fxmat(U)["m"], lam=[fx(t) for t in lam], w=60 + 3 * n ** 3)

    def triple(x, y, z):
        out = [dist(x, y), dist(y, z), dist(x, z)]
        can = (("out", int(rng.integers(0, 3)), "x"), 2 ** 26) if all(o["ok"] for o in out) else None
        ctx.emit("triple", out, "", "trace_distance of %r, %r, %r" % (x, y, z), can, w=10)

    def wave(v):
        return dict(BLANK, form="wave", v=ints(np.asarray(v, complex).reshape(1, -1))[0]), form(rng, v / np.linalg.norm(v))

    def matrix(M):
        return dict(BLANK, form="mat", M=ints(M)), (M / np.trace(M).real if rng.random() < 0.8 else (M / np.trace(M).real).tolist())

    def ensemble(c):
        M = sum(int(k) * np.outer(u, u.conj()) * (1 if i < 2 else 2) for i, (k, u) in enumerate(zip(c, AXIS)))
        if sum(c) == 1 and rng.random() < 0.6:
            return wave(AXIS[list(c).index(1)])
        return matrix(M)

    sc = ctx.scen
    for t in rng.choice(len(sc), min(len(sc), ctx.q(150, 1500)), replace=False):
        s = [ensemble(c) for c in sc[int(t)]["m"]]
        pair(*s[0], *s[1])
        triple(s[0][1], s[1][1], s[2][1])

    for k in range(ctx.q(250, 2000)):
        n = int(rng.integers(2, 7)) if k % 5 else int(rng.integers(7, 11)) if k % 25 else int(rng.integers(11, 20))
        (a, x), (b, y) = argument(rng, n), argument(rng, n)
        t = (0, 1, 2, 3, 4, 5, 6, 7, 8, 7)[k % 10]
        if t == 0:
            b, y = a, x
        elif t == 1:                                   # two wavefunctions
            u, v = (rng.integers(-3, 4, size=n) + 1j * rng.integers(-3, 4, size=n) for _ in range(2))
            u[0], v[-1] = 1j, 1
            (a, x), (b, y) = wave(u), wave(v)
        elif t == 2:                                   # the same ray, another phase
            u = rng.integers(-3, 4, size=n) + 1j * rng.integers(-3, 4, size=n)
            u[0] = 2
            (a, x), (b, y) = wave(u), wave(u * [1j, -1, -1j][k % 3])
        elif t == 3:                                   # orthogonal supports
            h = int(rng.integers(1, n))
            u, v = np.zeros(n, complex), np.zeros(n, complex)
            u[:h], v[h:] = rng.integers(1, 4, size=h), rng.integers(1, 4, size=n - h) * 1j
            (a, x), (b, y) = wave(u), wave(v)
        elif t == 4:                                   # a pure state and its dephased mixture
            u = rng.integers(1, 4, size=n) * np.array([1, 1j, -1, -1j])[rng.integers(0, 4, size=n)]
            (a, x), (b, y) = matrix(np.outer(u, u.conj())), matrix(np.diag(abs(u) ** 2) + 0j)
        elif t == 5:                                   # degenerate differences: permuted states
            M, _ = mixed(rng, n)
            p = rng.permutation(n)
            (a, x), (b, y) = matrix(M), matrix(M[np.ix_(p, p)])
        elif t == 6:                                   # full states
            (a, x), (b, y) = matrix(mixed(rng, n)[0]), matrix(mixed(rng, n)[0])
        elif t == 7:                                   # states a little apart: in phases, in coherences, in populations
            M = mixed(rng, n)[0] * int(rng.integers(1, 400))
            H = np.zeros((n, n), complex)
            for _ in range(int(rng.integers(1, 3))):
                i, j = rng.choice(n, 2, replace=False)
                e = [1j, 1, 1 + 1j, 0][int(rng.integers(0, 4))]
                H[i, j] += e
                H[j, i] += np.conj(e)
                if e == 0:
                    H[i, i] += 1
                    H[j, j] -= 1
            M = M + 4 * np.eye(n)
            (a, x), (b, y) = matrix(M), matrix(M + H)
        pair(a, x, b, y)
        if k % 3 == 0:
            triple(x, y, argument(rng, n)[1])
    n = 2
    pair(*matrix(np.eye(n) + 0j), *matrix(np.diag([1, 0]) + 0j))
    for d in range(2, 6):                              # one entry apart
        M = np.diag(np.arange(1, d + 1) * 7).astype(complex)
        N = M.copy()
        N[0, d - 1], N[d - 1, 0] = 1j, -1j
        pair(*matrix(M), *matrix(N))
    good = np.diag([0.25, 0.75])
    for x in (np.array([0.5, 0.6]), np.array([0.6, -0.4]), np.zeros(2), np.diag([0.5, 0.6]), np.array([[0.5, 0.1], [0.3, 0.5]]), np.diag([1.5, -0.5]), np.array([[0.5, 0.6], [0.6, 0.5]])):
        for args in ((x, good), (good, x)):
            v, exc, _ = ctx.call(td, *args)
            ctx.emit("refuse", {"type": ename(exc)}, "", "trace_distance(%r, %r)" % args, (("out", "type"), "x"), w=5)
