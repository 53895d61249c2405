"""C30: covariance distribution and fermionic anti-flatness."""
import numpy as np
from scipy.linalg import expm

from props.C25 import ename, form, mixed
from props.C27 import argument, scalar
from rec import api, fx, fxmat, ints

MC = [{"module": "M_C30", "expect_states": 2000, "workers": "3"},
      {"module": "M_C30", "cfg": "M_C30_three.cfg", "expect_states": 400, "workers": "2"},
      {"module": "M_C30", "cfg": "M_C30_four.cfg", "expect_states": 1000, "workers": "3"},
      {"module": "M_C30", "cfg": "M_C30_deep.cfg", "tier": "thorough", "workers": "4", "timeout": 880},
      {"module": "M_C30", "cfg": "M_C30_deep3.cfg", "tier": "thorough", "workers": "4", "timeout": 880}]
ASSUMPTIONS = ["nonzero singular values are well above the library's cut-off 1e-10"]
ORDERS = [16, 32, 32, 48, 64, 24, 40, 20, 80, 128]
BLANK = {"form": "dist", "c": [], "v": [], "M": []}


def majoranas(n):
    """sqrt2 times the Majorana operators, only to prepare states"""
    I, X, Y, Z = np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, 1j], [-1j, 0]]), np.diag([1, -1])
    a, b = [], []
    for j in range(n):
        for l, P in ((a, X), (b, -Y)):
            M = np.eye(1)
            for i in range(n):
                M = np.kron(M, Z if i < j else P if i == j else I)
            l.append(M.astype(complex))
    return a + b


def drive(ctx):
    rng = ctx.rng
    cov, faf = api("cov_distribution"), api("FAF")

    def observe(x, k=3):
        v, exc, _ = ctx.call(cov, x)
        pm = {"exc": ename(exc), "ok": False, "x": []}
        if exc == "" and isinstance(v, np.ndarray) and v.ndim == 1 and v.dtype.kind == "f":
            e = [fx(t) for t in v]
            if all(t is not None for t in e):
                pm.update(ok=True, x=e)
        fs = []
        for t in rng.choice(len(ORDERS), k, replace=False):
            u = ORDERS[int(t)]
            a = [] if u == 32 and rng.random() < 0.5 else [u // 16 if u % 16 == 0 and rng.random() < 0.7 else u / 16]
            r, exc, _ = ctx.call(faf, x, *a)
            fs.append(dict(scalar(r, exc), u=u))
        can = None
        if pm["ok"] and all(f["ok"] for f in fs):
            can = (("out", "faf", int(rng.integers(0, k)), "x"), 60000)
            if pm["x"] and rng.random() < 0.5:
                can = (("out", "pm", "x", 0), -40000)
        return {"pm": pm, "faf": fs}, can

    # circuits: the model's operations, prepared by matrices
    G = {n: majoranas(n) for n in range(1, 6)}

    def gate(n, g):
        d = 2 ** n
        if g[0] in ("rot", "braid"):
            P = G[n][g[1] - 1] @ G[n][g[2] - 1]
            return (3 * np.eye(d) + 4 * P) / 5 if g[0] == "rot" else (np.eye(d) + P) / np.sqrt(2)
        if g[0] == "int":
            return np.diag([-1.0 if (b >> (n - g[1])) & 1 and (b >> (n - g[2])) & 1 else 1.0 for b in range(d)])
        U = np.eye(1)
        for q in range(1, n + 1):
            U = np.kron(U, np.array([[1, 1], [1, -1]]) / np.sqrt(2) if q == g[1] else np.eye(2))
        return U

    sess = 0

    def session(n, b, ops):
        nonlocal sess
        sess += 1
        ctx.emit("begin", {"ok": True}, "", "", None, sess=sess, n=n, b=b, w=5)
        v = np.zeros(2 ** n, complex)
        v[b] = 1
        for g in ops:
            v = gate(n, g) @ v
            x = np.outer(v, v.conj()) if rng.random() < 0.3 else form(rng, v)
            out, can = observe(x)
            ctx.emit("op", out, "", "cov_distribution and FAF after %s on |%d> (n=%d)" % (ops, b, n), can, sess=sess, g=list(g), w=300 * 4 ** n)

    sc = ctx.scen
    for t in rng.choice(len(sc), min(len(sc), ctx.q(150, 1200)), replace=False):
        session(sc[int(t)]["n"], sc[int(t)]["b"], [tuple(g) for g in sc[int(t)]["ops"]])
    for _ in range(ctx.q(12, 80)):                     # longer circuits
        n = int(rng.integers(2, 5))
        ops = []
        for _ in range(int(rng.integers(2, 6))):
            i, j = (int(t) for t in rng.permutation(2 * n)[:2] + 1)
            p, q = sorted(int(t) for t in rng.permutation(n)[:2] + 1)
            ops.append([("braid", i, j), ("braid", i, j), ("int", p, q), ("mix", p), ("rot", i, j) if sum(o[0] == "rot" for o in ops) < 2 else ("braid", i, j)][int(rng.integers(0, 5))])
        session(n, int(rng.integers(0, 2 ** n)), ops)

    def state(n, a, x):
        out, can = observe(x)
        ctx.emit("state", out, "", "cov_distribution and FAF of %r" % (x,), can, fn=a["form"], n=n, p=a, w=400 * 4 ** n)

    def matrix(M):
        return dict(BLANK, form="mat", M=ints(M)), M / np.trace(M).real

    def wave(v):
        return dict(BLANK, form="wave", v=ints(np.asarray(v, complex).reshape(1, -1))[0]), form(rng, v / np.linalg.norm(v))

    for k in range(ctx.q(120, 800)):
        n = int(rng.integers(1, 4)) if k % 9 else 4
        d = 2 ** n
        t = (0, 2, 3, 4, 5, 6, 1, 6)[k % 8]
        if t <= 1:
            a, x = argument(rng, d)
        elif t == 2:
            a, x = matrix(mixed(rng, d, int(rng.integers(1, 3)))[0])
        elif t == 3:
            a, x = wave(rng.integers(-2, 3, size=d) + 1j * rng.integers(-2, 3, size=d) + np.eye(d)[0] * 5)
        elif t == 4:                                   # fixed parity
            v = np.array([complex(rng.integers(-2, 3), rng.integers(-2, 3)) if bin(b).count("1") % 2 == k // 8 % 2 else 0 for b in range(d)])
            v[k // 8 % 2] = 3
            a, x = wave(v)
        elif t == 6:                                   # weak pair correlations with zero modes
            M, c = np.zeros((d, d), complex), 0
            for _ in range(int(rng.integers(1, 4))):
                i, j = rng.choice(2 * n, 2, replace=False)
                e = int(rng.integers(1, 3))
                M, c = M + 1j * e * G[n][i] @ G[n][j], c + e
            a, x = matrix(M + (c + int(rng.integers(0, 4))) * np.eye(d))
        else:                                          # equal singular values: mixtures of two determinants
            b, c = (int(s) for s in rng.choice(d, 2))
            M = np.zeros((d, d), complex)
            M[b, b] += 2
            M[c, c] += int(rng.integers(1, 3))
            a, x = matrix(M)
        state(n, a, x)
    for k in range(ctx.q(16, 100)):                    # sites which are only slightly polarised
        n = k % 3 + 1
        c = 1000 + rng.integers(-3, 4, 2 ** n)
        if k % 2:
            w = [(500 + int(rng.integers(-3, 4)), 500) if n < 3 else (60, 60 + int(rng.integers(0, 2))) for _ in range(n)]
            c = np.ones(1, int)
            for p in w:
                c = np.kron(c, p)
        c = c // np.gcd.reduce(c)
        state(n, dict(BLANK, c=[int(t) for t in c]), form(rng, c / c.sum()))
    for k in range(ctx.q(16, 100)):                    # almost full and almost empty sites
        n = k % 3 + 1
        if k % 4 == 3:
            v = rng.integers(-1, 2, size=2 ** n) + 1j * rng.integers(-1, 2, size=2 ** n)
            v[int(rng.integers(0, 2 ** n))] = int(rng.integers(20, 60))
            state(n, *wave(v))
            continue
        c = np.ones(1, int)
        for _ in range(n):
            p = [int(2 ** rng.uniform(6, 24 / n - 2)), 1]
            rng.shuffle(p)
            c = np.kron(c, p)
        state(n, dict(BLANK, c=[int(t) for t in c]), form(rng, c / c.sum()))
    for n in range(1, 5):
        state(n, *matrix(np.eye(2 ** n) + 0j))          # flat: no entry, FAF = n
        g = np.zeros(2 ** n, complex)
        g[0] = g[-1] = 1
        state(n, *wave(g))
        state(n, *wave(np.ones(2 ** n)))
    for k in range(ctx.q(8, 40)):                      # five sites
        if k % 3 == 0:
            v = np.zeros(32, complex)
            v[rng.permutation(32)[:4]] = [2, 1j, -1, 1 + 1j]
            state(5, *wave(v))
        elif k % 3 == 1:
            M = np.diag(rng.integers(0, 3, size=32)) + 0j
            i, j = rng.permutation(32)[:2]
            M[i, i] += 3
            M[j, j] += 3
            M[i, j] += 1 + 2j
            M[j, i] += 1 - 2j
            state(5, *matrix(M))
        else:
            b = int(rng.integers(0, 32))
            o = [("braid", *(int(t) for t in rng.permutation(10)[:2] + 1)) for _ in range(2)]
            session(5, b, o + [("rot", *(int(t) for t in rng.permutation(10)[:2] + 1))])
    for i in range(ctx.q(30, 200)):                    # thermal and rotated states
        n = int(rng.integers(1, 5))
        d = 2 ** n
        A = rng.normal(size=(2 * n, 2 * n))
        K = sum((A - A.T)[i, j] * G[n][i] @ G[n][j] for i in range(2 * n) for j in range(2 * n)) * float(rng.choice([0.05, 0.2, 1.0]))
        if i % 3 == 0:
            v = expm(K)[:, int(rng.integers(0, d))]
            M = np.outer(v, v.conj())
        else:
            M = expm(1j * K / max(1, np.linalg.norm(K, 2) / 4))
            if i % 3 == 1:                             # not Gaussian
                W = expm(1j * np.diag(rng.normal(size=d)))
                V = expm(K)
                M = V @ W @ V @ M @ V.conj().T @ W.conj().T @ V.conj().T
            M = (M + M.conj().T) / 2 / np.trace(M).real
        out, can = observe(M)
        ctx.emit("fx", out, "", "cov_distribution and FAF of %r" % (M,), can, n=n, M=fxmat(M)["m"], w=400 * 4 ** n)
    for x in (np.array([0.5, 0.6]), np.array([0.6, -0.4]), np.zeros(4), np.diag([0.5, 0.6]), np.array([[0.5, 0.1], [0.3, 0.5]]), np.diag([1.5, -0.5]), np.ones((2, 4)) / 4):
        for f in (cov, faf):
            v, exc, _ = ctx.call(f, x)
            ctx.emit("refuse", {"type": ename(exc)}, "", "%s(%r)" % (f.__name__, x), (("out", "type"), "x"), fn=f.__name__, w=5)
