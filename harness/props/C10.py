"""C10: structural predicates."""
import numpy as np

import ff
from rec import api, ints

MC = [{"module": "M_C10", "expect_states": 500, "workers": "4"},
      {"module": "M_C10", "cfg": "M_C10_deep.cfg", "tier": "thorough", "workers": "4"}]


def generators(rng, n):
    """a random product of the model's generators"""
    m = 2 * n
    U = np.eye(m, dtype=complex)
    for _ in range(int(rng.integers(1, 7))):
        g = np.eye(m, dtype=complex)
        t = rng.integers(0, 5)
        i, j = (rng.permutation(n)[:2] if n > 1 else (0, 0))
        v = [1, -1, 1j, 2, 1 - 1j][rng.integers(0, 5)]
        if t == 0 and n > 1:
            p = np.arange(m)
            p[[i, j]] = p[[j, i]]
            p[[n + i, n + j]] = p[[n + j, n + i]]
            g = g[p]
        elif t == 1:
            p = np.arange(m)
            p[i], p[i + n] = i + n, i
            g = g[p]
        elif t == 2 and n > 1:
            g[i, j] = v
            g[j + n, i + n] = -v
        elif t == 3 and n > 1:
            g[i, j + n] = v
            g[j, i + n] = -v
        elif t == 4:
            k = [1j, -1, -1j][rng.integers(0, 3)]
            g[i, i] = k
            g[i + n, i + n] = np.conj(k)
        U = U @ g
        if np.abs(U).max() > 40:
            break
    return U


def styles(rng, A):
    A = np.asarray(A, complex)
    if np.all(A.imag == 0):
        t = rng.integers(0, 3)
        A = A if t == 0 else A.real.copy() if t == 1 else np.round(A.real).astype(int) if np.all(A == np.round(A)) else A
    return np.asfortranarray(A) if rng.random() < .2 else A


def drive(ctx):
    rng = ctx.rng

    def ask(fn, M, den=1, **kw):
        X = styles(rng, M if den == 1 else np.asarray(M) / den)
        v, exc, _ = ctx.call(api(fn), X, **kw)
        isb = isinstance(v, (bool, np.bool_))
        ctx.emit("ask", {"bool": bool(isb), "v": bool(v) if isb else False}, exc, "%s(%r%s)" % (fn, X.tolist(), kw or ""),
                 (("out", "v"), not v) if isb else None, fn=fn, M=ints(M), den=den)

    sc = ctx.scen
    k = ctx.q(120, 2000)
    if len(sc) > k:
        sc = [sc[i] for i in rng.choice(len(sc), k, replace=False)]
    for s in sc:
        ask("is_symp", np.array([[complex(*z) for z in row] for row in s["U"]]))
    for k in range(ctx.q(120, 1000)):
        n = int(rng.integers(1, 6)) if k % 20 else int(rng.integers(6, 11))
        U = generators(rng, n)
        t = rng.integers(0, 6)
        if t == 5 and n > 1:
            # the canonical form and determinant 1, but not S
            A = np.eye(n, dtype=complex)
            i, j = rng.permutation(n)[:2]
            A[i, j] = [1, 1j, -2, 1 - 1j][rng.integers(0, 4)]
            U = U @ np.kron([[1, 0], [0, 0]], A) + U @ np.kron([[0, 0], [0, 1]], A.conj())
        elif t == 1:
            i, j = rng.integers(0, 2 * n, 2)
            U[i, j] += [1, -1, 1j, -1j, 2][rng.integers(0, 5)]
        elif t == 2:
            U = U.conj()
        elif t == 3:
            U = U.T
        elif t == 4:
            # preserves the antisymmetric form, not S; scaled; or a plain phase
            U = [np.kron([[1, 0], [0, -1]], np.eye(n)), 2 * U, 1j * U, -U][rng.integers(0, 4)]
        ask("is_symp", U)
        if rng.random() < .2:
            ask("is_symp", np.kron([[1, -1j], [-1j, 1]], np.eye(n)) @ np.kron(np.eye(2), np.eye(n)), 2)
    for k in range(ctx.q(120, 1000)):
        n = int(rng.integers(1, 6)) if k % 20 else int(rng.integers(6, 21))
        L = np.zeros((2 * n, 2 * n), dtype=complex)
        for i in range(n):
            L[2 * i, 2 * i + 1] = rng.integers(-5, 6)
            L[2 * i + 1, 2 * i] = -L[2 * i, 2 * i + 1]
        t = rng.integers(0, 9)
        i, j = rng.integers(0, 2 * n, 2)
        if t == 1:
            L[i, j] += 1
        elif t == 2:
            L[i, j] += 1
            L[j, i] -= 1
        elif t == 3:
            L = 1j * L
        elif t == 4:
            L = L[:-1, :-1]
        elif t == 5:
            L = L[:, :-1] if rng.random() < .5 else np.hstack([L, np.zeros((2 * n, 1))])
        elif t == 6:
            L[i, j] += 1j
            L[j, i] -= 1j
        elif t == 7 and n > 1:
            p = np.roll(np.arange(2 * n), 1)
            L = L[np.ix_(p, p)]
        ask("check_canonical_form", L)
    for _ in range(ctx.q(20, 200)):              # of the canonical form, mostly not symplectic
        n = int(rng.integers(1, 5))
        den = 1
        if rng.random() < .4 and n > 1:
            d = np.ones(n) * 2
            d[rng.permutation(n)[:2]] = 4, 1
            A, B, den = np.diag(d).astype(complex), np.zeros((n, n)), 2
        else:
            A = rng.integers(-1, 2, (n, n)) + 1j * rng.integers(-1, 2, (n, n)) if rng.random() < .5 else np.triu(rng.integers(-2, 3, (n, n)), 1) + np.eye(n)
            B = (rng.integers(-1, 2, (n, n)) + 1j * rng.integers(-1, 2, (n, n))) * (rng.random() < .5)
        ask("is_symp", np.block([[A, B.conj()], [B, A.conj()]]), den)
    for _ in range(ctx.q(150, 1500)):
        M = rng.integers(-4, 5, (4, 4)) + 1j * rng.integers(-4, 5, (4, 4)) * (rng.random() < .6)
        t = rng.integers(0, 8)
        if t < 4:
            M[1, 1], M[1, 2], M[2, 1], M[2, 2] = M[0, 0], M[0, 3], M[3, 0], M[3, 3]
            if t == 1:
                M[1:3, 1:3] = M[1:3, 1:3].T
            if t == 2:
                M[1:3, 1:3] = M[1:3, 1:3][::-1]
            if t == 3 and rng.random() < .5:
                M[1:3, 1:3] = M[1:3, 1:3].conj()
        elif t == 4:
            M[1:3, 1:3] = [[1, 0], [0, 1]]
            M[0, 0], M[0, 3], M[3, 0], M[3, 3] = [(0, 1, 1, 0), (1, 0, 0, 1), (0, 1, -1, 0), (1, 0, 0, -1), (0, 1j, 1j, 0)][rng.integers(0, 5)]
        elif t == 5:
            M = M * 0
        elif t == 6:
            s = [(2, 2), (3, 3), (5, 5), (4, 3), (3, 4), (8, 8), (1, 1)][rng.integers(0, 7)]
            M = np.ones(s)
        if M.shape == (4, 4) and rng.random() < .4:       # nothing outside the two blocks
            X = np.zeros((4, 4), complex)
            X[np.ix_([1, 2], [1, 2])], X[np.ix_([0, 3], [0, 3])] = M[1:3, 1:3], M[np.ix_([0, 3], [0, 3])]
            M = X
        kw = {"verbose": bool(rng.integers(0, 2))} if rng.random() < .3 else {}
        ask("is_matchgate", M, **kw)
    # gates: unitary blocks (up to a common factor)
    B = [np.array(b) for b in ([[1, 0], [0, 1]], [[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]], [[1, 0], [0, 1j]], [[0, 1], [-1, 0]])]
    B2 = [np.array(b) for b in ([[1, 1], [1, -1]], [[1, 1], [-1, 1]], [[1, 1j], [1j, 1]], [[1 + 1j, 0], [0, 1 - 1j]], [[1 + 1j, 0], [0, 1 + 1j]])]
    B5 = [np.array(b) for b in ([[3, 4], [-4, 3]], [[3, 4], [4, -3]], [[3 + 4j, 0], [0, 5]], [[5, 0], [0, 5]], [[3, 4j], [4j, 3]])]
    for _ in range(ctx.q(150, 900)):
        F = [B, B2, B5][rng.integers(0, 3)]
        a, b = F[rng.integers(0, len(F))], F[rng.integers(0, len(F))]
        M = np.zeros((4, 4), complex)
        M[np.ix_([0, 3], [0, 3])] = a * [1, 1, 1j, -1][rng.integers(0, 4)]
        M[np.ix_([1, 2], [1, 2])] = b * [1, 1, 1, 1j, -1][rng.integers(0, 5)]
        if F is B5 and rng.random() < .7 and np.all(np.abs(M.imag) + np.abs(M.real) <= 10):
            ask("is_matchgate", M, 5)
        else:
            ask("is_matchgate", M)
    # near misses: entries or determinants which differ by little more than the tolerance
    for _ in range(ctx.q(260, 1500)):
        den = int(rng.choice([200, 1000, 16384]))
        top = min(den, 16384) // 2
        m = rng.integers(-top, top + 1, (2, 2)) + 1j * rng.integers(-top, top + 1, (2, 2)) * (rng.random() < .3)
        t = rng.integers(0, 4)
        if t == 0:
            m = np.diag(np.diag(m))
            m[0, 0], m[1, 1] = den, den // 2
        c = m.copy()
        u = rng.integers(0, 3)
        c = c.T if u == 0 else c[::-1, ::-1] if u == 1 else np.array([[c[1, 1], -c[0, 1]], [-c[1, 0], c[0, 0]]])
        M = rng.integers(-top, top + 1, (4, 4)) + 0j
        M[1:3, 1:3] = m
        M[0, 0], M[0, 3], M[3, 0], M[3, 3] = c.ravel()
        if t < 3:
            i, j = rng.integers(1, 3, 2)
            M[i, j] += rng.choice([1, -1, 1j]) if den == 16384 else 0
            i, j = 3 * rng.integers(0, 2, 2)
            M[i, j] += rng.choice([1, -1, 1j, 0, 0]) if t == 0 or den < 1000 else 0
        d = M[1, 1] * M[2, 2] - M[1, 2] * M[2, 1] - M[0, 0] * M[3, 3] + M[0, 3] * M[3, 0]
        if d == 0 or abs(d) > 5e-5 * den * den:
            ask("is_matchgate", M, den)
    for _ in range(ctx.q(40, 300)):
        n = int(rng.integers(1, 3))
        den = int(rng.choice([1024, 2048, 4096]))
        U = np.eye(2 * n, dtype=complex)
        if rng.random() < .5:
            U = U[rng.permutation(n).tolist() + [n + i for i in range(n)]] if n == 1 else generators(rng, n)
        if np.abs(U).max() > 2:
            U = np.eye(2 * n, dtype=complex)
        U = U * den
        k = int(rng.integers(0, 3))
        i, j = rng.integers(0, n, 2)
        e = [1, -1, 1j, 2][rng.integers(0, 4)]
        if k:                                        # keeps the canonical form
            U[i, j] += e
            U[n + i, n + j] += np.conj(e)
        if k == 2:
            U[n + i, j] += 1
            U[i, n + j] += 1
        S = np.kron([[0, 1], [1, 0]], np.eye(n))
        d = np.abs(U @ S @ U.T - S * den ** 2).max()
        if d == 0 or d >= den:
            ask("is_symp", U, den)
        n = int(rng.integers(1, 6))
        L = np.zeros((2 * n, 2 * n), dtype=complex)
        for i in range(n):
            L[2 * i, 2 * i + 1] = rng.integers(-2, 3) * den
            L[2 * i + 1, 2 * i] = -L[2 * i, 2 * i + 1]
        i, j = rng.integers(0, 2 * n, 2)
        e = [1, 2, 1j, 0][rng.integers(0, 4)]
        if np.abs(L[i, j]) == 0 or e.imag:
            L[i, j] += e
            L[j, i] -= e * rng.integers(0, 2)
        ask("check_canonical_form", L, den)
