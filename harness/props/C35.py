"""C35: Wick's theorem across the library (states, correlations, Pfaffians, determinants)."""
from itertools import combinations

import numpy as np

from props.C30 import majoranas
from rec import api, fxmat

MC = [{"module": "M_C35", "expect_states": 4113, "workers": "4"},
      {"module": "M_C35", "cfg": "M_C35_three.cfg", "expect_states": 488, "workers": "3"},
      {"module": "M_C35", "cfg": "M_C35_loose.cfg", "refute": "Wick"},
      {"module": "M_C35", "cfg": "M_C35_deep.cfg", "tier": "thorough", "workers": "4", "timeout": 850},
      {"module": "M_C35", "cfg": "M_C35_deep3.cfg", "tier": "thorough", "workers": "4", "timeout": 850}]
F = 2 ** 24


def cx(v):
    """a complex number as fixed point, or None"""
    try:
        z = complex(v)
    except Exception:
        return None
    if not np.isfinite(z.real) or not np.isfinite(z.imag) or abs(z) > 20:
        return None
    return [int(round(z.real * F)), int(round(z.imag * F))]


def drive(ctx):
    rng = ctx.rng
    pf, dt, de = api("pf"), api("dt"), api("dt_eigen")
    G = {n: majoranas(n) for n in range(1, 6)}
    num = [0]

    def state(se, n, rho, exc, what, kept):
        """record a state, its correlations and Pfaffians of them"""
        m2, d = 2 * n, 2 ** n
        rho = None if exc else rho
        try:
            A = np.asarray(rho)
            if A.shape in ((d,), (d, 1)):                 # a wavefunction
                rho = np.outer(A.ravel(), A.ravel().conj())
        except Exception:
            pass
        good = isinstance(rho, np.ndarray) and rho.shape == (d, d)
        maj = C = D = A = None
        if good:
            maj, exc, _ = ctx.call(api("jordan_wigner_majoranas"), n)
            e = [exc]
            if exc == "":
                C, x, _ = ctx.call(api("compute_2corr_matrix"), rho, n, maj)
                e.append(x)
                D, x, _ = ctx.call(api("compute_cov_matrix"), rho, n_sites=n, alphas=maj)
                e.append(x)
            if num[0] % 2:
                A, x, _ = ctx.call(api("compute_2corr_matrix"), rho, n)
            else:
                A, x, _ = ctx.call(api("correlation_matrix"), rho)
            exc = "".join(e + [x])
        sh = (m2, m2)
        good = good and exc == "" and all(isinstance(x, np.ndarray) and x.shape == sh for x in (C, D, A))
        ctx.emit("state", {"rho": fxmat(rho, (d, d), cap=1.1), "G": fxmat(C, sh, cap=2), "D": fxmat(D, sh, cap=2), "A": fxmat(A, sh, cap=2)}, exc,
                 "%s and its two-point functions" % what, (("out", ["G", "D", "A"][num[0] % 3], "m", 0, 1, 0), 60000) if good else None,
                 sess=se, n=n, w=40 * 8 ** n + 1000)
        num[0] += 1
        if not good:
            return False
        # Pfaffians of submatrices
        words = [I for k in range(2, min(m2, 6) + 1, 2) for I in combinations(range(m2), k)]     # pf sums over all permutations
        if len(words) > ctx.q(24, 60):
            words = [words[i] for i in rng.choice(len(words), ctx.q(24, 60), replace=False)]
        if m2 == 8 and num[0] % 8 == 0:
            words.append(tuple(range(8)))
        p, errs = [], ""
        for I in words:
            t = "GDA"[int(rng.integers(0, 3))]
            if t == "A":                                  # one ladder operator of a site at most, in any order
                s = sorted({i % n for i in I})
                s = s[: len(s) // 2 * 2]
                I = [int(x) + n * int(rng.integers(0, 2)) for x in s]
                if not I:
                    continue
            if rng.random() < 0.4:
                I = [I[int(i)] for i in rng.permutation(len(I))]
            I = [int(i) for i in I]
            v, x, _ = ctx.call(pf, {"G": C, "D": D, "A": A}[t][np.ix_(I, I)])
            errs = errs or x
            z = cx(v)
            p.append({"t": t, "I": [i + 1 for i in I], "ok": z is not None, "z": z or [0, 0]})
        odd = [sorted(int(i) + 1 for i in rng.choice(m2, k, replace=False)) for k in range(1, m2 + 1, 2)]
        ctx.emit("wick", {"p": p}, errs, "pf of the two-point functions (session %d, %s)" % (se, what),
                 (("out", "p", int(rng.integers(0, max(1, len(p)))), "z", int(rng.integers(0, 2))), 60000) if p and not errs and all(x["ok"] for x in p) else None,
                 sess=se, odd=odd, w=200 * 4 ** n + 1000)
        kept.append(D)
        return True

    def overlaps(se, n, kept):
        k = len(kept)
        pairs = [(i, j) for i in range(k) for j in range(k)]
        for i, j in [pairs[x] for x in rng.choice(len(pairs), min(len(pairs), 4), replace=False)]:
            f = dt if n < 4 and (i + j + se) % 2 else de           # dt sums over all permutations
            v, exc, _ = ctx.call(f, (np.eye(2 * n) + kept[i] @ kept[j]) / 2)
            z = cx(v)
            ctx.emit("overlap", {"ok": z is not None, "z": z or [0, 0]}, exc, "%s((1 + D%d D%d)/2), session %d" % (f.__name__, i + 1, j + 1, se),
                     (("out", "z", 0), 60000) if z else None, sess=se, i=i + 1, j=j + 1, w=10 * 4 ** n)

    def session(n, makers):
        se = num[0] + 1
        num[0] += 1
        kept = []
        for what, make in makers:
            rho, exc = make()
            if not state(se, n, rho, exc, what, kept):
                return
        overlaps(se, n, kept)

    def prepared(n, rho):
        return lambda: (rho, "")

    def lib(fn, *a, pick=None, **k):
        def make():
            v, exc, _ = ctx.call(api(fn), *a, **k)
            if exc == "" and pick is not None:
                try:
                    v = v[pick]
                except Exception:
                    exc = "no pair returned"
            return v, exc
        return "%s%r %s" % (fn, a if len(repr(a)) < 300 else (a[0], "..."), k), make

    # the model's behaviours
    def gate(n, g):
        P = G[n][g[1] - 1] @ G[n][g[2] - 1]
        return (3 * np.eye(2 ** n) + 4 * P) / 5 if g[0] == "rot" else (np.eye(2 ** n) + P) / np.sqrt(2)

    sc = ctx.scen
    for t in rng.choice(len(sc), min(len(sc), ctx.q(24, 250)), replace=False):
        s = sc[int(t)]
        n = s["n"]
        rho = np.eye(1)
        for x in s["w"]:
            p, q = divmod(x, 10)
            rho = np.kron(rho, np.diag([q, p]) / (p + q))
        ms = [("product state %r" % (s["w"],), prepared(n, rho))]
        for g in s["ops"]:
            U = gate(n, g)
            rho = U @ rho @ U.conj().T
            ms.append(("the same after %r" % (g,), prepared(n, rho)))
        session(n, ms)

    def ham(n, kind):
        A = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        B = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        A, B = (A + A.conj().T) / 2, (B - B.T) / 2
        if kind == 1:
            B = B * 0
        elif kind == 2:
            A, B = A.real, B.real
        elif kind == 3:
            A = A * 0
        X = np.block([[-A.conj(), B], [-B.conj(), A]])
        e = np.abs(np.linalg.eigvalsh(X)).max()
        return X * (float(rng.choice([0.1, 0.7, 2.0])) / max(e, 1e-9))

    def any_state(n, k):
        s = int(rng.integers(0, 2 ** 31))
        if k == 0:
            H = ham(n, int(rng.integers(0, 4)))
            return lib("generate_gaussian_state", n, H)
        if k == 1:
            return lib("random_FF_state", n, seed=s)
        if k == 2:
            return lib("random_FF_state", n, seed=s, fixedN=True)
        if k == 3:
            return lib("random_FF_state_randH", n, seed=s)
        if k == 4:
            return lib("random_FF_pure_state_W0", n, seed=s)
        if k == 5:
            N = int(rng.integers(0, n + 1))
            return lib("random_FF_pure_state_WN", n, N=N, seed=s)
        if k == 6:
            return lib("random_FF_pure_state_CN", n, seed=s)
        if k == 7:
            return lib("random_FF_state", n, seed=s, pure=True)
        return lib("random_FF_state", n, seed=s, returnH=True, pick=0)

    for i in range(ctx.q(40, 400)):
        n = int(rng.choice([1, 2, 3, 4], p=[.1, .35, .4, .15]))
        session(n, [any_state(n, (i + j * 4) % 9) for j in range(2 if n > 3 else 3)])
    for i in range(ctx.q(6, 60)):                         # nearly full and nearly empty modes
        n = 1 + i % 3
        A, B = rng.normal(size=(2, n, n)) + 1j * rng.normal(size=(2, n, n))
        A, B = A + A.conj().T, B - B.T
        if i % 2:
            A, B = np.diag(np.diag(A).real), B * 0
        X = np.block([[-A.conj(), B], [-B.conj(), A]])
        L, U = np.linalg.eigh(X)
        f = rng.uniform(2.2, 4.9, size=n)
        Lx = np.empty(2 * n)
        for k in range(n):                                # the pairs +-e_k get new energies
            p, q = int(np.argsort(L)[k]), int(np.argsort(L)[2 * n - 1 - k])
            Lx[p], Lx[q] = -f[k], f[k]
        H = (U * Lx) @ U.conj().T
        session(n, [lib("generate_gaussian_state", n, H), any_state(n, 4)])
    for n in (1, 2, 3, 4):
        d = 2 ** n
        e = [np.zeros((d, d)) for _ in range(3)]
        for x, b in zip(e, (0, d - 1, int(rng.integers(0, d)))):
            x[b, b] = 1
        session(n, [("occupation state", prepared(n, x)) for x in e])
        session(n, [("completely mixed state", prepared(n, np.eye(d) / d)), any_state(n, 4)])
    for _ in range(ctx.q(1, 4)):
        session(5, [any_state(5, 4), any_state(5, 0)])
