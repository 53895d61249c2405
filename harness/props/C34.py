"""C34: normal modes across the library (one Hamiltonian per session)."""
import numpy as np

from rec import api, fxmat

MC = [{"module": "M_C34", "expect_states": 1554, "workers": "4"},
      {"module": "M_C34", "cfg": "M_C34_three.cfg", "expect_states": 160, "workers": "3"},
      {"module": "M_C34", "cfg": "M_C34_loose.cfg", "refute": "Moments"},
      {"module": "M_C34", "cfg": "M_C34_deep.cfg", "tier": "thorough", "workers": "4"},
      {"module": "M_C34", "cfg": "M_C34_four.cfg", "tier": "thorough", "workers": "4"}]
F = 2 ** 24


def fx(v, cap=100.0):
    """a real number as fixed point, or None"""
    try:
        z = complex(v)
    except Exception:
        return None
    if not np.isfinite(z.real) or not np.isfinite(z.imag) or abs(z.imag) > 1e-6 or abs(z.real) > cap:
        return None
    return int(round(z.real * F))


def drive(ctx):
    rng = ctx.rng
    num = [0]

    def session(n, H, what, asreal=False):
        num[0] += 1
        se, d, m2 = num[0], 2 ** n, 2 * n
        w = 40 * 16 ** n + 2000
        sh, sq = (m2, m2), (d, d)

        def emit(kind, out, exc, call, can):
            ctx.emit(kind, out, exc, "%s; session %d: %s" % (call, se, what), can, sess=se, n=n, w=w)
        H = np.asarray(H)
        v, exc, _ = ctx.call(api("eigh_sp"), H.copy())
        L = U = None
        if exc == "":
            try:
                L, U = v
            except Exception:
                pass
        emit("modes", {"H": fxmat(H, sh, cap=6), "L": fxmat(L, sh, cap=6), "U": fxmat(U, sh, cap=1.1)}, exc,
             "eigh_sp(%r)" % (H.tolist(),), (("out", "L", "m", 0, 0, 0), 20000))
        if exc or not isinstance(L, np.ndarray) or not isinstance(U, np.ndarray) or U.shape != sh or L.shape != sh:
            return
        # the other layouts
        S = np.kron([[0, 1], [1, 0]], np.eye(n))
        Om = np.block([[np.eye(n), np.eye(n)], [1j * np.eye(n), -1j * np.eye(n)]]) / np.sqrt(2)
        for fn, X in (("eigv_sp", S @ H), ("eigm_sp", 1j * (Om @ H @ Om.conj().T).imag),
                      ("eigm_sp_can", 1j * (Om @ H @ Om.conj().T).imag)):
            v, exc, _ = ctx.call(api(fn), X.copy())
            e, ok = [], False
            if exc == "":
                try:
                    Lo = np.asarray(v[0])
                    pick = [(2 * k, 2 * k + 1) if fn == "eigm_sp_can" else (k, k + n) for k in range(n)]
                    e = [fx(abs(Lo[a, b]), 6) for a, b in pick]
                    ok = Lo.shape == sh and all(x is not None for x in e)
                except Exception:
                    pass
            ctx.emit("other", {"ok": ok, "e": e if ok else []}, exc, "%s of the same Hamiltonian; session %d: %s" % (fn, se, what),
                     (("out", "e", 0), F // 2), sess=se, n=n, w=500, fn=fn)
        alphas, exc, _ = ctx.call(api("jordan_wigner_alphas"), n)
        if exc:
            emit("quasi", {"b": [], "S": fxmat(None, sh)}, exc, "jordan_wigner_alphas(%d)" % n, None)
            return
        if se % 2:
            b, exc, _ = ctx.call(api("rotate_operators"), U.conj().T.copy(), alphas)
        else:
            b, exc, _ = ctx.call(api("rotate_operators"), U.copy(), alphas, Left=True)
        Sm, exc2, _ = ctx.call(api("compute_algebra_S"), b) if exc == "" else (None, "", "")
        blist = b if isinstance(b, (list, tuple)) else []
        emit("quasi", {"b": [fxmat(x, sq, cap=2) for x in blist], "S": fxmat(Sm, sh, cap=3)}, exc or exc2,
             "rotate_operators / compute_algebra_S", (("out", "b", 0, "m", 0, 0, 0), 20000))
        if exc or exc2 or len(blist) != m2:
            return
        K, exc, _ = ctx.call(api("build_op"), n, H.copy(), alphas)
        K2, exc2, _ = ctx.call(api("build_op"), n, L.copy(), b)
        emit("lift", {"K": fxmat(K, sq, cap=6), "K2": fxmat(K2, sq, cap=6)}, exc or exc2, "build_op(n, H, alphas) and build_op(n, L, modes)",
             (("out", "K", "m", 0, 0, 0), 60000))
        if exc or exc2:
            return
        arg = np.array(K) if n > 2 and se % 3 == 0 else H.copy()     # for n <= 2 the sizes coincide
        rho, exc, _ = ctx.call(api("generate_gaussian_state"), n, arg)
        if exc:
            emit("thermal", {}, exc, "generate_gaussian_state", None)
            return
        out = {"rho": fxmat(rho, sq, cap=1.1)}
        errs = ""
        for key, fn, a, k in (("P", "compute_2corr_matrix", (rho, n, b), {"conjugation": 1}),
                              ("E", "compute_2corr_matrix", (rho, n, b), {"conjugation": -1}),
                              ("Q", "compute_2corr_matrix", (rho, n, b), {}),
                              ("cov", "compute_cov_matrix", (rho,), {"n_sites": n, "alphas": b})):
            x, exc, _ = ctx.call(api(fn), *a, **k)
            errs = errs or exc
            out[key] = fxmat(x, sh, cap=3)
        can = (("out", ["P", "E", "Q", "cov"][se % 4], "m", 0, 0, 0), 60000)
        emit("thermal", out, errs, "generate_gaussian_state and its correlations in the modes", can)
        if errs:
            return
        pm, exc, _ = ctx.call(api("cov_distribution"), np.array(rho))
        ks = [ctx.call(api("FAF"), np.array(rho), k) if k != 2 else ctx.call(api("FAF"), np.array(rho)) for k in (1, 2, 3)]
        exc = exc or "".join(x[1] for x in ks)
        pmx = [fx(x, 2) for x in np.asarray(pm).ravel()] if exc == "" else []
        fa = [fx(x[0]) for x in ks]
        ok = exc == "" and None not in pmx and None not in fa and len(pmx) <= n
        emit("flat", {"ok": ok, "pm": pmx if ok else [], "faf": fa if ok else []}, exc, "cov_distribution / FAF of the thermal state",
             (("out", "faf", 1), F // 2))
        seed = int(rng.integers(0, 2 ** 31))
        W, exc, _ = ctx.call(api("random_FF_rotation"), n, seed=seed)
        C, exc2, _ = ctx.call(api("random_FF_rotation"), n, seed=seed, returnOrb=True)
        if exc or exc2:
            emit("turn", {}, exc or exc2, "random_FF_rotation(%d, seed=%d)" % (n, seed), None)
            return
        H2 = C.conj().T @ H @ C
        K3, exc, _ = ctx.call(api("build_op"), n, H2.copy(), alphas)
        rho2, exc2, _ = ctx.call(api("generate_gaussian_state"), n, H2.copy())
        v, exc3, _ = ctx.call(api("eigh_sp"), H2.copy())
        try:
            L2 = v[0]
        except Exception:
            L2 = None
        num2 = fxmat(H2, sh, cap=6)
        ctx.emit("turn", {"W": fxmat(W, sq, cap=1.1), "C": fxmat(C, sh, cap=1.1), "K": fxmat(K3, sq, cap=6),
                          "rho": fxmat(rho2, sq, cap=1.1), "L": fxmat(L2, sh, cap=6)}, exc or exc2 or exc3,
                 "the Hamiltonian turned by random_FF_rotation(%d, seed=%d); session %d: %s" % (n, seed, se, what),
                 (("out", "rho", "m", 0, 0, 0), 60000), sess=se, n=n, w=w, H2=num2["m"])

    def ham(n, A, B, size=None):
        """coefficient matrix built by the library, energies summing to at most `size`"""
        A, B = np.asarray(A), np.asarray(B)
        X = np.block([[-A.conj(), B], [-B.conj(), A]])
        e = np.abs(np.linalg.eigvalsh(X)).sum() / 2
        u = 1.0 if size is None or e <= size else size / e
        v, exc, _ = ctx.call(api("build_H"), n, A * u, B * u)
        return v if exc == "" and isinstance(v, np.ndarray) else X * u

    def rand(n):
        A = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        B = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        return A + A.conj().T, B - B.T

    # behaviours of the model
    sc = ctx.scen
    k = ctx.q(26, 300)
    if len(sc) > k:
        sc = [sc[i] for i in rng.choice(len(sc), k, replace=False)]
    for s in sc:
        R = np.array([[complex(*z) for z in row] for row in s["R"]]) / 2
        t = max(1, sum(s["sig"]))
        R = R * (1.5 / t)
        if not np.any(R.imag) and num[0] % 2:
            R = R.real.copy()
        session(s["n"], R, "model behaviour, energies %r" % (s["sig"],))
    for n in (1, 2, 3):
        O, I = np.zeros((n, n)), np.eye(n)
        session(n, ham(n, O, O), "zero Hamiltonian")
        session(n, ham(n, I, O, 1.4), "equal modes")
        session(n, ham(n, -I, O, 1.4), "equal modes, negative")
        if n > 1:
            session(n, ham(n, np.diag([1.0] + [0.0] * (n - 1)), O, 1.4), "one mode")
            J = np.diag([1.0] * (n - 1), 1)
            session(n, ham(n, O, J - J.T, 1.4), "pairing only")
            session(n, ham(n, np.diag([1.0] * (n - 1) + [-1]), O, 1.4), "mixed signs")
            for mu, t, dl in ((0, 1, 1), (2, 1, 1), (0.5, 1, 0.3), (1, 0, 1), (0, 1, 0)):
                v, exc, _ = ctx.call(api("kitaev_chain"), n, mu, t, dl)
                if exc == "" and isinstance(v, np.ndarray) and v.shape == (2 * n, 2 * n):
                    e = np.abs(np.linalg.eigvalsh(v)).sum() / 2
                    session(n, v * min(1.0, 1.5 / max(e, 1e-3)), "Kitaev chain mu=%r t=%r delta=%r" % (mu, t, dl))
    for i in range(ctx.q(12, 140)):
        n = int(rng.choice([1, 2, 3], p=[.15, .45, .4]))
        A, B = rand(n)
        if i % 5 == 1:
            B = B * 0
        if i % 5 == 2:
            A, B = A.real, B.real
        if i % 5 == 3:
            A = A * 0
        session(n, ham(n, A, B, float(rng.choice([0.2, 0.8, 1.5]))), "random")
    for i in range(ctx.q(8, 40)):                     # couplings of very different sizes
        n = 2 + i % 2
        A, B = rand(n)
        u = 10.0 ** -rng.uniform(0, 2, size=n)
        u[0] = 1
        m = rng.permutation(n)
        A, B = (A * np.outer(u, u))[np.ix_(m, m)], (B * np.outer(u, u))[np.ix_(m, m)] * [1, .01, 0][i % 3]
        session(n, ham(n, A, B, 1.5), "couplings of different sizes")
    for i in range(ctx.q(3, 40)):
        n = int(rng.choice([2, 3]))
        v, exc, _ = ctx.call(api("random_H_generator"), n, fixedN=bool(i % 2), seed=i)
        if exc == "" and isinstance(v, np.ndarray) and v.shape == (2 * n, 2 * n):
            e = np.abs(np.linalg.eigvalsh(v)).sum() / 2
            session(n, v * min(1.0, 1.5 / max(e, 1e-3)), "random_H_generator(%d, fixedN=%r, seed=%d)" % (n, bool(i % 2), i))
    if ctx.thorough:
        for i in range(3):
            A, B = rand(4)
            session(4, ham(4, A, B, 1.2), "random, four sites")
