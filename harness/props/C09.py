"""C09: symplectic eigendecompositions."""
import numpy as np

import ff
from rec import api, fxmat

MC = [{"module": "M_C09", "expect_states": 190, "workers": "2"},
      {"module": "M_C09", "cfg": "M_C09n3.cfg", "expect_states": 190, "workers": "4"},
      {"module": "M_C09", "cfg": "M_C09_deep.cfg", "tier": "thorough", "workers": "4"}]
FNS = ("eigh_sp", "eigv_sp", "eigm_sp", "eigm_sp_can")


def drive(ctx):
    rng = ctx.rng

    def run(A, B, fns=FNS, scale=1.0, tag="", asreal=False):
        n = A.shape[0]
        A, B = np.asarray(A, complex), np.asarray(B, complex)
        H = np.block([[-A.conj(), B], [-B.conj(), A]]) * scale
        S = np.kron([[0, 1], [1, 0]], np.eye(n))
        Om = np.block([[np.eye(n), np.eye(n)], [1j * np.eye(n), -1j * np.eye(n)]]) / np.sqrt(2)
        G = Om @ H @ Om.conj().T
        G = 1j * G.imag
        ins = {"eigh_sp": H, "eigv_sp": S @ H, "eigm_sp": G, "eigm_sp_can": G}
        size = np.linalg.norm(H, 2)
        u = 1.0 if 0.05 < size < 7 else (4.0 / size if size > 0 else 1.0)
        for fn in fns:
            X = ins[fn]
            if asreal and fn in ("eigh_sp", "eigv_sp"):
                X = X.real.copy()
            v, exc, _ = ctx.call(api(fn), X.copy())
            L = U = None
            if exc == "":
                try:
                    L, U = v
                except Exception:
                    pass
            sh = (2 * n, 2 * n)
            ctx.emit("eig", {"L": fxmat(L, sh, cap=11, scale=u), "U": fxmat(U, sh, cap=1.1)}, exc,
                     "%s(%r) %s" % (fn, X.tolist(), tag), (("out", "U", "m", 0, 0, 0), 20000),
                     fn=fn, n=n, H=fxmat(X, sh, cap=11, scale=u)["m"], w=700 * n ** 3)

    sc = ctx.scen
    k = ctx.q(70, 1200)
    if len(sc) > k:
        sc = [sc[i] for i in rng.choice(len(sc), k, replace=False)]
    for i, s in enumerate(sc):
        A = np.array([[complex(*z) for z in row] for row in s["A"]])
        B = np.array([[complex(*z) for z in row] for row in s["B"]])
        fns = FNS if ctx.thorough else (FNS[i % 4], FNS[(i + 1) % 4])
        run(A, B, fns, tag="(small integer)")
    for n in range(1, 6):
        O, I = np.zeros((n, n)), np.eye(n)
        run(O, O, tag="zero")
        run(I, O, tag="A=1")
        run(-2 * I, O, tag="A=-2")
        if n > 1:
            run(np.diag([1.0] * (n - 1) + [-1]), O, tag="mixed signs")
            J = np.diag([1.0] * (n - 1), 1)
            run(O, J - J.T, tag="pairing only")
            run(J + J.T, O, tag="hopping only", asreal=True)
            run(J + J.T, J - J.T, tag="Kitaev sweet spot", asreal=True)
            run(np.diag([0.0] * (n - 1) + [1]), O, tag="zero modes")

    def rH(n, mag=1.0):
        A = rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n))
        B = rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n))
        return (A + A.conj().T) / 4 * mag, (B - B.T) / 4 * mag

    for it in range(ctx.q(36, 400)):
        n = int(rng.choice([1, 2, 3, 4, 5, 6], p=[.1, .25, .25, .2, .15, .05]))
        if it % 12 == 11:
            n = int(rng.integers(7, 14))
        A, B = rH(n)
        t = it % 9
        asreal = False
        if t == 0:
            B = B * 0
        elif t == 1:
            A = A * 0
        elif t == 2:
            A, B, asreal = A.real, B.real, True
        elif t in (3, 4, 5):
            # a symplectic rotation of a degenerate or singular spectrum
            Om = np.block([[np.eye(n), np.eye(n)], [1j * np.eye(n), -1j * np.eye(n)]]) / np.sqrt(2)
            Q, _ = np.linalg.qr(rng.standard_normal((2 * n, 2 * n)))
            W = Om.conj().T @ Q @ Om
            ev = rng.integers(-1, 3, n).astype(float) if t != 5 else np.where(rng.random(n) < .5, 0.0, rng.random(n))
            if t == 5 and it % 2:                       # soft modes among zero modes
                ev = rng.choice([0, 0, 5e-3, -5e-3, 1e-3, 1], n)
            if t == 4:
                ev = np.full(n, 1.5)
            Hh = W @ np.diag(np.concatenate([-ev, ev])) @ W.conj().T
            A, B = Hh[n:, n:], Hh[:n, n:]
            A, B = (A + A.conj().T) / 2, (B - B.T) / 2
        elif t == 6:
            m = max(1, n // 2)
            A[:m, m:] = 0
            A[m:, :m] = 0
            B[:m, :] = 0
            B[:, :m] = 0
        fns = FNS if ctx.thorough else (FNS[it % 4], FNS[(it + 2) % 4])
        run(A, B, fns, scale=float(rng.choice([1, 1, 1, 100, 0.01])), tag="(random %d)" % t, asreal=asreal)
