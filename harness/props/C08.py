"""C08: Gaussian (thermal) states."""
import numpy as np

import ff
from rec import fx, fxmat, ints

MC = [{"module": "M_C08", "expect_states": 190, "workers": "4"},
      {"module": "M_C08", "cfg": "M_C08_deep.cfg", "tier": "thorough", "workers": "4"}]
ASSUMPTIONS = ["spectra within the range of the fixed-point exponential (spread below about 12)"]


def herm(rng, n, dens, mag):
    A = (rng.integers(-mag, mag + 1, (n, n)) + 1j * rng.integers(-mag, mag + 1, (n, n))) * (rng.random((n, n)) < dens)
    return np.triu(A, 1) + np.triu(A, 1).conj().T + np.diag(np.diag(A).real)


def skew(rng, n, dens, mag):
    B = (rng.integers(-mag, mag + 1, (n, n)) + 1j * rng.integers(-mag, mag + 1, (n, n))) * (rng.random((n, n)) < dens)
    B = np.triu(B, 1)
    return B - B.T


def drive(ctx):
    rng = ctx.rng
    CAN = (("out", "m", 0, 0, 0), 40000)

    def run(n, Hint, den, K, alphas=None, quads=(), tolib=lambda x: x):
        """K: the integer many-body operator, only used for a range shift"""
        H = tolib(Hint / den)
        kw = {} if alphas is None else {"alphas": alphas}
        rho, exc, _ = ctx.call(ff.generate_gaussian_state, n, H, **kw)
        lam = np.linalg.eigvalsh(K)
        if lam[-1] - lam[0] > 12 * den:
            return
        ctx.emit("thermal", fxmat(rho, (2 ** n, 2 ** n), cap=1.01), exc,
                 "generate_gaussian_state(%d, %r%s)" % (n, H.tolist(), ", alphas=..." if kw else ""), CAN,
                 n=n, H=ints(Hint), den=den, jw=alphas is None, shift=int(np.floor(lam[0] - den)) if n > 2 else int(np.floor(lam[0])),
                 alphas=[] if alphas is None else [ints(a) for a in alphas], quads=[list(q) for q in quads],
                 w=10 * 16 ** min(n, 3) + 10 * 8 ** n + (3000 if alphas is not None else 0))

    def lift(R, al):
        m = len(al)
        return sum(R[i, j] * al[i].conj().T @ al[j] for i in range(m) for j in range(m))

    jw = {n: [np.array(a.toarray() if hasattr(a, "toarray") else a) for a in ff.jordan_wigner_alphas(n)] for n in range(1, 5)}

    def quads(n, k=3):
        return [tuple(int(x) for x in rng.integers(1, 2 * n + 1, 4)) for _ in range(k)] + \
            [tuple(int(x) + 1 for x in rng.permutation(2 * n)[:4]) for _ in range(k)] if n > 1 else []

    sc = ctx.scen
    k = ctx.q(24, 300)
    if len(sc) > k:
        sc = [sc[i] for i in rng.choice(len(sc), k, replace=False)]
    for s in sc:
        A = np.array([[complex(*z) for z in row] for row in s["A"]])
        B = np.array([[complex(*z) for z in row] for row in s["B"]])
        R = ff.build_H(s["n"], A, B)
        run(s["n"], R, int(rng.choice([1, 2, 8])), lift(R, jw[s["n"]]), quads=quads(s["n"], 2))

    for _ in range(ctx.q(56, 500)):
        n = int(rng.choice([1, 2, 3, 4], p=[.15, .35, .3, .2]))
        dens = float(rng.choice([0.3, 1.0]))
        A, B = herm(rng, n, dens, 3), skew(rng, n, dens, 3)
        t = rng.integers(0, 5)
        if t == 0:
            B = B * 0
        elif t == 1:
            A = A * 0
        elif t == 2:
            A, B = A.real, B.real
        R = np.block([[-A.conj(), B], [-B.conj(), A]])
        tolib = (lambda x: x.real.copy()) if t == 2 and rng.random() < .7 else (lambda x: x)
        if t == 2 and rng.random() < .3:
            run(n, R, 1, lift(R, jw[n]), quads=quads(n), tolib=lambda x: np.round(x.real).astype(int))
        else:
            run(n, R, int(rng.choice([2, 4, 8, 16])), lift(R, jw[n]), quads=quads(n), tolib=tolib)
    # operators, not necessarily quadratic
    for _ in range(ctx.q(30, 300)):
        n = int(rng.choice([1, 2, 3], p=[.3, .45, .25]))
        K = herm(rng, 2 ** n, float(rng.choice([0.2, 1.0])), 3)
        if rng.random() < .3:
            K = np.diag(rng.integers(-3, 4, 2 ** n)).astype(complex)
        tolib = lambda x: x  # noqa
        if rng.random() < .2:
            K = K.real
            tolib = lambda x: x.real.copy()  # noqa
        run(n, K, int(rng.choice([2, 4, 8])), K, tolib=tolib)
    # nearly real
    for _ in range(ctx.q(10, 80)):
        n = int(rng.choice([1, 2, 3], p=[.2, .5, .3]))
        den = int(rng.choice([1024, 2048, 4096]))
        A, B = herm(rng, n, 1.0, 2), skew(rng, n, 1.0, 2)
        A, B = (A.real * den // 2 + 1j * A.imag).round(), (B.real * den // 2 + 1j * B.imag).round()
        R = np.block([[-A.conj(), B], [-B.conj(), A]])
        run(n, R, den, lift(R, jw[n]))
        K = herm(rng, 2 ** min(n, 2), 1.0, 2)
        K = (K.real * den // 2 + 1j * K.imag).round()
        run(min(n, 2), K, den, K)
    # other operator lists
    for _ in range(ctx.q(16, 120)):
        n = int(rng.choice([1, 2, 3], p=[.3, .5, .2]))
        A, B = herm(rng, n, .7, 2), skew(rng, n, .7, 2)
        R = np.block([[-A.conj(), B], [-B.conj(), A]])
        p = rng.permutation(n)
        ph = np.array([1, 1j, -1, -1j])[rng.integers(0, 4, n)]
        al = [ph[i] * jw[n][p[i]] for i in range(n)] + [np.conj(ph[i]) * jw[n][n + p[i]] for i in range(n)]
        if rng.random() < .3:
            al = al[n:] + al[:n]
        run(n, R, int(rng.choice([2, 4])), lift(R, al), alphas=al)
    # degenerate, large and tiny scales
    for n in (1, 2, 3, 4):
        Z = np.zeros((2 * n, 2 * n), dtype=complex)
        run(n, Z, 2, lift(Z, jw[n]), quads=quads(n))
        run(n, np.zeros((2 ** n, 2 ** n)), 2, np.zeros((2 ** n, 2 ** n)))
        R = np.diag([-1.0] * n + [1.0] * n)
        run(n, R, 2, lift(R, jw[n]), quads=quads(n))
    # Hamiltonians diagonal in the occupations: populations over many orders of magnitude
    for _ in range(ctx.q(30, 200)):
        n = int(rng.choice([1, 2, 3, 4]))
        den = int(rng.choice([1, 2, 3]))
        if rng.random() < .6 or n == 1:
            e = rng.integers(-20, 21, n) // n
            H = np.diag(np.append(-e, e)).astype(float)
        else:
            H = np.diag(rng.integers(-20, 21, 2 ** n)).astype(float)
            if n == 2:                         # not to be read as coefficients
                H[0, 0], H[2, 2] = 7, 6
        rho, exc, _ = ctx.call(ff.generate_gaussian_state, n, H / den)
        o = {"ok": False, "l": [], "off": False}
        if exc == "" and np.shape(rho) == (2 ** n, 2 ** n):
            d = np.diag(rho)
            if np.all(np.isfinite(rho)) and np.all(np.abs(d.imag) <= 1e-12 * np.abs(d)) and np.all(d.real > 0):
                o = {"ok": True, "l": [fx(x) for x in np.log(d.real)], "off": bool(np.abs(rho - np.diag(d)).max() <= 1e-12)}
                o["ok"] = None not in o["l"]
        ctx.emit("populations", o, exc, "generate_gaussian_state(%d, diag(%r) / %d)" % (n, np.diag(H).tolist(), den),
                 (("out", "l", 0), 40000) if o["ok"] else None, n=n, H=ints(H), den=den, jw=True, alphas=[], w=2000)
    for n, m in ((1, 3), (2, 3), (2, 5), (3, 4), (3, 7), (3, 9), (4, 6), (4, 15), (2, 8), (2, 2)):
        H = np.eye(m)
        v, exc, _ = ctx.call(ff.generate_gaussian_state, n, H)
        zero = exc == "" and np.isscalar(v) and v == 0
        ctx.emit("refuse", {"zero": bool(zero)}, exc, "generate_gaussian_state(%d, eye(%d))" % (n, m),
                 (("out", "zero"), False))
