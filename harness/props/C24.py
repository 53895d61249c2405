"""C24: direct sums and permutation matrices."""
import itertools

import numpy as np

from rec import api, ints, lat

MC = [{"module": "M_C24", "expect_states": 2000, "workers": "4"},
      {"module": "M_C24", "cfg": "M_C24_deep.cfg", "tier": "thorough", "workers": "6", "timeout": 850}]


def gi(A, c):
    """nested Gaussian integers of an r x c matrix; the number of columns is separate (r may be 0)"""
    return ints(A)


def drive(ctx):
    rng = ctx.rng
    kp, pm = api("kron_plus"), api("permutation_to_matrix")

    def block(r, c, cplx, span=9):
        A = rng.integers(-span, span + 1, size=(r, c)) + 0j
        if cplx:
            A = A + 1j * rng.integers(-span, span + 1, size=(r, c))
        return A

    def cast(A, den):
        real = not A.size or np.all(A.imag == 0)
        dt = str(rng.choice(["complex128", "float64", "int64", "float32", "int32"])) if real and den == 1 else \
            str(rng.choice(["complex128", "float64"])) if real else "complex128"
        X = A if dt == "complex128" else A.real.astype(dt)
        return (X / den if den > 1 else X), dt == "complex128"

    def emit(kind, P, B, X, Y, cplx, den, call, **kw):
        kx, ky = X.copy(), Y.copy()
        v, exc, _ = ctx.call(kp, X, Y)
        shape = (P.shape[0] + B.shape[0], P.shape[1] + B.shape[1])
        o = lat(v, den, shape=shape)
        if not (np.array_equal(X, kx) and np.array_equal(Y, ky)):
            o["ok"] = False
        o["cplx"] = bool(np.iscomplexobj(v))
        can = (("out", "m", 0, 0, 0), 1) if o["m"] and o["m"][0] else None
        ctx.emit(kind, o, exc, call, can, B=ints(B), cb=B.shape[1], cplx=cplx, w=20 + shape[0] * shape[1], **kw)
        return v

    shapes = [(1, 1), (2, 2), (1, 2), (2, 1), (3, 1), (1, 3), (2, 3), (3, 2), (3, 3), (4, 4), (4, 2), (1, 5), (5, 1), (8, 8)]
    for sa, sb in itertools.product(shapes, shapes):
        for k in range(ctx.q(2, 8)):
            den = int(rng.choice([1, 1, 4, 2 ** 10]))
            A, B = block(*sa, rng.random() < 0.5), block(*sb, rng.random() < 0.5)
            if rng.random() < 0.2:
                A = A * 0
            (X, cx), (Y, cy) = cast(A, den), cast(B, den)
            emit("sum", A, B, X, Y, cx or cy, den, "kron_plus(%s %s, %s %s)" % (X.dtype, sa, Y.dtype, sb), A=ints(A), ca=sa[1])
    # sessions: gluing one block after another
    for s in range(ctx.q(60, 400)):
        sa = shapes[int(rng.integers(0, 9))] if s % 10 else tuple(int(x) for x in rng.integers(8, 25, 2))
        S = block(*sa, rng.random() < 0.3)
        X, cx = cast(S, 1)
        ctx.emit("begin", {"ok": True}, "", "", None, sess=s, A=ints(S), ca=sa[1], w=5)
        for _ in range(4):
            sb = shapes[int(rng.integers(0, 9))]
            B = block(*sb, rng.random() < 0.3)
            Y, cy = cast(B, 1)
            v = emit("glue", S, B, X, Y, cx or cy, 1, "kron_plus step %s + %s" % (S.shape, sb), sess=s)
            S2 = np.zeros((S.shape[0] + sb[0], S.shape[1] + sb[1]), dtype=complex)
            if not isinstance(v, np.ndarray) or v.shape != S2.shape:
                break
            S, X, cx = S2, v, cx or cy

    def wrap(p):
        k = int(rng.integers(0, 3))
        return list(p) if k == 0 else tuple(p) if k == 1 else np.array(p, dtype=int)

    def perm(p, form=None):
        x = wrap(p) if form is None else form(p)
        v, exc, _ = ctx.call(pm, x)
        n = len(p)
        o = lat(v, shape=(n, n)) if v is not None else {"ok": False, "m": []}
        o["none"] = v is None
        can = (("out", "m", 0, 0, 0), 1) if o["ok"] and n else (("out", "none"), v is not None)
        ctx.emit("perm", o, exc, "permutation_to_matrix(%r)" % (x,), can, fn="valid" if sorted(p) == list(range(n)) else "invalid", p=[int(t) for t in p], w=10 + n * n)
        return v

    for n in range(0, 6):
        for p in itertools.permutations(range(n)):
            perm(p)
    for n in (6, 8, 11, 20):
        for _ in range(ctx.q(3, 10)):
            perm([int(t) for t in rng.permutation(n)])
    for n in (1, 2, 3):
        for p in itertools.product(range(-2, n + 2), repeat=n):
            if sorted(p) != list(range(n)):
                perm(p)
    for _ in range(ctx.q(60, 400)):                     # almost permutations
        n = int(rng.integers(4, 9))
        p = [int(t) for t in rng.permutation(n)]
        k = int(rng.integers(0, n))
        p[k] = int(rng.choice([-1, n, p[(k + 1) % n], p[k] - n, n + 5]))
        perm(p)
    # composition
    sc = [x for x in ctx.scen]
    ps = [(x["p"], x["q"]) for x in (sc[int(t)] for t in rng.choice(len(sc), min(len(sc), 60), replace=False))]
    for k in range(ctx.q(60, 300)):
        n = int(rng.integers(1, 9)) if k % 10 else int(rng.integers(9, 31))
        ps.append(([int(t) for t in rng.permutation(n)], [int(t) for t in rng.permutation(n)]))
    for p, q in ps:
        a, e1, _ = ctx.call(pm, wrap(p))
        b, e2, _ = ctx.call(pm, wrap(q))
        o = {"ok": False, "m": []}
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.ndim == b.ndim == 2 and a.shape[1] == b.shape[0]:
            o = lat(a @ b, shape=(len(p), len(p)))
        ctx.emit("pair", o, e1 or e2, "product of the matrices of %s and %s" % (p, q), (("out", "m", 0, 0, 0), 1) if o["ok"] else None, p=p, q=q, w=30 + len(p) ** 2)
