"""C06: lift of a quadratic coefficient matrix to a many-body operator."""
import numpy as np

import ff
from rec import ints, lat

MC = [{"module": "M_C06", "expect_states": 700},
      {"module": "M_C06", "cfg": "M_C06_deep.cfg", "tier": "thorough"}]


def gint(rng, shape, lo=-4, hi=4, density=0.7):
    A = rng.integers(lo, hi + 1, size=shape) + 1j * rng.integers(lo, hi + 1, size=shape)
    return A * (rng.random(shape) < density)


def drive(ctx):
    rng = ctx.rng
    CAN = (("out", "m", 0, 0, 0), 1)
    al_cache = {}

    def lift(n, Rint, unit=1.0, direct=None, verbose=None, tolib=None):
        al, exc, _ = ctx.call(ff.jordan_wigner_alphas, n)
        R = Rint if unit == 1 else Rint * unit
        if tolib:
            R = tolib(R)
        kw = {}
        if direct is not None:
            kw["direct"] = direct
        if verbose is not None:
            kw["verbose"] = verbose
        op, exc, _ = ctx.call(ff.build_op, n, R, al, **kw)
        ctx.emit("lift", lat(op, 1 / unit, shape=(2 ** n, 2 ** n)), exc,
                 "build_op(%d, R=%r, jordan_wigner_alphas, %s)" % (n, R.tolist(), kw), CAN,
                 n=n, R=ints(Rint), direct=bool(direct), w=600 * 8 ** n)

    sc = ctx.scen
    k = ctx.q(80, 1000)
    if len(sc) > k:
        sc = [sc[i] for i in rng.choice(len(sc), k, replace=False)]
    for i, s in enumerate(sc):
        R = np.array([[complex(*z) for z in row] for row in s["R"]])
        lift(s["n"], R, direct=[None, True, False][i % 3])
    for _ in range(ctx.q(130, 900)):
        n = int(rng.choice([1, 2, 2, 3, 3, 4, 5], p=[.1, .2, .2, .2, .15, .1, .05]))
        dens = float(rng.choice([0.1, 0.5, 1.0]))
        R = gint(rng, (2 * n, 2 * n), density=dens)
        t = rng.integers(0, 6)
        if t == 0:
            R = R.real.astype(int)
        elif t == 1:
            R = R.real
        elif t == 2:
            R = R + R.conj().T
        elif t == 3:
            R = R - R.T
        elif t == 4:
            A = gint(rng, (n, n))
            B = gint(rng, (n, n))
            R = ff.build_H(n, A + A.conj().T, B - B.T)
        unit = float(rng.choice([1, 1, 1, 0.5, 2.0 ** -25, 2.0 ** -31, 2.0 ** 20]))
        if rng.random() < 0.15:            # ordinary and tiny entries side by side
            R = R * np.where(rng.random(R.shape) < 0.5, 2 ** 18, 1)
            unit = 2.0 ** -20
        tolib = [None, np.asfortranarray, None][int(rng.integers(0, 3))]
        lift(n, R, unit, [None, None, True, False][int(rng.integers(0, 4))],
             [None, None, None, True][int(rng.integers(0, 4))] if n < 3 else None, tolib)
    for _ in range(ctx.q(50, 400)):
        n = int(rng.integers(1, 4))
        kind = rng.integers(0, 4)
        unit = 1.0
        if kind == 0:
            n = min(n, 2 if not ctx.thorough else 3)
            lib = ff.jordan_wigner_majoranas(n)
            al = [np.round(x * np.sqrt(2)) for x in lib]
            unit = 0.5
        elif kind == 1:
            n = min(n, 2)
            C = gint(rng, (2 * n, 2 * n), -1, 1, 0.6)
            a0 = ff.jordan_wigner_alphas(n)
            al = [sum(C[j, i] * a0[i] for i in range(2 * n)) for j in range(2 * n)]
            lib = al
        else:
            d = int(rng.integers(1, 5))
            al = [gint(rng, (d, d), -2, 2) for _ in range(2 * n)]
            if kind == 3:
                al = [x.real.astype(int) if rng.random() < 0.5 else x.real for x in al]
            lib = al
        R = gint(rng, (2 * n, 2 * n), -3, 3)
        if rng.random() < 0.3:
            R = R.real
        direct = bool(rng.random() < 0.5)
        op, exc, _ = ctx.call(ff.build_op, n, R, lib, direct=direct)
        d = lib[0].shape[0]
        ctx.emit("dense", lat(op, 1 / unit, shape=(d, d)), exc,
                 "build_op(%d, R=%r, %d custom operators of dim %d, direct=%s)" % (n, R.tolist(), 2 * n, d, direct),
                 CAN, n=n, R=ints(R), alphas=[ints(x) for x in al], direct=direct)
    for _ in range(ctx.q(25, 200)):
        n = int(rng.integers(1, 4))
        A = gint(rng, (n, n))
        A = A + A.conj().T
        B = gint(rng, (n, n))
        B = B - B.T
        al = ff.jordan_wigner_alphas(n)
        h, exc, _ = ctx.call(lambda: ff.build_op(n, ff.build_H(n, A, B), al))
        v, exc2, _ = ctx.call(lambda: ff.build_op(n, ff.build_V(n, A, B), al, direct=True))
        sh = (2 ** n, 2 ** n)
        ctx.emit("pair", {"h": lat(h, shape=sh), "v": lat(v, shape=sh)}, exc or exc2,
                 "build_op of build_H / build_V(%d, %r, %r)" % (n, A.tolist(), B.tolist()),
                 (("out", "v", "m", 0, 0, 0), 1), n=n, A=ints(A), B=ints(B))
