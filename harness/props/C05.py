"""C05: coefficient matrix layouts."""
import numpy as np

import ff
from rec import fxmat, ints, lat

MC = [{"module": "M_C05", "expect_states": 5000},
      {"module": "M_C05", "cfg": "M_C05_deep.cfg", "tier": "thorough"}]


def styled(rng, A):
    k = rng.integers(0, 5)
    if k == 0:
        return np.asfortranarray(A)
    if k == 1:
        B = np.zeros((A.shape[0], 2 * A.shape[1]), dtype=A.dtype)
        B[:, ::2] = A
        return B[:, ::2]
    if k == 2:
        A = A.copy()
        A.flags.writeable = False
    return A


def drive(ctx):
    rng = ctx.rng
    CAN = (("out", "m", 0, 0, 0), 1)

    def build(A, B, scale=1.0, style=True):
        n = A.shape[0]
        for fn, f in (("build_H", ff.build_H), ("build_V", ff.build_V)):
            a = styled(rng, A * scale if scale != 1 else A) if style else A
            args = [n, a]
            if B is not None:
                args.append(styled(rng, B * scale if scale != 1 else B) if style else B)
            H, exc, _ = ctx.call(f, *args)
            ctx.emit("build", lat(H, 1 / scale, shape=(2 * n, 2 * n)), exc,
                     "%s(%d, %r, %r)" % (fn, n, A.tolist(), None if B is None else B.tolist()), CAN,
                     fn=fn, n=n, A=ints(A), hasB=B is not None, B=ints(B) if B is not None else [])

    sc = ctx.scen
    k = ctx.q(60, 1000)
    if len(sc) > k:
        sc = [sc[i] for i in rng.choice(len(sc), k, replace=False)]
    for s in sc:
        build(np.array([[complex(*z) for z in row] for row in s["A"]]),
              np.array([[complex(*z) for z in row] for row in s["B"]]))
    for k in range(ctx.q(120, 900)):
        n = int(rng.integers(1, 8)) if k % 15 else int(rng.integers(8, 25))
        A = rng.integers(-9, 10, (n, n)) + 1j * rng.integers(-9, 10, (n, n))
        B = rng.integers(-9, 10, (n, n)) + 1j * rng.integers(-9, 10, (n, n))
        t = rng.integers(0, 6)
        if t == 0:
            A, B = A.real.astype(int), B.real.astype(int)
        elif t == 1:
            A, B = A.real, B.real
        elif t == 2:
            A = A.real.astype(int)
        elif t == 3:
            A, B = A + A.conj().T, B - B.T
        elif t == 4:
            B = np.zeros_like(B)
        if rng.random() < 0.25:
            B = None
        build(A, B, float(rng.choice([1, 1, 0.25, 2.0 ** -30, 1024])))
    for k in range(ctx.q(100, 600)):
        n = int(rng.integers(1, 9)) if k % 12 else int(rng.integers(9, 31))
        mu, t, d = [int(x) for x in rng.integers(-8, 9, 3)]
        if rng.random() < 0.3:
            mu = 0
        if rng.random() < 0.2:
            t = 0
        if rng.random() < 0.2:
            d = 0
        u = float(rng.choice([1, 1, 0.5, 0.5, 0.125, 2.0 ** -28]))
        args = (mu, t, d) if u == 1 else (mu * u, t * u, d * u)
        if u == 0.5 and rng.random() < 0.8:     # parameters of different number types
            args = tuple(int(x) if x == int(x) and rng.random() < 0.8 else x for x in args)
        elif u == 1:
            args = tuple((int, float, np.int64, np.float32)[int(rng.integers(0, 4))](x) for x in args)
        H, exc, _ = ctx.call(ff.kitaev_chain, n, *args)
        ctx.emit("kitaev", lat(H, 1 / u, shape=(2 * n, 2 * n)), exc, "kitaev_chain(%d, %r, %r, %r)" % ((n,) + args),
                 CAN, n=n, mu=mu, t=t, delta=d)
    for k in range(ctx.q(40, 300)):
        n = int(rng.integers(1, 6)) if k % 8 else int(rng.integers(6, 15))
        fixed = bool(rng.random() < 0.5)
        kw = {}
        if fixed or rng.random() < 0.5:
            kw["fixedN"] = fixed
        if rng.random() < 0.7:
            kw["seed"] = int(rng.integers(0, 1000))
        H, exc, _ = ctx.call(ff.random_H_generator, n, **kw)
        ctx.emit("rand", fxmat(H, (2 * n, 2 * n), cap=60), exc, "random_H_generator(%d, %s)" % (n, kw),
                 (("out", "m", 0, 0, 1), 1000), n=n, fixedN=fixed)
