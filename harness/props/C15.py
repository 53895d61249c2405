"""C15: Pfaffian and permutation sign."""
import itertools

import numpy as np

from rec import api, ints, lat

MC = [{"module": "M_C15", "expect_states": 40000, "workers": "4"},
      {"module": "M_C15", "cfg": "M_C15_deep.cfg", "tier": "thorough", "workers": "4", "timeout": 850}]
ASSUMPTIONS = ["integer matrices are small enough that products of entries fit their dtype (NumPy integer arithmetic wraps)"]


def one(v, scale=1.0):
    """a scalar result"""
    if v is None or isinstance(v, (str, list, tuple, dict)) or np.ndim(v) != 0:
        return {"ok": False, "why": "not a number", "m": []}
    return lat(np.array([[complex(v)]]), scale)


def cast(rng, M, den, dt):
    """the same integer matrix / den as an array of another type or layout"""
    if dt == "list":
        return (M / den).tolist() if den > 1 else [[complex(x) if x.imag else int(x.real) for x in r] for r in M]
    if dt in ("int64", "int32", "int16"):
        return np.array(M.real.round(), dtype=dt)
    A = (M / den)
    A = A.real if dt in ("float64", "float32") else A
    A = A.astype(dt)
    k = int(rng.integers(0, 4))
    if k == 1:
        A = np.asfortranarray(A)
    elif k == 2:
        B = np.zeros((2 * A.shape[0], 2 * A.shape[1]), A.dtype)
        B[::2, ::2] = A
        A = B[::2, ::2]
    elif k == 3:
        A.setflags(write=False)
    return A


def random_int(rng, n, lo, cplx, kind):
    M = rng.integers(-lo, lo + 1, size=(n, n)).astype(complex)
    if cplx:
        M = M + 1j * rng.integers(-lo, lo + 1, size=(n, n))
    if kind == "sparse":
        M = M * (rng.random((n, n)) < 0.35)
    if kind in ("skew", "skewsparse"):
        M = np.triu(M, 1)
        if kind == "skewsparse":
            M = M * (rng.random((n, n)) < 0.5)
        M = M - M.T
    if kind == "sym":
        M = np.triu(M) + np.triu(M, 1).T
    if kind == "ones":
        M = np.triu(np.ones((n, n)), 1) - np.tril(np.ones((n, n)), -1) + 0j
    return M


def step(A, op, k):
    """one action of the model on a numpy matrix (1-based indices)"""
    name, i, j = op[0], op[1] - 1, op[2] - 1
    if name == "grow":
        n = len(A)
        B = np.zeros((n + 2, n + 2), complex)
        B[:n, :n] = A
        B[n, n + 1], B[n + 1, n] = k, -k
        return B
    A = A.copy()
    if name == "swap":
        A[[i, j]] = A[[j, i]]
        A[:, [i, j]] = A[:, [j, i]]
    elif name == "add":
        A[j] += k * A[i]
        A[:, j] += k * A[:, i]
    else:
        A[i] *= k
        A[:, i] *= k
    return A


def drive(ctx):
    rng = ctx.rng
    pf, sgn = api("pf"), api("sgn")
    sc = ctx.scen
    sess = 0
    for t in rng.choice(len(sc), min(len(sc), ctx.q(150, 1500)), replace=False):
        sess += 1
        ctx.emit("begin", {"ok": True}, "", "empty matrix", None, sess=sess, w=5)
        A = np.zeros((0, 0), complex)
        for op in sc[int(t)]["ops"]:
            A = step(A, op, complex(op[3], op[4]))
            isre = np.all(A.imag == 0)
            dt = ["complex128", "float64", "int64"][int(rng.integers(0, 3))] if isre else "complex128"
            v, exc, _ = ctx.call(pf, cast(rng, A, 1, dt))
            ctx.emit("step", one(v, 2.0 ** (len(A) // 2)), exc, "pf(%s %s)" % (dt, A.tolist()),
                     (("out", "m", 0, 0, 0), 1), sess=sess, op=op, A=ints(A), w=80)

    def run(M, den=1, dt="complex128"):
        n = M.shape[0]
        v, exc, _ = ctx.call(pf, cast(rng, M, den, dt))
        ctx.emit("pf", one(v, float(2 * den) ** (n // 2)), exc, "pf(%s, %s / %d)" % (dt, M.tolist(), den),
                 (("out", "m", 0, 0, 0), 1) if n > 2 else None, A=ints(M), w=20 + 4 ** (n // 2) * 10)

    for kind in ("dense", "skew", "skewsparse", "sparse", "sym", "ones"):
        for n in range(0, 7):
            for dt in ("complex128", "float64", "int64", "int32", "complex64", "float32", "int16", "list"):
                for _ in range(ctx.q(1, 4) if n > 2 else 1):
                    cplx = dt in ("complex128", "complex64", "list")
                    run(random_int(rng, n, 3, cplx, kind), 1 if dt.startswith("int") else [1, 1, 2, 4][int(rng.integers(0, 4))], dt)
    for n in (2, 4, 6):
        for den in (2 ** 24, 2 ** 30, 2 ** 40):       # tiny entries count as they are
            run(random_int(rng, n, 2, True, "skew"), den)
        if n < 6:
            run(random_int(rng, n, 900, False, "skew"), 1, "int64")
            run(random_int(rng, n, 900, True, "dense"), 1)
    run(np.zeros((4, 4), complex), 1, "int64")
    for n in (7,) + (8,) * ctx.q(2, 8):
        run(random_int(rng, n, 2, n == 8, "skew"), 1)
        run(random_int(rng, n, 1, False, "dense"), 2, "float64")
    # mixed scales: one tiny, one large entry in the same matching
    M = np.zeros((4, 4), complex)
    M[0, 1], M[2, 3] = 1, 2 ** 22
    run(M - M.T, 2 ** 11, "float64")
    # permutation signs
    perms = [p for n in range(0, 6) for p in itertools.permutations(range(n))]
    perms += [tuple(int(x) for x in rng.permutation(int(rng.integers(6, 13)))) for _ in range(ctx.q(60, 400))]
    for t, p in enumerate(perms):
        q = [list(p), tuple(p), np.array(p, dtype=int)][t % 3]
        v, exc, _ = ctx.call(sgn, q)
        ctx.emit("sgn", one(v), exc, "sgn(%r)" % (q,), (("out", "m", 0, 0, 0), 1), p=list(p), w=40)
