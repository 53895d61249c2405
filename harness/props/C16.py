"""C16: Hafnian."""
import numpy as np

from props.C15 import cast, one, random_int
from rec import api, ints

MC = [{"module": "M_C16", "expect_states": 2000, "workers": "4"},
      {"module": "M_C16", "cfg": "M_C16_deep.cfg", "tier": "thorough", "workers": "4", "timeout": 850}]
ASSUMPTIONS = ["integer matrices are small enough that products of entries fit their dtype (NumPy integer arithmetic wraps)"]


def step(A, op):
    name, i, j, k = op[0], op[1] - 1, op[2] - 1, complex(op[3], op[4])
    if name == "start":
        return np.zeros((op[1], op[1]), complex)
    if name == "grow":
        n = len(A)
        B = np.zeros((n + 2, n + 2), complex)
        B[:n, :n] = A
        B[n, n + 1] = B[n + 1, n] = k
        return B
    A = A.copy()
    if name == "edge":
        A[i, j] += k
        A[j, i] += k
    elif name == "loop":
        A[i, i] += k
    elif name == "swap":
        A[[i, j]] = A[[j, i]]
        A[:, [i, j]] = A[:, [j, i]]
    else:
        A[i] *= k
        A[:, i] *= k
    return A


def drive(ctx):
    rng = ctx.rng
    hf = api("hf")
    sc = ctx.scen
    sess = 0
    for t in rng.choice(len(sc), min(len(sc), ctx.q(250, 2500)), replace=False):
        sess += 1
        ctx.emit("begin", {"ok": True}, "", "", None, sess=sess, w=5)
        A = None
        for op in sc[int(t)]["ops"]:
            A = step(A, op)
            isre = np.all(A.imag == 0)
            dt = ["complex128", "float64", "int64"][int(rng.integers(0, 3))] if isre else "complex128"
            v, exc, _ = ctx.call(hf, cast(rng, A, 1, dt))
            ctx.emit("step", one(v, 2.0 ** (len(A) // 2)), exc, "hf(%s %s)" % (dt, A.tolist()),
                     (("out", "m", 0, 0, 0), 1), sess=sess, op=op, A=ints(A), w=80)

    def run(M, den=1, dt="complex128"):
        n = M.shape[0]
        v, exc, _ = ctx.call(hf, cast(rng, M, den, dt))
        ctx.emit("hf", one(v, float(2 * den) ** (n // 2)), exc, "hf(%s, %s / %d)" % (dt, M.tolist(), den),
                 (("out", "m", 0, 0, 0), 1) if n > 2 else None, A=ints(M), w=20 + 4 ** (n // 2) * 10)

    for kind in ("sym", "dense", "sparse", "symsparse", "ones1"):
        for n in range(0, 7):
            for dt in ("complex128", "float64", "int64", "int32", "complex64", "float32", "int16", "list"):
                for _ in range(ctx.q(1, 4) if n > 2 else 1):
                    cplx = dt in ("complex128", "complex64", "list")
                    if kind == "symsparse":
                        M = random_int(rng, n, 3, cplx, "dense") * (rng.random((n, n)) < 0.5)
                        M = np.triu(M) + np.triu(M, 1).T
                    elif kind == "ones1":
                        M = np.ones((n, n)) + 0j
                    else:
                        M = random_int(rng, n, 3, cplx, kind)
                    run(M, 1 if dt.startswith("int") else [1, 1, 2, 4][int(rng.integers(0, 4))], dt)
    for n in (2, 4, 6):
        for den in (2 ** 24, 2 ** 30, 2 ** 40):
            run(random_int(rng, n, 2, True, "sym"), den)
        if n < 6:
            run(random_int(rng, n, 900, False, "sym"), 1, "int64")
            run(random_int(rng, n, 900, True, "dense"), 1)
    for n in (7,) + (8,) * ctx.q(3, 10):
        run(random_int(rng, n, 2, n == 8, "sym"), 1)
        run(random_int(rng, n, 1, False, "dense"), 2, "float64")
    M = np.zeros((4, 4), complex)
    M[0, 1], M[2, 3] = 1, 2 ** 22
    run(M + M.T, 2 ** 11, "float64")
    for k in range(ctx.q(40, 200)):                  # not quite symmetric, integer or real
        n = int(rng.choice([2, 4]))
        den = int(rng.choice([256, 1024, 2048]))
        M = np.round(random_int(rng, n, 2, bool(k % 2), ["sym", "dense"][k % 3 == 0])) * den
        M = M + rng.integers(-2, 3, (n, n)) * (rng.random((n, n)) < .5) + 1j * rng.integers(-1, 2, (n, n)) * (k % 5 == 0)
        run(M, den)
