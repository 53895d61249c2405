"""C17: permanent and determinants."""
import numpy as np

from props.C15 import cast, one, random_int
from rec import api, ints

MC = [{"module": "M_C17", "expect_states": 2000, "workers": "4"},
      {"module": "M_C17", "cfg": "M_C17_deep.cfg", "tier": "thorough", "workers": "4", "timeout": 850}]
ASSUMPTIONS = ["integer matrices are small enough that products of entries fit their dtype (NumPy integer arithmetic wraps)"]


def step(A, op):
    name, i, j, k = op[0], op[1] - 1, op[2] - 1, complex(op[3], op[4])
    if name == "start":
        return np.eye(op[1], dtype=complex)
    A = A.copy()
    if name == "rswap":
        A[[i, j]] = A[[j, i]]
    elif name == "cswap":
        A[:, [i, j]] = A[:, [j, i]]
    elif name == "radd":
        A[j] += k * A[i]
    elif name == "rmul":
        A[i] *= k
    else:
        A = A.T.copy()
    return A


def drive(ctx):
    rng = ctx.rng
    fs = ("pt", "dt", "dt_eigen")
    nth = [0]

    def observe(M, den, dt):
        out = {}
        for f in fs:
            # dt_eigen takes arrays; its eigenvalues are judged in double precision
            d = "complex128" if f == "dt_eigen" and dt in ("list", "complex64", "float32") else dt
            v, exc, _ = ctx.call(api(f), cast(rng, M, den, d))
            out[f] = one(v, float(den) ** len(M))
            out[f]["exc"] = exc
        nth[0] += 1
        f = fs[nth[0] % 3]
        return out, ((("out", f, "m", 0, 0, 0), 1) if all(out[f]["ok"] for f in fs) else None)

    sc = ctx.scen
    sess = 0
    for t in rng.choice(len(sc), min(len(sc), ctx.q(250, 2500)), replace=False):
        sess += 1
        ctx.emit("begin", {"ok": True}, "", "", None, sess=sess, w=5)
        A = None
        for op in sc[int(t)]["ops"]:
            A = step(A, op)
            isre = np.all(A.imag == 0)
            dt = ["complex128", "float64", "int64"][int(rng.integers(0, 3))] if isre else "complex128"
            out, can = observe(A, 1, dt)
            ctx.emit("step", out, "", "pt/dt/dt_eigen(%s %s)" % (dt, A.tolist()), can, sess=sess, op=op, A=ints(A), w=120)

    def run(M, den=1, dt="complex128"):
        out, can = observe(M, den, dt)
        ctx.emit("mat", out, "", "pt/dt/dt_eigen(%s, %s / %d)" % (dt, M.tolist(), den), can, A=ints(M), w=50 + 5 ** len(M))

    for kind in ("dense", "sparse", "sym", "skew", "singular", "nilpotent", "jordan", "ones", "perm"):
        for n in range(0, 6):
            for dt in ("complex128", "float64", "int64", "int32", "complex64", "float32", "list"):
                for _ in range(ctx.q(1, 4) if n > 1 else 1):
                    cplx = dt in ("complex128", "complex64", "list")
                    den = 1 if dt.startswith("int") else [1, 1, 2, 4][int(rng.integers(0, 4))]
                    if kind == "singular":
                        M = random_int(rng, n, 3, cplx, "dense")
                        if n > 1:
                            M[-1] = M[0]
                    elif kind == "nilpotent":
                        M = np.triu(random_int(rng, n, 3, cplx, "dense"), 1)
                    elif kind == "jordan":
                        M = np.eye(n, k=1) + int(rng.integers(-2, 3)) * np.eye(n) + 0j
                    elif kind == "ones":
                        M = np.ones((n, n)) + 0j
                    elif kind == "perm":
                        M = np.eye(n)[rng.permutation(n)] + 0j
                    else:
                        M = random_int(rng, n, 3, cplx, kind)
                    run(M, den, dt)
    for n in (2, 3, 4):
        for den in (2 ** 24, 2 ** 40):
            run(random_int(rng, n, 2, True, "dense"), den)
        run(random_int(rng, n, 60, False, "dense"), 1, "int64")
    for _ in range(ctx.q(4, 20)):
        run(random_int(rng, 6, 2, True, "dense"), 1)
        run(random_int(rng, 6, 2, False, "sparse"), 2, "float64")
    run(random_int(rng, 7, 1, False, "dense"), 1, "int64")
    M = np.diag([1, 2 ** 10, 1, 2 ** 10]) + 0j
    run(M, 2 ** 5, "float64")
    for sh in ((2, 3), (3, 2), (1, 4), (0, 2)):
        v, exc, _ = ctx.call(api("dt_eigen"), rng.normal(size=sh))
        ctx.emit("refuse", {"none": v is None}, exc, "dt_eigen(shape %s)" % (sh,), (("out", "none"), False), fn="dt_eigen", w=10)
