"""C23: partial traces."""
import numpy as np

from rec import api, ints, lat

MC = [{"module": "M_C23", "expect_states": 3000, "workers": "6"},
      {"module": "M_C23", "cfg": "M_C23_deep.cfg", "tier": "thorough", "workers": "6", "timeout": 850}]
ASSUMPTIONS = ["imaginary parts are zero or well above 1e-8 (smaller ones may be dropped)"]


def drive(ctx):
    rng = ctx.rng
    pairs = [(api("partial_trace_blockTr"), api("partial_trace_diagblocksum")), (api("partial_trace_over_2"), api("partial_trace_over_1"))]

    def both(M, a, b, scale, kw=False):
        last, first = pairs[int(rng.integers(0, 2))]
        keep = M.copy()
        out = {}
        for name, f, d in (("last", last, a), ("first", first, b)):
            d = [d, np.int64(d)][int(rng.integers(0, 2))]
            v, exc, _ = ctx.call(f, M, d)
            out[name] = lat(v, scale, shape=(int(d), int(d)))
            out[name]["exc"] = exc
            if not np.array_equal(M, keep):
                out[name]["ok"] = False
        c = ["last", "first"][int(rng.integers(0, 2))]
        return out, ((("out", c, "m", 0, 0, 0), 1) if out["last"]["ok"] and out["first"]["ok"] else None)

    # sessions: the model's term-by-term constructions
    sc = ctx.scen
    for s, t in enumerate(rng.choice(len(sc), min(len(sc), ctx.q(250, 2500)), replace=False)):
        x = sc[int(t)]
        a, b = x["a"], x["b"]
        ctx.emit("begin", {"ok": True}, "", "", None, sess=s, a=a, b=b, w=5)
        M = np.zeros((a * b, a * b), dtype=complex)
        for i, j, k, l, v in x["ops"]:
            M = M.copy()
            M[(i - 1) * b + k - 1, (j - 1) * b + l - 1] += complex(*v)
            real = np.all(M.imag == 0) and rng.random() < 0.5
            out, can = both(M.real.copy() if real else M, a, b, 1)
            ctx.emit("add", out, "", "partial traces of %s, a=%d b=%d" % (M.tolist(), a, b), can, sess=s, op=[i, j, k, l, v], w=20)

    def matrix(D, kind, den):
        A = rng.integers(-9, 10, size=(D, D)) + 1j * rng.integers(-9, 10, size=(D, D))
        if kind == "herm":
            A = A + A.conj().T
        elif kind == "real":
            A = A.real + 0j
        elif kind == "imagdiag":                    # imaginary only where one trace sees it
            A = A.real + 1j * np.diag(np.diag(A.imag))
        elif kind == "offimag":
            A = A.real + 1j * np.triu(A.imag, 1)
        elif kind == "sparse":
            A = np.where(rng.random((D, D)) < 0.3, A, 0)
        elif kind == "state":
            v = rng.integers(-2, 3, size=(D, 2)) + 1j * rng.integers(-2, 3, size=(D, 2))
            A = v @ v.conj().T
        return A

    kinds = ["dense", "herm", "real", "imagdiag", "offimag", "sparse", "state"]
    dims = [(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (3, 4), (4, 3), (2, 6), (6, 2), (5, 2), (2, 5), (8, 2), (2, 8), (4, 4), (5, 3), (3, 5), (1, 7), (7, 1)]
    for a, b in dims:
        for kind in kinds:
            for _ in range(ctx.q(2, 10)):
                den = int(rng.choice([1, 1, 2, 16, 2 ** 20]))
                A = matrix(a * b, kind, den)
                X = A
                dt = "complex128"
                if np.all(A.imag == 0):
                    dt = ["complex128", "float64", "int64", "float32"][int(rng.integers(0, 4))]
                    X = A if dt == "complex128" else A.real.astype(dt)
                elif rng.random() < 0.15:
                    dt = "complex64"
                    X = A.astype(dt)
                if dt.startswith("int"):
                    den = 1
                if den == 2 ** 20 and kind in ("imagdiag", "offimag", "sparse"):
                    den = 16
                if den > 1:
                    X = X / X.dtype.type(den)
                if rng.random() < 0.2:
                    X = np.asfortranarray(X)
                elif rng.random() < 0.2:
                    X = np.ascontiguousarray(X.T).T
                out, can = both(X, a, b, den)
                ctx.emit("mat", out, "", "partial traces of %s/%d (%s, %s), a=%d b=%d" % (A.tolist() if a * b < 7 else "<%s>" % kind, den, kind, dt, a, b), can,
                         a=a, b=b, M=ints(A), w=30 + 2 * (a * b) ** 2)
    for a, b, c in ((2, 2, 2), (2, 3, 2), (3, 2, 2), (2, 2, 3), (1, 3, 2), (2, 3, 1)):
        for _ in range(ctx.q(4, 20)):
            A = matrix(a * b * c, kinds[int(rng.integers(0, 7))], 1)
            last, first = pairs[int(rng.integers(0, 2))]
            out = {}
            for name in ("last", "first"):
                if name == "last":
                    u, e1, _ = ctx.call(first, A, b * c)
                    v, e2, _ = ctx.call(last, u, b)
                else:
                    u, e1, _ = ctx.call(last, A, a * b)
                    v, e2, _ = ctx.call(first, u, b)
                out[name] = lat(v, shape=(b, b))
                out[name]["exc"] = e1 or e2
            ctx.emit("chain", out, "", "middle factor of a %dx%dx%d operator" % (a, b, c),
                     (("out", "last", "m", 0, 0, 0), 1) if out["last"]["ok"] and out["first"]["ok"] else None, a=a, b=b, c=c, M=ints(A), w=500)
    for D in range(1, 13):
        for d in range(1, 16):
            if D % d:
                for f in pairs[int(rng.integers(0, 2))]:
                    v, exc, _ = ctx.call(f, np.eye(D) + 0j, d)
                    ctx.emit("refuse", {"type": exc.split(":")[0] if exc else "none"}, "", "%s(eye(%d), %d)" % (f.__name__, D, d), (("out", "type"), "x"), fn=f.__name__, w=3)
