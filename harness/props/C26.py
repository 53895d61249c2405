"""C26: stabilizer distribution, stabilizer entropy."""
import numpy as np

from props.C25 import ename, form
from rec import api, fx, ints

MC = [{"module": "M_C26", "expect_states": 600, "workers": "6"},
      {"module": "M_C26", "cfg": "M_C26_deep.cfg", "tier": "thorough", "workers": "6", "timeout": 850},
      {"module": "M_C26", "cfg": "M_C26_three.cfg", "tier": "thorough", "workers": "4", "timeout": 850}]
ASSUMPTIONS = ["orders of the entropy are at least 1/2 (rounding noise in vanishing entries is not resolved below)"]
ORDERS = [8, 12, 16, 20, 24, 32, 48, 64, 80, -1]


def gate(n, v, g):
    def bit(b, q):
        return (b >> (n - q)) & 1
    w = v.copy()
    for b in range(2 ** n):
        q = g[1]
        f = b ^ (1 << (n - q))
        if g[0] == "h":
            w[b] = v[b] + v[f] if bit(b, q) == 0 else v[f] - v[b]
        elif g[0] == "s":
            w[b] = 1j * v[b] if bit(b, q) else v[b]
        elif g[0] == "x":
            w[b] = v[f]
        elif g[0] == "cx":
            w[b] = v[b ^ (1 << (n - g[2]))] if bit(b, q) else v[b]
        else:
            w[b] = (3 + 4j) * v[b] if bit(b, q) else 5 * v[b]
    return w


def drive(ctx):
    rng = ctx.rng
    sd, sre = api("stabilizer_distribution"), api("SRE")

    def alpha(u):
        if u == -1:
            return [np.inf, float("inf")][int(rng.integers(0, 2))]
        a = u / 16
        return int(a) if a == int(a) and rng.random() < 0.6 else a

    def observe(x, n):
        v, exc, _ = ctx.call(sd, x)
        o = {"exc": ename(exc), "ok": False, "x": []}
        try:
            xs = [fx(t) for t in np.asarray(v)] if exc == "" and not np.iscomplexobj(v) else []
            if len(xs) == 4 ** n and None not in xs:
                o.update(ok=True, x=xs)
        except (TypeError, ValueError):
            pass
        out = {"xi": o, "sre": []}
        for k in range(2):
            u = ORDERS[int(rng.integers(0, len(ORDERS)))]
            if u == 32 and rng.random() < 0.4:
                v, exc, _ = ctx.call(sre, x)
            else:
                v, exc, _ = ctx.call(sre, x, alpha(u)) if rng.random() < 0.5 else ctx.call(sre, x, a=alpha(u))
            r = {"u": u, "exc": ename(exc), "ok": False, "x": 0}
            try:
                if exc == "" and not np.iscomplexobj(v) and fx(v) is not None:
                    r.update(ok=True, x=fx(v))
            except (TypeError, ValueError):
                pass
            out["sre"].append(r)
        ok = o["ok"] and all(r["ok"] for r in out["sre"])
        can = None
        if ok:
            can = (("out", "xi", "x", int(rng.integers(0, 4 ** n))), 5000) if rng.random() < 0.5 else (("out", "sre", int(rng.integers(0, 2)), "x"), 30000)
        return out, can

    sc = ctx.scen
    for s, t in enumerate(rng.choice(len(sc), min(len(sc), ctx.q(90, 600)), replace=False)):
        x = sc[int(t)]
        n = x["n"]
        ctx.emit("begin", {"ok": True}, "", "", None, sess=s, n=n, w=5)
        v = np.zeros(2 ** n, dtype=complex)
        v[0] = 1
        for g in x["ops"]:
            v = gate(n, v, g)
            w = v / np.linalg.norm(v)
            arg = form(rng, w) if rng.random() < 0.7 else np.outer(w, w.conj())
            out, can = observe(arg, n)
            ctx.emit("gate", out, "", "stabilizer_distribution / SRE after %s" % (x["ops"],), can, sess=s, g=g, w=4000 * 4 ** n)

    def vec(n, v):
        v = np.asarray(v, dtype=complex)
        if not v.any():
            v[0] = 1
        n2 = int(round(np.vdot(v, v).real))
        w = v / np.sqrt(n2)
        arg = form(rng, w) if rng.random() < 0.6 else np.outer(w, w.conj())
        out, can = observe(arg, n)
        ctx.emit("vec", out, "", "stabilizer_distribution / SRE of %s / sqrt(%d)" % (v.tolist(), n2), can, n=n, v=ints(v.reshape(1, -1))[0], w=3000 * 4 ** n * 2 ** n)

    def mat(n, M):
        tr = int(round(np.trace(M).real))
        out, can = observe(M / tr if rng.random() < 0.5 or np.any(M.imag) else M.real / tr, n)
        ctx.emit("mat", out, "", "stabilizer_distribution / SRE of %s / %d" % (M.tolist() if n < 3 else "<n=3>", tr), can, n=n, M=ints(M), w=3000 * 4 ** n * 2 ** n)

    for n, reps in ((1, ctx.q(40, 200)), (2, ctx.q(40, 200)), (3, ctx.q(12, 60))):
        d = 2 ** n
        for k in range(reps):
            kind = k % 6
            if kind == 0:
                vec(n, rng.integers(-2, 3, size=d) + 1j * rng.integers(-2, 3, size=d))
            elif kind == 1:
                v = np.zeros(d, dtype=complex)
                v[rng.permutation(d)[:2]] = [1, [1, 1j, -1, 1 + 1j, 2][int(rng.integers(0, 5))]]
                vec(n, v)
            elif kind == 2:                              # product
                v = np.ones(1)
                for _ in range(n):
                    v = np.kron(v, [(1, 0), (0, 1), (1, 1), (1, -1j), (1, 1 + 1j), (2, 1), (1, 2j)][int(rng.integers(0, 7))])
                vec(n, v)
            elif kind == 3:
                A = rng.integers(-2, 3, size=(d, 2)) + 1j * rng.integers(-2, 3, size=(d, 2))
                if not A.any():
                    A[0, 0] = 1
                mat(n, A @ A.conj().T)
            elif kind == 4:                              # diagonal and nearly mixed
                mat(n, np.diag(rng.integers(1, 5, size=d)) + 0j)
            else:                                        # thermal: identity plus a small coherence
                M = 5 * np.eye(d) + 0j
                i, j = rng.permutation(d)[:2]
                M[i, j] += 2 - 1j
                M[j, i] += 2 + 1j
                mat(n, M)
        for _ in range(ctx.q(10, 50) if n < 3 else 0):   # small expectation values
            k = int(rng.integers(60, 2000))
            M = k * np.eye(d) + 0j
            i, j = rng.permutation(d)[:2]
            a, b = [int(t) for t in rng.integers(-2, 3, size=2)]
            M[i, j], M[j, i] = a + 1j * b, a - 1j * b
            if rng.random() < 0.5:
                M[i, i] += int(rng.integers(1, 3))
            mat(n, M)
        for m in (1, 2, 3, 7):
            mat(n, m * np.eye(d) + 0j)                   # completely mixed
    for n, reps in ((4, ctx.q(8, 30)), (5, ctx.q(2, 6))):    # larger registers
        d = 2 ** n
        for k in range(reps):
            if k % 4 == 0:
                vec(n, rng.integers(-1, 2, size=d) + 1j * rng.integers(-1, 2, size=d))
            elif k % 4 == 1:
                v = np.ones(1)
                for _ in range(n):
                    v = np.kron(v, [(1, 0), (0, 1), (1, 1), (1, -1j), (1, 1 + 1j), (2, 1), (1, 2j)][int(rng.integers(0, 7))])
                vec(n, v)
            elif k % 4 == 2:
                v = np.zeros(d, dtype=complex)
                v[rng.permutation(d)[:4]] = [1, 1j, -1, 2]
                vec(n, v)
            else:
                M = np.diag(rng.integers(0, 3, size=d)) + 0j
                i, j = rng.permutation(d)[:2]
                M[i, i] += 3
                M[j, j] += 3
                M[i, j] += 1 + 2j
                M[j, i] += 1 - 2j
                mat(n, M)
    for x in (np.array([1.0, 1.0]), np.diag([0.5, 0.6]), np.diag([1.5, -0.5]), np.array([[0.5, 1], [0, 0.5]]), np.ones((2, 3)) / 6):
        for f in (sd, sre):
            v, exc, _ = ctx.call(f, x)
            ctx.emit("refuse", {"type": ename(exc)}, "", "%s(%r)" % (f.__name__, x), (("out", "type"), "x"), fn=f.__name__, w=5)
