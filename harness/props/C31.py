"""C31: orthonormal completions and paths between vectors."""
import numpy as np

from props.C25 import ename
from rec import api, fxmat, ints

MC = [{"module": "M_C31", "expect_states": 700, "workers": "2"},
      {"module": "M_C31", "cfg": "M_C31_two.cfg", "expect_states": 700, "workers": "2"},
      {"module": "M_C31", "cfg": "M_C31_deep.cfg", "tier": "thorough", "workers": "4", "timeout": 880}]
ASSUMPTIONS = ["vectors are zero or longer than 1e-3", "the straight line is not asked for its vanishing midpoint between opposite vectors"]


def drive(ctx):
    rng = ctx.rng
    orth, up, lp = api("get_orthogonal_vectors"), api("build_unitary_path"), api("build_linear_path")

    def enc(v):
        return ints(np.asarray(v, complex).reshape(1, -1))[0]

    def arg(v):
        """some multiple of v, flat or column, with its natural dtype"""
        v = np.array(v)
        if not np.iscomplexobj(v) or not np.any(v.imag):
            v = np.real(v)
            if rng.random() < 0.3:
                v = v.astype(int)
        if rng.random() < 0.6 and np.any(v):
            v = v * [1 / np.linalg.norm(v), 0.37, 12.5, 2e-3 + 0.0][int(rng.integers(0, 4))]
        if rng.random() < 0.5:
            v = v.reshape(-1, 1)
        return v.tolist() if rng.random() < 0.1 else v

    def vec(d):
        t = int(rng.integers(0, 6))
        if t == 0:
            v = np.zeros(d, complex)
            v[int(rng.integers(0, d))] = [1, -1, 1j, 3][int(rng.integers(0, 4))]
            return v
        v = rng.integers(-4, 5, size=d) + (1j * rng.integers(-4, 5, size=d) if t >= 3 else 0)
        if rng.random() < .1:                           # nearly real or nearly imaginary
            v = rng.integers(-2, 3, size=d) * (1000 if d < 9 else 500) + 1j * rng.integers(-2, 3, size=d)
            return (v if v.any() else v + 1000 + 1j) * (1 if t % 2 else 1j)
        if t in (2, 5):
            v = np.where(rng.random(d) < 0.5, 0, v)
        if not v.any():
            v[int(rng.integers(0, d))] = 2
        return v.astype(complex)

    def basis(v):
        x = arg(v)
        r, exc, _ = ctx.call(orth, x)
        o = {"exc": ename(exc), "ok": False, "m": [], "size": -1}
        d = len(v)
        if exc == "":
            o["size"] = int(np.size(r))
            if d >= 2:
                o.update(fxmat(r, (d, d)))
        can = (("out", "m", int(rng.integers(0, d)), 0, 0), 4000) if o["ok"] else (("out", "size"), 1) if d < 2 else None
        ctx.emit("basis", o, "", "get_orthogonal_vectors(%r)" % (x,), can, fn="none" if d < 2 else "zero" if not np.any(v) else "vector", v=enc(v), w=40 + 4 * d ** 3)

    for d in range(1, 4):
        for t in range(5 ** d if d < 3 else 60):
            v = [(t // 5 ** i) % 5 - 2 if d < 3 else int(rng.integers(-2, 3)) for i in range(d)]
            basis(np.array(v, complex))
    for _ in range(ctx.q(150, 1000)):
        basis(vec(int(rng.integers(1, 9 if rng.random() < .9 else 41))))
    for d in range(2, 7):
        basis(np.zeros(d, complex))

    sess = 0

    def opposite(a, b):
        return np.allclose(a / np.linalg.norm(a), -b / np.linalg.norm(b))

    def session(pairs, nt):
        nonlocal sess
        sess += 1
        ctx.emit("begin", {"ok": True}, "", "", None, sess=sess, w=2)
        paths = []
        for a, b in pairs:
            for fn, f in (("unitary", up), ("linear", lp)):
                x, y = arg(a), arg(b)
                r, exc, _ = ctx.call(f, x, y, _forms=sess % 2 == 0)
                ctx.emit("open", {"exc": ename(exc)}, "", "build_%s_path(%r, %r)" % (fn, x, y), None, sess=sess, fn=fn, a=enc(a), b=enc(b), w=20)
                paths.append((r, fn, a, b, "%r, %r" % (x, y)))
                if isinstance(x, np.ndarray) and x.dtype.kind != "i":      # the path has been built
                    x *= 0
                if isinstance(y, np.ndarray) and y.dtype.kind != "i":
                    y *= 0
        for i in range(nt * len(paths)):
            k = int(rng.integers(0, len(paths))) if i >= 2 * len(paths) else i % len(paths)
            r, fn, a, b, c = paths[k]
            u = [0, 16][i // len(paths)] if i < 2 * len(paths) else int(rng.choice([0, 16, 8, 4, 12, 2, 6, 14, 1, 11, 7]))
            if fn == "linear" and u == 8 and opposite(a, b):
                u = 5
            v, exc, _ = ctx.call(r, u / 16)
            o = {"exc": ename(exc), "ok": False, "m": []}
            d = len(a)
            if exc == "":
                o.update(fxmat(v, (d, 1)))
                if isinstance(v, np.ndarray) and v.flags.writeable:     # results belong to the caller
                    v *= 0
            can = (("out", "m", int(rng.integers(0, d)), 0, 0), 500000) if o["ok"] else None
            ctx.emit("at", o, "", "build_%s_path(%s)(%s)" % (fn, c, u / 16), can, sess=sess, fn=fn, p=k + 1, u=u, w=60 + 20 * d)

    sc = ctx.scen
    for t in rng.choice(len(sc), min(len(sc), ctx.q(60, 400)), replace=False):
        session([tuple(np.array([complex(*z) for z in sc[int(t)][q]]) for q in "wv")], 7)
    for k in range(ctx.q(80, 500)):
        d = int(rng.integers(2, 8)) if k % 8 else int(rng.integers(8, 17)) if k % 16 else int(rng.integers(17, 34))
        ps = []
        for q in range(1 + k % 2):
            a, b = vec(d), vec(d)
            t = int(rng.integers(0, 7))
            if t == 0:
                b = a * ([1, 2][q] if np.abs(a).max() < 1000 else 1)
            elif t == 1:
                b = -a
            elif t == 2:
                b = a * 1j
            elif t == 3:
                b = vec(d)
                b[: d // 2] = 0
                a[d // 2:] = 0
                if not a.any():
                    a[0] = 1
                if not b.any():
                    b[-1] = 1
            elif t == 4 and np.abs(a).max() < 10:       # nearly opposite or nearly equal
                b = np.where(np.arange(d) == int(rng.integers(0, d)), 1j, 0) + 40 * a * [1, -1][k % 2]
            ps.append((a, b))
        session(ps, 6)
