"""C25: casting to density matrices and distributions."""
import os

os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np

from rec import api, fx, ints, lat

MC = [{"module": "M_C25", "expect_states": 2000, "workers": "4"},
      {"module": "M_C25", "cfg": "M_C25_deep.cfg", "tier": "thorough", "workers": "4", "timeout": 850}]
ASSUMPTIONS = ["inputs are exactly normalised (to rounding) or off by more than 1e-4; negative eigenvalues are below -1e-4"]


def ename(exc):
    return exc.split(":")[0] if exc else ""


def res(v, exc, scale, pdf):
    """the outcome of a cast, entries times scale"""
    o = {"exc": ename(exc), "ok": False, "m": [], "real": False}
    if exc == "":
        if pdf:
            if isinstance(v, np.ndarray) and v.ndim == 1:
                o.update(lat(v.reshape(1, -1), scale))
                o["real"] = not np.iscomplexobj(v)
        elif isinstance(v, np.ndarray):
            o.update(lat(v, scale))
        o["exc"] = ""
    return o


def form(rng, v, how=None):
    """a vector as flat array, column, row or list"""
    how = how or ["flat", "col", "row", "list", "collist"][int(rng.integers(0, 5))]
    v = np.asarray(v)
    return {"flat": v, "col": v.reshape(-1, 1), "row": v.reshape(1, -1), "list": v.tolist(), "collist": v.reshape(-1, 1).tolist()}[how]


def pure(rng, d):
    """a Gaussian integer vector whose squared norm is a square -> (v, den)"""
    tri = [([1], 1), ([3, 4], 5), ([1, 2, 2], 3), ([2, 3, 6], 7), ([1, 1, 1, 1], 2), ([1, 1, 3, 5], 6), ([1, 2, 4, 10], 11), ([2, 4, 5, 6], 9), ([5, 12], 13), ([1, 4, 8], 9), ([1, 1, 1, 1, 2, 2, 2], 4)]
    a, den = [t for t in tri if len(t[0]) <= d][int(rng.integers(0, len([t for t in tri if len(t[0]) <= d])))]
    v = np.zeros(d, dtype=complex)
    pos = rng.permutation(d)[:len(a)]
    v[pos] = np.array(a) * np.array([1, 1j, -1, -1j])[rng.integers(0, 4, size=len(a)) if rng.random() < 0.7 else np.zeros(len(a), int)]
    return v, den


def dist(rng, d, sharp=False):
    c = rng.integers(0, 9, size=d)
    if rng.random() < 0.4:
        c = np.where(rng.random(d) < 0.5, 0, c)
    if c.sum() == 0:
        c[int(rng.integers(0, d))] = 1
    return c, int(c.sum())


def mixed(rng, d, r=None):
    r = r or int(rng.integers(1, d + 1))
    A = rng.integers(-2, 3, size=(d, r)) + 1j * rng.integers(-2, 3, size=(d, r))
    if not A.any():
        A[0, 0] = 1
    M = A @ A.conj().T
    return M, int(round(np.trace(M).real))


def drive(ctx):
    rng = ctx.rng
    dm, pdf, plot = api("cast_to_density_matrix"), api("cast_to_pdf"), api("analyze_pdf")
    fs = [("cast_to_density_matrix", dm), ("cast_to_pdf", pdf)]

    # sessions: the model's ensembles
    sc = ctx.scen
    for s, t in enumerate(rng.choice(len(sc), min(len(sc), ctx.q(250, 2000)), replace=False)):
        vs = sc[int(t)]["vs"]
        d = len(vs[0])
        ctx.emit("begin", {"ok": True}, "", "", None, sess=s, d=d, w=5)
        rho, den = np.zeros((d, d), dtype=complex), 0
        for v in vs:
            z = np.array([complex(*x) for x in v])
            n2 = int(round(np.vdot(z, z).real))
            rho, den = rho + np.outer(z, z.conj()), den + n2
            out = {}
            arg = form(rng, z / np.sqrt(n2))
            for name, f, x, sca, p in (("vec", dm, arg, n2, False), ("vecpdf", pdf, arg, n2, True), ("mat", dm, rho / den, den, False), ("matpdf", pdf, rho / den, den, True)):
                r, exc, _ = ctx.call(f, x)
                out[name] = res(r, exc, sca, p)
            can = (("out", ["vec", "vecpdf", "mat", "matpdf"][s % 4], "m", 0, 0, 0), 1) if all(o["ok"] for o in out.values()) else None
            ctx.emit("mix", out, "", "casts of %s and of the mixture %s / %d" % (arg, rho.tolist(), den), can, sess=s, v=v, w=60)

    def vec(v, den, how=None, scale=1.0):
        x = form(rng, v / den if np.any(np.imag(v)) or rng.random() < 0.5 else np.real(v) / den, how)
        keep = np.array(x)
        fn, f = fs[int(rng.integers(0, 2))]
        r, exc, _ = ctx.call(f, x)
        o = res(r, exc, den * den, fn == "cast_to_pdf")
        if not np.array_equal(np.array(x), keep):
            o["ok"] = False
        can = (("out", "m", 0, 0, 0), 1) if o["ok"] else (("out", "exc"), "")
        ctx.emit("vec", o, "", "%s(%r)" % (fn, x), can, fn=fn, v=ints(np.asarray(v).reshape(1, -1))[0], den=den, w=40)

    def mat(M, den, sparse=False):
        fn, f = fs[int(rng.integers(0, 2))]
        x = M / den if np.any(np.imag(M)) or rng.random() < 0.5 else np.real(M) / den
        if rng.random() < 0.2:
            x = x.tolist()
        r, exc, _ = ctx.call(f, x)
        o = res(r, exc, den, fn == "cast_to_pdf")
        can = (("out", "m", 0, 0, 0), 1) if o["ok"] else (("out", "exc"), "")
        ctx.emit("mat", o, "", "%s(%s / %d)" % (fn, M.tolist(), den), can, fn=fn, M=ints(M), den=den, w=60 + 3 ** len(M))

    for _ in range(ctx.q(150, 900)):
        d = int(rng.integers(1, 9))
        v, den = pure(rng, d)
        vec(v, den)
    for _ in range(ctx.q(150, 900)):
        d = int(rng.integers(1, 8))
        c, den = dist(rng, d)
        vec(c + 0j, den)
    for _ in range(ctx.q(100, 600)):             # wrong norms, signs, phases
        d = int(rng.integers(1, 6))
        k = int(rng.integers(0, 5))
        if k == 0:
            v, den = pure(rng, d)
            den += int(rng.choice([-1, 1, 2])) if den > 1 else 1
        elif k == 1:
            c, den = dist(rng, d)
            v, den = c + 0j, den + int(rng.choice([1, 2]))
        elif k == 2:
            c, den = dist(rng, d)
            v = c * np.where(rng.random(d) < 0.5, -1, 1) + 0j
        elif k == 3:
            c, den = dist(rng, d)
            v = c * np.array([1, 1j, -1, -1j])[rng.integers(0, 4, size=d)]
        else:
            v = rng.integers(-3, 4, size=d) + 1j * rng.integers(-3, 4, size=d)
            den = int(rng.integers(1, 8))
        vec(v, den)
    for _ in range(ctx.q(200, 1200)):
        d = int(rng.integers(2, 5))
        M, den = mixed(rng, d)
        k = int(rng.integers(0, 9))
        if k == 0:                                  # not hermitian
            i, j = rng.permutation(d)[:2]
            M[i, j] += int(rng.choice([1, -1]))
        elif k == 1:                                # antihermitian part
            i, j = rng.permutation(d)[:2]
            M[i, j] += 1j
            M[j, i] += 1j
        elif k == 2:
            M[0, 0] += 1                            # trace
        elif k == 3:                                # indefinite
            i, j = rng.permutation(d)[:2]
            b = int(M[i, i].real) + 1
            M[i, i] -= b
            M[j, j] += b
        elif k == 4:                                # large coherence
            i, j = rng.permutation(d)[:2]
            M[i, j] += 30
            M[j, i] += 30
        elif k == 5:
            M[0, 0] += 1j
        mat(M, den)
    for _ in range(ctx.q(60, 400)):                 # just not a state
        k = int(rng.integers(0, 5))
        if k == 0:                                  # an eigenvalue just below zero
            den = int(rng.choice([4000, 2 ** 16, 2 ** 20, 10 ** 6]))
            M = np.diag([den + 1, -1]) + 0j
        elif k == 1:
            den = int(rng.choice([4000, 2 ** 16, 2 ** 20]))
            b = int(np.ceil(np.sqrt(2 * (den - 2)))) + int(rng.integers(0, 2)) + 1
            w = [1, 1j, -1, -1j][int(rng.integers(0, 4))]
            M = np.array([[2, b * w], [b * np.conj(w), den - 2]])
        else:
            d, den = int(rng.integers(2, 5)), 4000
            c = rng.multinomial(den, np.ones(d) / d)
            M = np.diag(c) + 0j
            i, j = rng.permutation(d)[:2]
            M[i, j] += 200
            M[j, i] += 200
            if k == 2:
                M[i, j] += [1, -1, 1j, -1j][int(rng.integers(0, 4))]
            elif k == 3:
                M[i, i] += [1, -1][int(rng.integers(0, 2))]
            else:
                M[i, i] += 1j
        p = rng.permutation(len(M))
        mat(M[np.ix_(p, p)], den)
    for _ in range(ctx.q(40, 200)):                 # states with probabilities down to 1e-7
        den = int(rng.choice([10 ** 6, 2 ** 20, 2 ** 22, 4 * 10 ** 6]))
        a = int(rng.integers(1, 9))
        b = int(rng.integers(0, int(np.sqrt(a * (den - a))) + 1)) if rng.random() < 0.5 else 0
        w = [1, 1j, -1, -1j][int(rng.integers(0, 4))]
        M = np.array([[a, b * w], [b * np.conj(w), den - a]])
        p = rng.permutation(2)
        mat(M[np.ix_(p, p)], den)
    for _ in range(ctx.q(50, 250)):                 # distributions close to a basis vector
        d = int(rng.integers(2, 7))
        den = int(rng.choice([5000, 10 ** 5, 10 ** 6, 2 ** 22, 10 ** 7, 10 ** 8]))
        c = rng.integers(0, 3, size=d)
        i, j = rng.permutation(d)[:2]
        c[j] += 1
        c[i] = 0
        c[i] = den - int(c.sum())
        x = form(rng, c / den)
        fn, f = fs[int(rng.integers(0, 2))]
        r, exc, _ = ctx.call(f, x)
        o = res(r, exc, den, fn == "cast_to_pdf")
        ctx.emit("sharp", o, "", "%s(%s / %d)" % (fn, c.tolist(), den), (("out", "m", 0, 0, 0), 1) if o["ok"] else (("out", "exc"), ""), fn=fn, v=ints(c.reshape(1, -1))[0], den=den, w=40)
    for _ in range(ctx.q(40, 200)):                 # not quite a unit vector
        if rng.random() < .5:
            v, den = pure(rng, int(rng.integers(1, 7)))
        else:
            v, den = dist(rng, int(rng.integers(1, 7)))
            v = v + 0j
        k = max(1, 3000 // den)
        v, den = v * k, den * k
        v[int(np.argmax(np.abs(v)))] *= 1 + 1 / np.abs(v).max()
        vec(np.round(v), den)
    for d in range(2, 5):
        mat(np.eye(d) + 0j, d)
        mat(np.zeros((d, d)) + 0j, 1)
        mat(np.eye(d) + 0j, 1)
        for sh in ((d, d + 1), (d + 1, d), (2, 3), (4, 2)):
            mat(np.ones(sh) + 0j, d)
    mat(np.diag([1, 0, 0]) + 0j, 1)

    # the plot
    import matplotlib.pyplot as plt
    for i in range(ctx.q(60, 300)):
        plt.close("all")
        kind = ["wave", "dist", "mat", "mat", "bad"][i % 5]
        v, M, den = [], [], 1
        d = int(rng.integers(2, 5))
        if kind == "wave":
            v, den = pure(rng, d)
            x = form(rng, v / den)
        elif kind == "dist":
            v, den = dist(rng, d)
            x = form(rng, v / den)
        else:
            M, den = mixed(rng, d)
            if kind == "bad":
                M[0, 0] += [1, 1j][i % 2]
                M[1, 1] -= [1, 0][int(rng.integers(0, 2))] * 40
            x = M / den
        kw = {}
        if rng.random() < 0.5:
            kw["name"] = "state %d" % i
        if rng.random() < 0.5:
            kw["stem"] = bool(rng.integers(0, 2))
        r, exc, _ = ctx.call(plot, x, **kw)
        o = {"exc": ename(exc), "ok": False, "diag": [], "eig": [], "titled": False}
        if exc == "":
            try:
                ax = plt.gca()
                h, lab = ax.get_legend_handles_labels()
                got = {}
                for a, b in zip(h, lab):
                    ln = getattr(a, "markerline", a)
                    got["diag" if "diag" in b else "eig"] = [fx(np.real(y)) for y in ln.get_ydata()]
                    if list(ln.get_xdata()) != list(range(len(ln.get_ydata()))):
                        got = {}
                o["titled"] = kw.get("name", "") in ax.get_title()
                if set(got) == {"diag", "eig"} and None not in got["diag"] + got["eig"]:
                    o.update(ok=True, **got)
            except (AttributeError, TypeError, ValueError):
                pass
        ctx.emit("plot", o, "", "analyze_pdf(%r, %r)" % (x, kw), (("out", "eig", 0), -200000) if o["ok"] and o["eig"] else (("out", "exc"), ""),
                 form="mat" if len(M) else "vec", v=ints(np.asarray(v).reshape(1, -1))[0] if len(v) else [], M=ints(M) if len(M) else [], den=den, w=200)
    plt.close("all")
    for x, want in ((None, "TypeError"), ("abc", "TypeError"), (1.0, "TypeError"), ({"a": 1}, "TypeError"), ((1.0, 0.0), "TypeError"), ([], "ValueError"), (np.zeros(0), "ValueError"), (np.zeros((0, 0)), "ValueError")):
        r, exc, _ = ctx.call(plot, x)
        ctx.emit("refuse", {"type": ename(exc)}, "", "analyze_pdf(%r)" % (x,), (("out", "type"), "x"), want=want, w=3)
