"""C27: Renyi and linear entropies."""
import numpy as np

from props.C25 import dist, ename, form, mixed, pure
from rec import api, fx, ints

MC = [{"module": "M_C27", "expect_states": 100, "workers": "6"},
      {"module": "M_C27", "cfg": "M_C27_deep.cfg", "tier": "thorough", "workers": "6", "timeout": 850}]
ASSUMPTIONS = ["distributions are within 1e-12 of a basis vector or have 1 - p_max >= 1e-8"]
# orders in units of 1/4096, -1 for infinity
ORDERS = [0, 0, 1, 3, 17, 64, 256, 512, 1024, 2048, 3072, 3584, 3900, 3968, 4000, 4050, 4086, 4091, 4094, 4095, 4096, 4096, 4096,
          4097, 4098, 4101, 4106, 4140, 4190, 4224, 4300, 4608, 5120, 6144, 8192, 8192, 8193, 10240, 12288, 16384, 20480, 40960,
          81920, 409600, -1, -1]


def scalar(v, exc):
    r = {"exc": ename(exc), "ok": False, "x": 0, "inf": False}
    try:
        if exc == "" and not np.iscomplexobj(v) and np.ndim(v) == 0:
            r["inf"] = bool(v == np.inf)
            if fx(v) is not None:
                r.update(ok=True, x=fx(v))
    except (TypeError, ValueError):
        pass
    return r


def argument(rng, n, flat=False, tiny=False):
    """-> (specification record, argument)"""
    k = int(rng.integers(0, 8 if tiny else 5))
    if flat:
        k = 0
    blank = {"form": "dist", "c": [], "v": [], "M": []}
    if k == 5 and n >= 3:                       # probabilities down to 1e-8
        c = rng.integers(1, 60, size=n)
        c = np.where(rng.random(n) < 0.3, 0, c)
        for i in rng.choice(n, 2, replace=False):
            c[i] = int(rng.integers(2 ** 22, 2 ** 25))
        return dict(blank, c=[int(x) for x in c]), form(rng, c / int(c.sum()))
    if k == 6 and n >= 2:                       # amplitudes down to 1e-4
        v = rng.integers(-1, 2, size=n) + 1j * rng.integers(-1, 2, size=n)
        v[int(rng.integers(0, n))] = int(rng.integers(1000, 5000)) + 1j * int(rng.integers(-5000, 5000))
        return dict(blank, form="wave", v=ints(v.reshape(1, -1))[0]), form(rng, v / np.linalg.norm(v))
    if tiny and rng.random() < 0.15:            # nearly flat on its support
        b = int(rng.integers(40, 4000))
        c = b + rng.integers(-3, 4, size=n) * int(rng.integers(1, max(2, b // int(rng.choice([60, 300, 1000])))))
        c = np.where((rng.random(n) < 0.3) & (np.arange(n) > 0), 0, c)
        return dict(blank, c=[int(x) for x in c]), form(rng, c / int(c.sum()))
    if k == 7 and n >= 2:                       # close to a basis vector
        c = rng.integers(0, 3, size=n)
        i, j = rng.permutation(n)[:2]
        c[j] += 1
        c[i] = int(2 ** rng.uniform(8, 26))
        return dict(blank, c=[int(x) for x in c]), form(rng, c / int(c.sum()))
    if k <= 2 or k >= 5:
        c, den = dist(rng, n)
        if rng.random() < 0.2:
            c = c * int(rng.integers(1, 40)) + rng.integers(0, 3, size=n)
            den = int(c.sum())
        if den == 0:
            c[0], den = 1, 1
        return dict(blank, c=[int(x) for x in c]), form(rng, c / den)
    if k == 3:
        v = rng.integers(-3, 4, size=n) + 1j * rng.integers(-3, 4, size=n)
        v = np.where(rng.random(n) < 0.3, 0, v)
        if not v.any():
            v[0] = 1j
        if n >= 3 and rng.random() < 0.3:       # amplitudes adding up to one
            t = [(2, 2, -1), (6, 3, -2), (1, 1, 1, -1)][int(rng.integers(0, 3 if n > 3 else 2))]
            v = np.zeros(n, complex)
            v[rng.choice(n, len(t), replace=False)] = t
        return dict(blank, form="wave", v=ints(v.reshape(1, -1))[0]), form(rng, v / np.linalg.norm(v))
    if n < 2:
        return argument(rng, n, True)
    M, den = mixed(rng, n)
    return dict(blank, form="mat", M=ints(M)), M / den


def alpha(rng, u):
    if u == -1:
        return [np.inf, float("inf")][int(rng.integers(0, 2))]
    a = u / 4096
    return int(a) if a == int(a) and rng.random() < 0.6 else a


def drive(ctx):
    rng = ctx.rng
    ren, lin = api("renyi_entropy"), api("linear_entropy")

    def orders(x, k):
        out = []
        for t in rng.choice(len(ORDERS), k, replace=False):
            u = ORDERS[int(t)]
            v, exc, _ = ctx.call(ren, x, alpha(rng, u))
            out.append(dict(scalar(v, exc), u=u))
        can = (("out", int(rng.integers(0, k)), "x"), 200000) if all(r["ok"] for r in out) else None
        return out, can

    sc = ctx.scen
    for s, t in enumerate(rng.choice(len(sc), min(len(sc), ctx.q(60, 130)), replace=False)):
        c = sc[int(t)]["c"]
        n = len(c)
        ctx.emit("begin", {"ok": True}, "", "", None, sess=s, n=n, w=5)
        seq = [i for i in range(n) for _ in range(c[i])]
        rng.shuffle(seq)
        cur = np.zeros(n)
        for i in seq:
            cur[i] += 1
            out, can = orders(cur / cur.sum(), 3)
            ctx.emit("fill", out, "", "renyi_entropy(%s / %d, ...)" % (cur.tolist(), cur.sum()), can, sess=s, i=i + 1, w=800)
    for k in range(ctx.q(240, 1800)):
        n = int(rng.integers(1, 9)) if k % 5 else int(rng.integers(9, 40))
        a, x = argument(rng, n, tiny=True)
        out, can = orders(x, 4)
        ctx.emit("renyi", out, "", "renyi_entropy(%r, orders/4096 %s)" % (x, [r["u"] for r in out]), can, w=200 * n, **a)
    for n in list(range(1, 18)) + [25, 36]:
        for _ in range(ctx.q(6, 30)):
            a, x = argument(rng, n)
            v, exc, _ = ctx.call(lin, x)
            o = scalar(v, exc)
            r = int(round(n ** 0.5))
            ctx.emit("linear", o, "", "linear_entropy(%r)" % (x,), (("out", "x"), 3000) if o["ok"] else (("out", "exc"), "") if exc else None,
                     fn="square" if r * r == n else "other", w=100, **a)
    for x in (np.array([0.5, 0.6]), np.array([0.7, 0.7]), np.array([2.0, -1.0]), np.array([0.6, -0.4]), np.zeros(4), np.diag([0.5, 0.6])):
        for f, args in ((ren, (x, 2)), (ren, (x, 1)), (lin, (x,))):
            v, exc, _ = ctx.call(f, *args)
            ctx.emit("refuse", {"type": ename(exc)}, "", "%s(%r)" % (f.__name__, args), (("out", "type"), "x"), fn=f.__name__, w=5)
