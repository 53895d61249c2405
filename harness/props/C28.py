"""C28: classical distances and divergences."""
import numpy as np

from props.C25 import ename
from props.C27 import argument, scalar
from rec import api

MC = [{"module": "M_C28", "expect_states": 1000, "workers": "4"},
      {"module": "M_C28", "cfg": "M_C28_deep.cfg", "tier": "thorough", "workers": "6", "timeout": 850}]
ASSUMPTIONS = ["a distribution within 1e-5 of a basis vector may be read as a wavefunction"]


def drive(ctx):
    rng = ctx.rng
    fs = {"tv": api("total_variation_distance"), "bc": api("bhattacharyya_coeff"), "kl": api("relative_entropy"), "js": api("jensen_shannon_divergence")}

    def observe(x, y):
        out = {}
        for k, f in fs.items():
            v, exc, _ = ctx.call(f, x, y)
            out[k] = scalar(v, exc)
        k = ["tv", "bc", "kl", "js"][int(rng.integers(0, 4))]
        if not out[k]["ok"]:
            k = "tv"
        return out, (("out", k, "x"), 20000) if out[k]["ok"] else None

    sc = ctx.scen
    for s, t in enumerate(rng.choice(len(sc), min(len(sc), ctx.q(120, 400)), replace=False)):
        c, e = sc[int(t)]["c"], sc[int(t)]["e"]
        ctx.emit("begin", {"ok": True}, "", "", None, sess=s, c=c, w=5)
        seq = [i for i in range(len(e)) for _ in range(e[i])]
        rng.shuffle(seq)
        cur = np.zeros(len(e))
        for i in seq:
            cur[i] += 1
            out, can = observe(np.array(c) / sum(c), cur / cur.sum())
            ctx.emit("fill", out, "", "distances of %s / %d and %s / %d" % (c, sum(c), cur.tolist(), cur.sum()), can, sess=s, i=i + 1, w=500)
    for k in range(ctx.q(330, 2800)):
        n = int(rng.integers(1, 9)) if k % 6 else int(rng.integers(9, 25))
        (a, x), (b, y) = argument(rng, n), argument(rng, n)
        if k % 9 == 0:
            b, y = a, x
        elif k % 9 == 1 and n > 1:                    # same support / nested support
            ca = np.array([1 + int(rng.integers(0, 9)) for _ in range(n)])
            cb = ca * (rng.random(n) < 0.5)
            if cb.sum():
                a, x = dict(a, form="dist", c=[int(t) for t in ca]), ca / ca.sum()
                b, y = dict(b, form="dist", c=[int(t) for t in cb]), cb / cb.sum()
                if rng.random() < 0.5:
                    a, b, x, y = b, a, y, x
        elif k % 9 == 2 and n > 1:                    # tiny entries
            ca, cb = np.ones(n, int), np.ones(n, int)
            ca[0], cb[-1] = 3000, 2000
            if rng.random() < 0.5:                    # close to a basis vector
                ca[0] = int(2 ** rng.uniform(8, 19))
                cb = rng.integers(0, 4, size=n)
                cb[int(rng.integers(0, n))] += 1
                if rng.random() < 0.5 and ca[0] < 5000:
                    cb[int(rng.integers(0, n))] = int(2 ** rng.uniform(8, 12))
            a, x = dict(a, form="dist", c=[int(t) for t in ca]), ca / ca.sum()
            b, y = dict(b, form="dist", c=[int(t) for t in cb]), cb / cb.sum()
        elif k % 9 == 3 and n > 1:                    # close to each other
            ca = rng.integers(100, max(101, min(800, 5000 // n)), size=n)
            cb = ca + rng.integers(-3, 4, size=n) * int(rng.integers(1, 5))
            a, x = dict(a, form="dist", c=[int(t) for t in ca]), ca / ca.sum()
            b, y = dict(b, form="dist", c=[int(t) for t in cb]), cb / cb.sum()
        out, can = observe(x, y)
        ctx.emit("pair", out, "", "distances of %r and %r" % (x, y), can, p=a, r=b, w=100 * n)
    good = np.array([0.25, 0.75])
    for x in (np.array([0.5, 0.6]), np.array([0.7, 0.8]), np.array([0.6, -0.4]), np.zeros(2), np.diag([0.5, 0.6])):
        for f in fs.values():
            for args in ((x, good), (good, x)):
                v, exc, _ = ctx.call(f, *args)
                ctx.emit("refuse", {"type": ename(exc)}, "", "%s(%r)" % (f.__name__, args), (("out", "type"), "x"), fn=f.__name__, w=5)
