"""C11: random free-fermion rotations."""
import numpy as np

import ff
from rec import fxmat

MC = [{"module": "M_C11", "expect_states": 100, "workers": "3"},
      {"module": "M_C11", "cfg": "M_C11_deep.cfg", "tier": "thorough", "workers": "4"}]
USES_SCEN = False


def drive(ctx):
    rng = ctx.rng
    plan = [(n, s) for n in (1, 2, 3, 4) for s in (0, 1)]
    plan += [(5, int(rng.integers(0, 2 ** 31))) for _ in range(ctx.q(1, 6))]
    for _ in range(ctx.q(40, 500)):
        plan.append((int(rng.choice([1, 2, 3, 4], p=[.2, .4, .3, .1])), int(rng.integers(0, 2 ** 31))))
    for it, (n, seed) in enumerate(plan):
        glob = it % 3 == 2

        def get(**kw):
            if glob:                     # unseeded, from the global generator
                np.random.seed(seed)
                v, exc, _ = ctx.call(ff.random_FF_rotation, n, **kw)
            else:
                v, exc, _ = ctx.call(ff.random_FF_rotation, n, seed=seed, **kw)
            return v, exc
        W, e1 = get()
        C, e2 = get(returnOrb=True)
        G, e3 = get(returnH=True)
        d = 2 ** n
        ctx.emit("rot", {"W": fxmat(W, (d, d), cap=1.1), "C": fxmat(C, (2 * n, 2 * n), cap=1.1),
                         "G": fxmat(G, (d, d), cap=11)}, e1 or e2 or e3,
                 "random_FF_rotation(%d, %s=%d) / returnOrb / returnH" % (n, "global seed" if glob else "seed", seed),
                 (("out", ["W", "C", "G"][it % 3], "m", 0, 0, 0), 30000), n=n, w=10 * 16 ** min(n, 3) + 200 * 4 ** n)
