"""C02: Majorana operators and the basis-change matrices Omega, K, reordering."""
import numpy as np

import ff
import ff.ff_lib as L
from rec import lat, sparse, sparse_list

MC = [{"module": "M_C02", "expect_states": 500},
      {"module": "M_C02", "cfg": "M_C02_deep.cfg", "tier": "thorough"}]
R2 = np.sqrt(2)


def drive(ctx):
    sizes = list(range(1, ctx.q(8, 9) + 1))
    ctx.rng.shuffle(sizes)
    for n in sizes + [int(x) for x in ctx.rng.choice(np.arange(9, 21), ctx.q(4, 12), replace=False)]:
        n = int(n)
        out = {"ok": False}
        if n <= 9:
            ops, exc, _ = ctx.call(ff.jordan_wigner_majoranas, n)
            out = sparse_list(ops, R2) if not exc else {"ok": False, "ops": []}
            ctx.emit("majoranas", out, exc, "jordan_wigner_majoranas(%d)" % n,
                     (("out", "ops", 0, "nz", 0, 2), -2), n=n)
        om, exc2, _ = ctx.call(L.build_Omega, n)
        oml = lat(om, R2, shape=(2 * n, 2 * n))
        ctx.emit("omega", oml, exc2, "build_Omega(%d)" % n, (("out", "m", 0, 0, 1), 1), n=n)
        P, exc, _ = ctx.call(L.build_reordering_xx_to_xp, n)
        ctx.emit("reorder", lat(P, shape=(2 * n, 2 * n)), exc, "build_reordering_xx_to_xp(%d)" % n,
                 (("out", "m", 0, 0, 0), 1), n=n)
        K, exc, _ = ctx.call(L.build_K, n)
        ctx.emit("K", lat(K, 2, shape=(2 * n, 2 * n)), exc, "build_K(%d)" % n,
                 (("out", "m", 0, 0, 0), 1), n=n, w=4000 * n ** 3)
        if n <= 5 and out["ok"] and len(out["ops"]) == 2 * n:
            ctx.emit("chain", {"ok": out["ok"], "ops": out["ops"], "omega": oml}, exc2,
                     "build_Omega(%d) against jordan_wigner_majoranas(%d)" % (n, n),
                     (("out", "omega", "m", 0, 0, 0), 1), n=n, w=20000 * n)

    def walk(n, start, word):
        ops, exc, _ = ctx.call(ff.jordan_wigner_majoranas, n)
        steps, ok = [], not exc
        if ok:
            v = np.zeros((2 ** n, 1), dtype=complex)
            v[start] = 1
            for p in word:
                try:
                    v = np.asarray(ops[p - 1]) @ v * R2
                    s = sparse(v)
                except Exception:
                    s = None
                if s is None:
                    ok = False
                    break
                steps.append([[e[0], e[2], e[3]] for e in s["nz"]])
        ctx.emit("walk", {"ok": ok, "steps": steps}, exc,
                 "product of jordan_wigner_majoranas(%d) %s on basis vector %d" % (n, word, start),
                 (("out", "steps"), [[[0, 7, 0]]] * len(word)), n=n, start=start, word=word)

    sc = ctx.scen
    k = ctx.q(300, 1024)
    if len(sc) > k:
        sc = [sc[i] for i in ctx.rng.choice(len(sc), k, replace=False)]
    for s in sc:
        walk(s["n"], s["start"], s["word"])
    for _ in range(ctx.q(100, 600)):
        n = int(ctx.rng.integers(1, 7))
        walk(n, int(ctx.rng.integers(0, 2 ** n)),
             [int(x) for x in ctx.rng.integers(1, 2 * n + 1, size=int(ctx.rng.integers(1, 12)))])
