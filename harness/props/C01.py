"""C01: Jordan-Wigner ladder operators are the Fock machine's transitions."""
import numpy as np

import ff
from rec import sparse, sparse_list

MC = [{"module": "M_C01", "expect_states": 100},
      {"module": "M_C01", "cfg": "M_C01_deep.cfg", "tier": "thorough"}]


def vec_sparse(v):
    s = sparse(np.asarray(v).reshape(-1, 1))
    return None if s is None else [[e[0], e[2], e[3]] for e in s["nz"]]


def drive(ctx):
    sizes = list(range(0, ctx.q(8, 10) + 1))
    ctx.rng.shuffle(sizes)
    for n in sizes:
        for fn, f in (("lowering", ff.jordan_wigner_lowering), ("alphas", ff.jordan_wigner_alphas)):
            ops, exc, _ = ctx.call(f, n)
            out = sparse_list(ops) if not exc else {"ok": False, "why": exc, "ops": []}
            can = (("out", "ops", 0, "nz", 0, 2), -2) if n else None
            ctx.emit("ops", out, exc, "%s(%d)" % (f.__name__, n), can, fn=fn, n=int(n))

    def walk(n, start, word):
        ops, exc, _ = ctx.call(ff.jordan_wigner_alphas, n)
        steps = []
        ok = not exc
        if ok:
            v = np.zeros((2 ** n, 1), dtype=complex)
            v[start] = 1
            for p in word:
                try:
                    v = np.asarray(ops[p - 1]) @ v
                    e = vec_sparse(v)
                except Exception:
                    e = None
                if e is None:
                    ok = False
                    break
                steps.append(e)
        ctx.emit("walk", {"ok": ok, "steps": steps}, exc,
                 "product of jordan_wigner_alphas(%d) operators %s on basis vector %d" % (n, word, start),
                 (("out", "steps"), [[[0, 7, 0]]] * len(word)), n=n, start=start, word=word)

    sc = ctx.scen
    if len(sc) > ctx.q(600, 4000):
        sc = [sc[i] for i in ctx.rng.choice(len(sc), ctx.q(600, 4000), replace=False)]
    for s in sc:
        walk(s["n"], s["start"], s["word"])
    for _ in range(ctx.q(150, 1000)):
        n = int(ctx.rng.integers(1, 7))
        b = int(ctx.rng.integers(0, 2 ** n))
        start, word, m = b, [], b
        for _ in range(int(ctx.rng.integers(1, 10))):
            # mostly surviving words
            k = int(ctx.rng.integers(0, n))
            occ = (m >> (n - 1 - k)) & 1
            if ctx.rng.random() < 0.05:
                occ ^= 1
            word.append(n + k + 1 if occ else k + 1)
            m ^= 1 << (n - 1 - k)
        walk(n, start, word)
