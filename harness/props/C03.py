"""C03: the Pauli group generator."""
import numpy as np

import ff
from rec import sparse, sparse_list

MC = [{"module": "M_C03", "expect_states": 1000},
      {"module": "M_C03", "cfg": "M_C03_deep.cfg", "tier": "thorough"}]


def drive(ctx):
    ops, exc, _ = ctx.call(ff.pauli_matrices)
    ctx.emit("single", sparse_list(ops) if not exc else {"ok": False, "ops": []}, exc,
             "pauli_matrices()", (("out", "ops", 0, "nz", 0, 2), 1))
    sizes = [1, 2, 3, 4] + ([5] if ctx.thorough else [])
    ctx.rng.shuffle(sizes)
    groups = {}
    for n in sizes:
        n = int(n)
        ops, exc, _ = ctx.call(ff.generate_pauli_group, n)
        groups[n] = ops
        tot = len(ops) if ops is not None else 0
        for a in range(0, max(tot, 1), 64):
            part = sparse_list(ops[a:a + 64]) if not exc else {"ok": False, "ops": []}
            part["total"] = tot
            ctx.emit("group", part, exc, "generate_pauli_group(%d) elements %d.." % (n, a),
                     (("out", "ops", 0, "nz", 0, 3), 1), n=n, **{"from": a, "to": min(a + 64, tot) - 1})
        if n <= 3:
            o2, exc, txt = ctx.call(ff.generate_pauli_group, n, verbose=True)
            lines = [x.strip() for x in txt.splitlines() if x.strip()]
            ctx.emit("names", {"lines": lines}, exc, "generate_pauli_group(%d, verbose=True)" % n,
                     (("out", "lines", 0), "Q"), n=n)
    # repeated requests after the caller changed an earlier result
    for n in (1, 2):
        if groups[n] is not None:
            try:
                for m in groups[n]:
                    m *= 0
            except Exception:
                pass
        ops, exc, _ = ctx.call(ff.generate_pauli_group, n)
        out = sparse_list(ops) if not exc else {"ok": False, "ops": []}
        out["total"] = len(out["ops"])
        ctx.emit("group", out, exc, "generate_pauli_group(%d) again" % n, n=n, **{"from": 0, "to": 4 ** n - 1})
    for a, t in ((2.0, "float"), (1.5, "float"), ("2", "str"), (None, "none"), ([2], "list"),
                 (2 + 0j, "complex"), (0, "int"), (-1, "int"), (-5, "int"), (1, "int"), (2, "int")):
        _, exc, _ = ctx.call(ff.generate_pauli_group, a)
        ctx.emit("refuse", {"raised": exc.split(":")[0]}, exc="", call="generate_pauli_group(%r)" % (a,),
                 canary=(("out", "raised"), "KeyError"), arg={"type": t, "val": a if t == "int" else 0})

    def walk(n, start, word):
        ops, exc, _ = ctx.call(ff.generate_pauli_group, n)
        steps, ok = [], not exc
        if ok:
            v = np.zeros((2 ** n, 1), dtype=complex)
            v[start] = 1
            for p in word:
                try:
                    v = np.asarray(ops[p]) @ v
                    s = sparse(v)
                except Exception:
                    s = None
                if s is None:
                    ok = False
                    break
                steps.append([[e[0], e[2], e[3]] for e in s["nz"]])
        ctx.emit("walk", {"ok": ok, "steps": steps}, exc, "product of Paulis %s (n=%d) on %d" % (word, n, start),
                 (("out", "steps"), [[[0, 7, 0]]] * len(word)), n=n, start=start, word=word)
    sc = ctx.scen
    k = ctx.q(200, 1024)
    if len(sc) > k:
        sc = [sc[i] for i in ctx.rng.choice(len(sc), k, replace=False)]
    for s in sc:
        walk(s["n"], s["start"], s["word"])
    for _ in range(ctx.q(60, 400)):
        n = int(ctx.rng.integers(1, 4))
        walk(n, int(ctx.rng.integers(0, 2 ** n)),
             [int(x) for x in ctx.rng.integers(0, 4 ** n, size=int(ctx.rng.integers(1, 8)))])
