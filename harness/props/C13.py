"""C13: seeding."""
import random

import networkx as nx
import numpy as np

from rec import api

MC = [{"module": "M_C13", "expect_states": 1000, "workers": "4"},
      {"module": "M_C13", "cfg": "M_C13_deep.cfg", "tier": "thorough", "workers": "4"}]

# name, positional args, keywords, accepts a seed, continuous values
FUNS = []
for _n in (1, 2, 3):
    for _kw in ({}, {"returnH": True}, {"returnOrb": True}):
        FUNS.append(("random_FF_rotation", (_n,), _kw, True, True))
    for _kw in ({}, {"fixedN": True}, {"returnH": True}, {"pure": True}, {"pure": True, "returnH": True},
                {"fixedN": True, "returnH": True}):
        FUNS.append(("random_FF_state", (_n,), _kw, True, True))
    for _kw in ({}, {"fixedN": True}):
        FUNS.append(("random_H_generator", (_n,), _kw, True, True))
    for _f in ("random_qubit_state", "random_qubit_pure_state", "random_FF_state_randH", "random_FF_state_rotPDF",
               "random_FF_pure_state_W0", "random_FF_pure_state_CN"):
        FUNS.append((_f, (_n,), {}, True, True))
    FUNS.append(("random_FF_state_rotPDF", (_n,), {"returnS": True}, True, True))
    FUNS.append(("random_FF_pure_state_WN", (_n,), {}, True, True))
    FUNS.append(("random_FF_pure_state_WN", (_n,), {"N": 1}, True, True))
for _n in (4, 6, 9):
    FUNS.append(("generate_random_planar_graph", (_n,), {}, True, _n > 6))
FUNS.append(("generate_random_bitstring", (12, 5), {}, False, False))
# one-mode pure states can be constant up to a phase: no claim that they differ
FUNS = [(f, a, k, s, c and not (a == (1,) and ("pure" in f or k.get("pure")))) for f, a, k, s, c in FUNS]


def parts(v):
    if isinstance(v, (tuple, list)) and not isinstance(v, np.ndarray):
        return [p for x in v for p in parts(x)]
    if isinstance(v, nx.Graph):
        return [np.array(sorted([sorted(e) for e in v.edges()]), float), np.array(list(v.nodes()), float)]
    return [np.asarray(v.toarray() if hasattr(v, "toarray") else v)]


class Tags:
    """identity tags: equal tags for equal values (to rounding noise)"""

    def __init__(self):
        self.vals = []

    def tag(self, v):
        p = parts(v)
        for i, q in enumerate(self.vals):
            if len(p) == len(q) and all(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-11) for a, b in zip(p, q)):
                return i + 1
        self.vals.append([x.copy() for x in p])
        return len(self.vals)


def drive(ctx):
    rng = ctx.rng
    tags = {}
    sess = [0]

    def begin():
        sess[0] += 1
        ctx.emit("begin", {"tag": 0}, "", "new session", None, sess=sess[0], w=10)

    def reseed(s):
        np.random.seed(s)
        random.seed(s)
        ctx.emit("reseed", {"tag": 0}, "", "np.random.seed(%d); random.seed(%d)" % (s, s), None, sess=sess[0], s=str(s), w=10)

    last = {}

    def go(F, s=None):
        fn, a, kw, _, cont = F
        kw = dict(kw)
        if s is not None:
            kw["seed"] = s
        v, exc, _ = ctx.call(api(fn), *a, **kw)
        key = (fn, a, str(sorted(F[2].items())))
        tag = 0 if exc else tags.setdefault(key, Tags()).tag(v)
        kind = "seeded" if s is not None else "unseeded"
        again = kind == "seeded" and (sess[0], key, s) in last
        last[(sess[0], key, s)] = 1
        ctx.emit(kind, {"tag": tag}, exc, "%s(%s, %s)" % (fn, a, kw),
                 (("out", "tag"), 5000) if again else None, sess=sess[0], fn=fn, arg="%s%s" % (a, key[2]),
                 cont=bool(cont), s=str(s) if s is not None else "", w=60)

    seedable = [F for F in FUNS if F[3]]
    order = rng.permutation(len(seedable))
    sc = list(ctx.scen)
    k = ctx.q(90, 900)
    if len(sc) > k:
        sc = [sc[i] for i in rng.choice(len(sc), k, replace=False)]
    for i, s in enumerate(sc):
        F = seedable[order[i % len(order)]]
        G = seedable[int(rng.integers(0, len(seedable)))] if i % 2 else F
        seeds = {0: [0, 0, 12345, 2 ** 32 - 1][i % 4], 7: int(rng.integers(1, 10 ** 6))}
        begin()
        for op, f, sd in s["ops"]:
            H = F if f == "f" else G
            if op == "reseed":
                reseed(seeds[sd])
            elif op == "seeded":
                go(H, seeds[sd])
            else:
                go(H)
    # for every function: seeded repeats around disturbances; draws replayed
    for F in FUNS:
        begin()
        ss = [0, 1, int(rng.integers(2, 10 ** 6))]
        if F[3]:
            for s in ss:
                go(F, s)
            go(F)
            np.random.rand(3)
            random.random()
            for s in reversed(ss):
                go(F, s)
            # seeds close to each other in one way or another
            s = ss[2]
            near = [s ^ (1 << b) for b in range(32)] + [2 ** 32 - 1 - s, s + 1, (s * 65537) % 2 ** 32, s * 10, s * 1000, s + 1000]
            for i in rng.choice(len(near), ctx.q(6, len(near)), replace=False):
                go(F, near[int(i)])
            go(F, s ^ (1 << 31))
        for _ in range(2):
            reseed(5)
            go(F)
            go(F)
            go(F)
        reseed(6)
        go(F)
