"""C32: random qubit and stabilizer states, random bit strings."""
import numpy as np

from props.C25 import ename
from rec import api, asnum, fx, fxmat

MC = [{"module": "M_C32", "exact_states": 60},
      {"module": "M_C32", "cfg": "M_C32_one.cfg", "exact_states": 6},
      {"module": "M_C32", "cfg": "M_C32_three.cfg", "exact_states": 1080},
      {"module": "M_C32", "cfg": "M_C32_deep.cfg", "exact_states": 36720, "tier": "thorough", "workers": "6", "timeout": 880}]
USES_SCEN = False
ASSUMPTIONS = ["a result occurring with probability p is missed by the sampling sessions with probability (1-p)^draws < 1e-10"]


def drive(ctx):
    rng = ctx.rng
    pure, mixed, chp, bits = api("random_qubit_pure_state"), api("random_qubit_state"), api("random_CHP_state"), api("generate_random_bitstring")

    def kw():
        return {} if rng.random() < 0.3 else {"seed": int(rng.integers(0, 2 ** 32))}

    for n in range(1, 10):
        for _ in range(ctx.q(8, 40)):
            k = kw()
            r, exc, _ = ctx.call(pure, n, **k)
            o = dict({"exc": ename(exc)}, **fxmat(r, (2 ** n, 1)))
            i = int(np.argmax([abs(e[0][0]) for e in o["m"]])) if o["ok"] else 0
            ctx.emit("pure", o, "", "random_qubit_pure_state(%d, %s)" % (n, k), (("out", "m", i, 0, 0), 2 ** 22) if o["ok"] else None, n=n, w=20 * 2 ** n)
    for n in range(1, 7):
        for _ in range(ctx.q(10, 50) if n < 5 else 3 if n == 5 else 1):
            k = kw()
            r, exc, _ = ctx.call(mixed, n, **k)
            o = dict({"exc": ename(exc)}, **fxmat(r, (2 ** n, 2 ** n)))
            U, lam = [], []
            if o["ok"]:
                A = asnum(r)
                l, V = np.linalg.eigh((A + A.conj().T) / 2)
                U, lam = fxmat(V)["m"], [fx(t) for t in l]
            ctx.emit("mixed", o, "", "random_qubit_state(%d, %s)" % (n, k), (("out", "m", 0, 0, 1), 2000) if o["ok"] else None, n=n, U=U, lam=lam, w=20 + 2 * 8 ** n)

    def stab(n, **s):
        r, exc, _ = ctx.call(chp, n)
        o = dict({"exc": ename(exc)}, **fxmat(r, (2 ** n, 1)))
        i = int(np.argmax([abs(e[0][0]) + abs(e[0][1]) for e in o["m"]])) if o["ok"] else 0
        ctx.emit("chp", o, "", "random_CHP_state(%d)" % n, (("out", "m", i, 0, 0), 5000000) if o["ok"] and not s else None, n=n, w=30 * 8 ** n, **s)

    for n in range(1, 6):
        for _ in range(ctx.q((30, 30, 30, 8, 3)[n - 1], (150, 150, 150, 40, 15)[n - 1])):
            stab(n)
    for s, (n, draws) in enumerate([(1, 200), (2, 1600)]):
        ctx.emit("begin", {"ok": True}, "", "", None, sess=s, w=2)
        for _ in range(draws):
            stab(n, sess=s)
        ctx.emit("seen_chp", {"n": 1}, "", "%d x random_CHP_state(%d)" % (draws, n), (("out", "n"), 1), sess=s, n=n, w=10)

    def bit(n, k, **s):
        r, exc, _ = ctx.call(bits, n, k)
        o = {"exc": ename(exc), "none": r is None, "ok": False, "b": []}
        if isinstance(r, np.ndarray) and r.ndim == 1 and r.dtype.kind in "iu":
            o.update(ok=True, b=[int(t) for t in r])
        bad = k < 0 or k > n
        can = (("out", "none"), False) if bad else (("out", "b", 0), 1) if o["ok"] and n and not s else None
        ctx.emit("bits", o, "", "generate_random_bitstring(%r, %r)" % (n, k), can, fn="none" if bad else "string", n=int(n), k=int(k), w=10 + n, **s)

    for n in list(range(0, 8)) + [12, 31, 64, 100]:
        for k in range(-2, n + 3) if n < 10 else (0, 1, n // 2, n - 1, n, n + 1, -1):
            for _ in range(ctx.q(2, 10)):
                bit(n, k if rng.random() < 0.7 else np.int64(k))
    for s, (n, k, draws) in enumerate([(4, 2, 250), (5, 1, 250), (5, 4, 250), (6, 3, 800), (3, 0, 3), (3, 3, 3)]):
        s += 10
        ctx.emit("begin", {"ok": True}, "", "", None, sess=s, w=2)
        for _ in range(draws):
            bit(n, k, sess=s)
        ctx.emit("seen_bits", {"n": 1}, "", "%d x generate_random_bitstring(%d, %d)" % (draws, n, k), (("out", "n"), 1), sess=s, n=n, k=k, w=10)
    for f in (pure, mixed, chp):
        for a in (0, -1, -5, 1.0, 2.5, "2", None, [2], 2 + 0j):
            v, exc, _ = ctx.call(f, a)
            ctx.emit("refuse", {"type": ename(exc)}, "", "%s(%r)" % (f.__name__, a), (("out", "type"), "x"),
                     fn="invalid_size_refused_" + f.__name__, arg="int" if isinstance(a, int) else "other", w=3)
