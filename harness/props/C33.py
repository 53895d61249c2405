"""C33: distributions of the random functions (exact moments, six standard deviations)."""
import numpy as np

from props.C25 import ename
from rec import api, asnum

MC = [{"module": "M_C33", "exact_states": 6},
      {"module": "M_C33", "cfg": "M_C33_circle.cfg", "exact_states": 12},
      {"module": "M_C33", "cfg": "M_C33_icosian.cfg", "exact_states": 13},
      {"module": "M_C33", "cfg": "M_C33_cross.cfg", "refute": "Fourth"},
      {"module": "M_C33", "cfg": "M_C33_e8.cfg", "exact_states": 30, "tier": "thorough"},
      {"module": "M_C33b", "cfg": "M_C33b_1.cfg", "exact_states": 5},
      {"module": "M_C33b", "cfg": "M_C33b_2.cfg", "exact_states": 8},
      {"module": "M_C33c", "cfg": "M_C33c_urn2.cfg", "exact_states": 11},
      {"module": "M_C33c", "cfg": "M_C33c_urn3.cfg", "exact_states": 8},
      {"module": "M_C33c", "cfg": "M_C33c_urn4.cfg", "exact_states": 6},
      {"module": "M_C33c", "cfg": "M_C33c_choose6.cfg", "exact_states": 7},
      {"module": "M_C33c", "cfg": "M_C33c_again4.cfg", "refute": "Even"}]
USES_SCEN = False
ASSUMPTIONS = ["a distribution is compared through its low moments; a correct implementation exceeds six standard deviations in one of the moments of one run with probability below 1e-5",
               "NumPy's and stim's generators produce independent uniform numbers"]
BATCH = 100


def px(A, shape):
    """entries (at most 1.01 in modulus) in units of 2^-12, [re, im]"""
    A = asnum(A)
    if A is None or A.shape != shape or not np.all(np.isfinite(A)) or (A.size and max(np.abs(A.real).max(), np.abs(A.imag).max()) > 1.01):
        return None
    return np.rint(np.stack([A.real, A.imag], -1) * 4096).astype(int)


def drive(ctx):
    rng = ctx.rng
    sess = 0

    def session(fn, n, draws, f, enc, call, w, k=-1, seeded=False):
        nonlocal sess
        sess += 1
        ctx.emit("begin", {"ok": True}, "", "", None, sess=sess, w=1)
        draws = ctx.q(draws, draws * (3 if fn == "chp" else 7))
        left = draws
        while left > 0:
            xs, err, ok = [], "", True
            for _ in range(min(BATCH, left)):
                v, exc, _ = ctx.call(f, **({"seed": int(rng.integers(0, 2 ** 32))} if seeded else {}))
                if exc:
                    err = ename(exc)
                    break
                x = enc(v)
                if x is None:
                    ok = False
                    break
                xs.append(x)
            left -= BATCH
            ctx.emit("draws", {"exc": err, "ok": ok and not err, "x": xs if ok and not err else []}, "", call, None, sess=sess, fn=fn, n=n, k=k, w=w * BATCH)
        ctx.emit("end", {"unit": 1}, "", "%d x %s" % (draws, call), (("out", "unit"), 3), sess=sess, fn=fn, n=n, k=k, w=20)

    def matrix(d):
        return lambda v: (lambda r: None if r is None else r.tolist())(px(v, (d, d)))

    def column(d):
        return lambda v: (lambda r: None if r is None else r[:, 0].tolist())(px(v, (d, 1)))

    def real(d):
        def enc(v):
            r = px(v, (d,))
            return None if r is None or np.any(r[:, 1]) else r[:, 0].tolist()
        return enc

    rotation, state = api("random_FF_rotation"), api("random_FF_state")
    pure, mixed, chp, bits = api("random_qubit_pure_state"), api("random_qubit_state"), api("random_CHP_state"), api("generate_random_bitstring")
    w0, wn, cn, pdf = api("random_FF_pure_state_W0"), api("random_FF_pure_state_WN"), api("random_FF_pure_state_CN"), api("random_FF_state_rotPDF")
    for n, draws, seeded in ((1, 1500, False), (2, 1500, False), (2, 1000, True), (3, 400, False)):
        session("rot", n, draws, lambda n=n, **k: rotation(n, returnOrb=True, **k), matrix(2 * n),
                "random_FF_rotation(%d, returnOrb=True%s)" % (n, ", seed=.." if seeded else ""), 12 * n ** 3, seeded=seeded)
    for n, draws, seeded in ((1, 1500, False), (1, 1000, True), (2, 1500, False), (3, 800, True)):
        session("pure", n, draws, lambda n=n, **k: pure(n, **k), column(2 ** n), "random_qubit_pure_state(%d%s)" % (n, ", seed=.." if seeded else ""), 4 * 4 ** n, seeded=seeded)
    for n, draws, seeded in ((1, 2000, False), (2, 1500, False), (2, 1000, True)):
        session("mixed", n, draws, lambda n=n, **k: mixed(n, **k), matrix(2 ** n), "random_qubit_state(%d%s)" % (n, ", seed=.." if seeded else ""), 5 * 4 ** n, seeded=seeded)

    def spectrum(n, **k):
        return pdf(n, returnS=True, **k)[1]
    for n, draws, seeded in ((1, 2000, False), (2, 1500, True), (3, 800, False)):
        session("simplex", n, draws, lambda n=n, **k: spectrum(n, **k), real(2 ** n), "random_FF_state_rotPDF(%d, returnS=True)[1]" % n, 2 * 4 ** n, seeded=seeded)
    for n, draws in ((2, 700), (3, 250)):
        w = 60 if n == 2 else 400
        e = column(2 ** n)
        session("gauss", n, draws, lambda n=n, **k: w0(n, **k), e, "random_FF_pure_state_W0(%d)" % n, w, k=0)
        session("gauss", n, draws, lambda n=n, **k: w0(n, **k), e, "random_FF_pure_state_W0(%d, seed=..)" % n, w, k=0, seeded=True)
        session("gauss", n, draws, lambda n=n, **k: state(n, pure=True, **k), e, "random_FF_state(%d, pure=True)" % n, w, k=0)
        for N in range(n + 1) if n == 2 else (1, 2):
            session("gauss", n, draws, lambda n=n, N=N, **k: wn(n, N, **k), e, "random_FF_pure_state_WN(%d, %d)" % (n, N), w, k=N, seeded=N == 1)
        session("gauss", n, draws, lambda n=n, **k: wn(n, **k), e, "random_FF_pure_state_WN(%d)" % n, w)
        session("gauss", n, draws if n == 2 else 120, lambda n=n, **k: cn(n, **k), e, "random_FF_pure_state_CN(%d)" % n, w)
        for b in (0, 2 ** n - 2):
            session("gauss", n, draws, lambda n=n, b=b, **k: rotation(n, **k)[:, b:b + 1], e, "random_FF_rotation(%d)[:, %d]" % (n, b), w, k=bin(b).count("1"))
    for f in (wn, cn):
        for n in (1, 2, 3):
            for seeded in (False, True):
                x, err, ok = [], "", True
                for _ in range(40):
                    v, exc, _ = ctx.call(f, n, **({"seed": int(rng.integers(0, 2 ** 32))} if seeded else {}))
                    y = column(2 ** n)(v) if not exc else None
                    err, ok = err or ename(exc), ok and y is not None
                    x.append(y)
                ctx.emit("numbers", {"exc": err, "ok": ok and not err, "x": x if ok else [], "unit": 1}, "", "40 x %s(%d)" % (f.__name__, n), (("out", "unit"), -1), n=n, w=60)
    for n, draws in ((1, 600), (2, 2400)):
        session("chp", n, draws, lambda n=n: chp(n), column(2 ** n), "random_CHP_state(%d)" % n, 20 * 8 ** n)

    def bit(n):
        def enc(v):
            return [int(t) for t in v] if isinstance(v, np.ndarray) and v.shape == (n,) and v.dtype.kind in "iu" else None
        return enc
    for n, k, draws in ((4, 2, 600), (5, 1, 500), (5, 4, 500), (6, 3, 1500), (7, 2, 1500)):
        session("bits", n, draws, lambda n=n, k=k: bits(n, k), bit(n), "generate_random_bitstring(%d, %d)" % (n, k), 5, k=k)
