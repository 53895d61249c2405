"""C04: operator rotations and the anticommutator matrix."""
import numpy as np

import ff
from rec import ints, lat

MC = [{"module": "M_C04", "expect_states": 200},
      {"module": "M_C04", "cfg": "M_C04_deep.cfg", "tier": "thorough"}]


def enc_ops(ops, scale=1.0):
    try:
        L = [lat(o, scale) for o in ops]
    except TypeError:
        return {"ok": False, "why": "not a list", "ops": []}
    if not all(x["ok"] for x in L):
        return {"ok": False, "why": "off lattice", "ops": []}
    return {"ok": True, "why": "", "ops": [x["m"] for x in L]}


def gint(rng, shape, lo=-3, hi=3, density=0.7, real=False):
    A = rng.integers(lo, hi + 1, size=shape) + (0 if real else 1j) * rng.integers(lo, hi + 1, size=shape)
    return A * (rng.random(shape) < density)


def drive(ctx):
    rng = ctx.rng
    CAN = (("out", "ops", 0, 0, 0, 0), 1)

    def tolib(C, style):
        if style == "fortran":
            return np.asfortranarray(C)
        if style == "view":
            B = np.zeros((2 * C.shape[0], 2 * C.shape[1]), dtype=C.dtype)
            B[::2, ::2] = C
            return B[::2, ::2]
        if style == "readonly":
            C = C.copy()
            C.flags.writeable = False
            return C
        return C

    # one-shot rotations
    for k in range(ctx.q(90, 900)):
        n = int(rng.integers(1, 4))
        kind = rng.integers(0, 4)
        if kind < 2:
            al = ff.jordan_wigner_alphas(n)
            sc_al = 1.0
        elif kind == 2:
            d = int(rng.integers(1, 5))
            al = [gint(rng, (d, d)) for _ in range(2 * n)]
            sc_al = 1.0
        else:
            d = int(rng.integers(1, 4))
            m = int(rng.integers(1, 6))
            real = rng.random() < 0.5
            al = [gint(rng, (d, d), real=real).real if real else gint(rng, (d, d)) for _ in range(m)]
            sc_al = 1.0
        m = len(al)
        al = [np.array(a) for a in al]
        if kind == 3 and rng.random() < 0.5:
            al = [np.asarray(a.real.astype(int)) if np.allclose(a.imag if np.iscomplexobj(a) else 0, 0) else a for a in al]
        C = gint(rng, (m, m), density=float(rng.choice([0.3, 0.8, 1.0])))
        dt = rng.integers(0, 4)
        if dt == 0:
            C = C.real.astype(int)
        elif dt == 1:
            C = C.real.astype(float)
        sh = float(rng.choice([0, 0, 0, -20, -27, 12]))
        unit = 2.0 ** sh
        mixed = rng.random() < 0.15
        if mixed:          # ordinary and very small coefficients side by side
            unit = 2.0 ** -22
            Cint = C * np.where(rng.random((m, m)) < 0.5, 2 ** 20, 1)
            Clib = Cint * unit
        else:
            Cint = C
            Clib = C if sh == 0 else C * unit
        left = bool(rng.random() < 0.4)
        swap = bool(rng.random() < 0.3)
        style = str(rng.choice(["plain", "fortran", "view", "readonly"]))
        Cl = tolib(Clib, style)
        kw = {"Left": True} if left else ({} if rng.random() < 0.7 else {"Left": False})
        if rng.random() < 0.2:
            kw["verbose"] = True
        a = (al, Cl) if swap else (Cl, al)
        out, exc, _ = ctx.call(ff.rotate_operators, *a, **kw)
        ctx.emit("rot", enc_ops(out, 1 / unit) if not exc else {"ok": False, "ops": []}, exc,
                 "rotate_operators(C=%r, %d operators of dim %d, %s%s)" % (Clib, m, al[0].shape[0], kw, ", swapped" if swap else ""),
                 CAN, C=ints(Cint), left=left, alphas=[ints(x) for x in al])

    # anticommutator matrices
    for k in range(ctx.q(40, 300)):
        n = int(rng.integers(1, 4 if k % 4 else 5))
        base = rng.integers(0, 3)
        al = ff.jordan_wigner_alphas(n)
        unit = 1
        if base == 1:
            al = [x * np.sqrt(2) for x in ff.jordan_wigner_majoranas(n)]
        if base == 2 or rng.random() < 0.3:
            C = gint(rng, (2 * n, 2 * n), -2, 2, 0.4)
            al = [sum(C[j, i] * al[i] for i in range(2 * n)) for j in range(2 * n)]
        lib = [np.array(x) for x in al]
        sh = int(rng.choice([0, 0, -5, 6, -8, -11]))
        if base == 0 and rng.random() < 0.4:     # ordinary operators with a small admixture
            sh = -12
            i, j = rng.permutation(2 * n)[:2]
            al = [np.asarray(x) * 2 ** 12 + (np.asarray(al[j]) if t == i else 0) for t, x in enumerate(al)]
            lib = [np.array(x) for x in al]
        lib = [x * 2.0 ** sh for x in lib]
        kw = {"verbose": True} if rng.random() < 0.2 else {}
        S, exc, _ = ctx.call(ff.compute_algebra_S, lib, **kw)
        ctx.emit("S", lat(S, 4.0 ** -sh, shape=(2 * n, 2 * n)), exc,
                 "compute_algebra_S(%d operators of dim %d)" % (2 * n, 2 ** n), (("out", "m", 0, 0, 0), 1),
                 unit=unit, alphas=[ints(x) for x in al])

    # reports of operators without an algebra
    for k in range(ctx.q(40, 200)):
        n = int(rng.integers(1, 3))
        al = [np.array(x, dtype=complex) for x in ff.jordan_wigner_alphas(n)]
        if k % 2:
            C = gint(rng, (2 * n, 2 * n), -2, 2, 0.6)
            al = [sum(C[j, i] * al[i] for i in range(2 * n)) for j in range(2 * n)]
        if k % 3:
            x = int(rng.integers(0, 2 * n))
            E = np.zeros_like(al[0])
            E[int(rng.integers(0, 2 ** n)), int(rng.integers(0, 2 ** n))] = 1
            al[x] = al[x] + E
        S, exc, printed = ctx.call(ff.compute_algebra_S, [np.array(x) for x in al])
        ctx.emit("report", {"silent": printed.strip() == ""}, exc, "compute_algebra_S(%d operators of dim %d)" % (2 * n, 2 ** n),
                 (("out", "silent"), printed.strip() != ""), alphas=[ints(x) for x in al])

    # sessions: the specification carries the operator list
    sess = 0

    def session(n, steps):
        nonlocal sess
        sess += 1
        ctx.emit("begin", {}, sess=sess, n=n)
        ops = ff.jordan_wigner_alphas(n)
        for st in steps:
            C = np.array([[complex(*z) for z in row] for row in st["g"]])
            kw = {"Left": True} if st["left"] else {}
            ops2, exc, _ = ctx.call(ff.rotate_operators, C, ops, **kw)
            ok = not exc
            ctx.emit("srot", enc_ops(ops2) if ok else {"ok": False, "ops": []}, exc,
                     "successive rotate_operators, step C=%r %s" % (C.tolist(), kw), sess=sess,
                     C=st["g"], left=st["left"])
            if not ok:
                return
            ops = ops2
            if st.get("S", True):
                S, exc, _ = ctx.call(ff.compute_algebra_S, ops)
                ctx.emit("sS", lat(S, shape=(2 * n, 2 * n)), exc, "compute_algebra_S after rotations",
                         sess=sess, unit=1)
    sc = ctx.scen
    k = ctx.q(60, 512)
    if len(sc) > k:
        sc = [sc[i] for i in rng.choice(len(sc), k, replace=False)]
    for s in sc:
        session(s["n"], s["steps"])
    for _ in range(ctx.q(12, 80)):
        n = int(rng.integers(1, 4))
        steps = []
        for _ in range(int(rng.integers(2, 5))):
            P = np.eye(2 * n, dtype=complex)[rng.permutation(2 * n)]
            P = np.diag(rng.choice([1, -1, 1j, -1j], 2 * n)) @ P
            i, j = rng.choice(2 * n, 2, replace=False)
            E = np.eye(2 * n, dtype=complex)
            E[i, j] = rng.choice([1, -1, 1j, 1 + 1j])
            steps.append({"g": ints(P @ E), "left": bool(rng.random() < 0.4)})
        session(n, steps)
