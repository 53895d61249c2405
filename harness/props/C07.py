"""C07: two-point correlators."""
import numpy as np

import ff
import ff.ff_lib as L
from rec import ints, lat

MC = [{"module": "M_C07", "expect_states": 900},
      {"module": "M_C07", "cfg": "M_C07_deep.cfg", "tier": "thorough"}]


def gint(rng, shape, lo=-4, hi=4, density=0.7):
    A = rng.integers(lo, hi + 1, size=shape) + 1j * rng.integers(lo, hi + 1, size=shape)
    return A * (rng.random(shape) < density)


def drive(ctx):
    rng = ctx.rng
    CAN = (("out", "m", 0, 0, 0), 1)
    conj_args = {"plain": [None], "pos": [True, 1, 2, 1.0], "neg": [-1, -2, -1.0]}

    def one(n, rho_int, mode, unit=1.0, al="default", ninfer=False, reg=None):
        """n modes, on a register of reg sites when given"""
        rho = rho_int * unit if unit != 1 else rho_int
        oscale = 1 / unit
        enc = []
        lib = None
        if reg:
            lib = {"jw": ff.jordan_wigner_alphas, "maj": ff.jordan_wigner_majoranas}[al](reg)
            lib = [lib[i] for i in rng.permutation(2 * reg)]
            lib = lib if rng.random() < 0.5 else lib[:2 * n]
            r = np.sqrt(2) if al == "maj" else 1
            enc = [ints(np.round(x * r)) for x in lib]
            oscale *= r * r
        elif al == "jw":
            lib = ff.jordan_wigner_alphas(n)
        elif al == "maj":
            lib = ff.jordan_wigner_majoranas(n)
            enc = [ints(np.round(x * np.sqrt(2))) for x in lib]
            oscale *= 2
        elif al == "rand":
            lib = [gint(rng, (2 ** n, 2 ** n), -2, 2, 0.5) for _ in range(2 * n)]
            enc = [ints(x) for x in lib]
        kw = {}
        if lib is not None:
            kw["alphas"] = lib
        if mode == "cov":
            if not ninfer:
                kw["n_sites"] = n
            f, a = L.compute_cov_matrix, (rho,)
        elif mode == "plain" and al == "default" and ninfer:
            f, a = L.correlation_matrix, (rho,)
        else:
            c = conj_args[mode][int(rng.integers(0, len(conj_args[mode])))]
            if not (c is None and rng.random() < 0.5):
                kw["conjugation"] = c
            f, a = L.compute_2corr_matrix, (rho, n)
        G, exc, _ = ctx.call(f, *a, **kw)
        ctx.emit("corr", lat(G, oscale, shape=(2 * n, 2 * n)), exc,
                 "%s(rho=%r, n=%d, alphas=%s, %s)" % (f.__name__, rho.tolist() if n < 3 else "<%dx%d>" % rho.shape, n, al,
                                                     {k: v for k, v in kw.items() if k != "alphas"}),
                 CAN, fn=f.__name__, n=n, jw=al in ("default", "jw") and not reg, mode=mode, rho=ints(rho_int), alphas=enc,
                 w=(3000 * 8 ** n) * (1 if al in ("default", "jw") else 2 ** n // 2 + 1))

    modes = ["plain", "pos", "neg", "cov"]
    sc = ctx.scen
    k = ctx.q(60, 800)
    if len(sc) > k:
        sc = [sc[i] for i in rng.choice(len(sc), k, replace=False)]
    for i, s in enumerate(sc):
        one(s["n"], np.array([[complex(*z) for z in row] for row in s["rho"]]), modes[i % 4], ninfer=bool(i % 3 == 0))
    for it in range(ctx.q(170, 1200)):
        n = int(rng.choice([1, 2, 3, 4, 5], p=[.15, .35, .3, .15, .05]))
        al = str(rng.choice(["default", "default", "jw", "maj", "rand"]))
        if al == "rand":
            n = min(n, 2)
        if al == "maj":
            n = min(n, 3)
        d = 2 ** n
        t = rng.integers(0, 6)
        rho = gint(rng, (d, d), density=float(rng.choice([0.2, 1.0])))
        if t == 0:
            rho = rho + rho.conj().T
        elif t == 1:
            rho = rho.real
        elif t == 2:
            rho = rho.real.astype(int)
        elif t == 3:
            v = gint(rng, (d, 1), -2, 2)
            rho = v @ v.conj().T
        elif t == 4:
            rho = np.diag(rng.integers(0, 9, d)).astype(float)
        if rng.random() < 0.2:
            rho = np.asfortranarray(rho)
        unit = float(rng.choice([1, 1, 0.0625, 2.0 ** -30, 4096]))
        one(n, rho, modes[it % 4], unit, al, ninfer=bool(rng.random() < 0.4))
    for it in range(ctx.q(48, 240)):                     # fewer modes than the register has, operators in any order
        reg = int(rng.choice([2, 2, 3]))
        rho = gint(rng, (2 ** reg, 2 ** reg), density=0.5)
        one(int(rng.integers(1, reg + (it % 12 == 0))), rho, modes[it % 4], 1.0, ["maj", "jw"][it // 4 % 2], reg=reg)
    for n in (2, 3, 3, 4, 4):                            # correlation_matrix and compute_cov_matrix of larger registers
        d = 2 ** n
        rho = gint(rng, (d, d), density=0.4)
        one(n, rho + rho.conj().T, "plain", 1.0, "default", ninfer=True)
        one(n, np.diag(rng.integers(0, 9, d)).astype(float), "plain", 1.0, "default", ninfer=True)
        one(n, rho + rho.conj().T, "cov", 1.0, "default", ninfer=bool(n % 2))
