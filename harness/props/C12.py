"""C12: random free-fermion states."""
import numpy as np

from rec import api, FXS, fxmat

MC = [{"module": "M_C12", "expect_states": 100, "workers": "3"},
      {"module": "M_C12", "cfg": "M_C12_deep.cfg", "tier": "thorough", "workers": "4"}]
USES_SCEN = False


def cert_of(rho, n):
    d = 2 ** n
    try:
        R = np.asarray(rho, complex)
        lam, V = np.linalg.eigh((R + R.conj().T) / 2)
        return {"V": fxmat(V, (d, d), cap=1.1)["m"], "lam": [int(round(x * FXS)) for x in lam], "b": 0, "c": 0}, lam, V
    except Exception:
        return {"V": [], "lam": [], "b": 0, "c": 0}, None, None


def drive(ctx):
    rng = ctx.rng

    def seeds():
        t = rng.integers(0, 4)
        return None if t == 0 else int(rng.choice([0, 1, 42])) if t == 1 else int(rng.integers(0, 2 ** 31))

    def mixed(fn, n, kw, gauss=True, fixedN=False, hasS=False, hasG=False, sig=None):
        d = 2 ** n
        v, exc, _ = ctx.call(api(fn), n, **kw)
        rho, s, G = v, None, None
        if (hasS or hasG) and exc == "":
            try:
                rho, x = v
                s, G = (x, None) if hasS else (None, x)
            except Exception:
                exc = "no pair returned"
        cert, lam, V = cert_of(rho, n)
        out = {"rho": fxmat(rho, (d, d), cap=1.01)}
        if hasS:
            out["s"] = fxmat(np.reshape(np.asarray(s), (1, -1)) if s is not None else None, (1, d), cap=1.01)
            cert["perm"] = [0] * d
            if out["s"]["ok"] and lam is not None:
                order = np.argsort(np.real(np.ravel(s)))
                cert["perm"] = [int(x) + 1 for x in order]
        if hasG:
            u = 1.0
            try:
                h = np.linalg.eigvalsh(np.asarray(G))
                while max(abs(h)) * u > 4:
                    u /= 2
                # inverse temperature: certificate from the extreme weights
                Gs = np.asarray(G) * u
                hs = np.real(np.diag(V.conj().T @ Gs @ V))
                ok = lam > 1e-6
                if ok.sum() > 1 and np.ptp(hs[ok]) > 1e-3:
                    b = -np.polyfit(hs[ok], np.log(lam[ok]), 1)[0]
                    if 0.01 < b < 7.9 and b * np.ptp(h * u) < 50:
                        cert["b"] = int(round(b * FXS))
                        cert["c"] = int(np.floor(h[0] * u * FXS))
            except Exception:
                pass
            out["G"] = fxmat(G, (d, d), cap=11, scale=u)
        ctx.emit("mixed", out, exc, "%s(%d, %s)" % (fn, n, kw), (("out", "rho", "m", 0, 0, 0), 30000), sig=sig,
                 fn=fn, n=n, gauss=gauss, fixedN=fixedN, hasS=hasS, hasG=hasG, cert=cert,
                 w=40 * 8 ** n + (12 * 8 ** n if hasG else 0))

    def pure(fn, n, kw, N=-1, fixedN=False, hasG=False, sig=None):
        d = 2 ** n
        v, exc, _ = ctx.call(api(fn), n, **kw)
        psi, G = v, None
        if hasG and exc == "":
            try:
                psi, G = v
            except Exception:
                exc = "no pair returned"
        out = {"psi": fxmat(psi, (d, 1), cap=1.01)}
        if hasG:
            out["G"] = fxmat(G, (d, d), cap=11)
        ctx.emit("pure", out, exc, "%s(%d, %s)" % (fn, n, kw), (("out", "psi", "m", 0, 0, 0), 30000), sig=sig,
                 fn=fn, n=n, N=N, fixedN=fixedN, hasG=hasG, w=60 * 4 ** n + (30 * 8 ** n if hasG else 0))

    for it in range(ctx.q(110, 1400)):
        n = int(rng.choice([1, 2, 3, 4], p=[.2, .4, .35, .05]))
        s = seeds()
        kw = {} if s is None else {"seed": s}
        if s is None:
            np.random.seed(int(rng.integers(0, 2 ** 31)))
        t = it % 11
        if t in (0, 1):
            g = rng.random() < .6
            mixed("random_FF_state", n, dict(kw, returnH=True) if g else kw, hasG=g)
        elif t in (2, 3):
            g = rng.random() < .6
            mixed("random_FF_state", n, dict(kw, fixedN=True, **({"returnH": True} if g else {})), fixedN=True, hasG=g)
        elif t == 4:
            mixed("random_FF_state_randH", n, kw)
        elif t == 5:
            S = rng.random() < .7
            mixed("random_FF_state_rotPDF", n, dict(kw, returnS=True) if S else kw, gauss=False, hasS=S)
        elif t == 6:
            pure("random_FF_pure_state_W0", n, kw, N=0)
        elif t in (7, 8):
            N = int(rng.integers(0, n + 1))
            if rng.random() < .75:
                pure("random_FF_pure_state_WN", n, dict(kw, N=N), N=N)
            else:
                pure("random_FF_pure_state_WN", n, kw)
        elif t == 9:
            pure("random_FF_pure_state_CN", n, kw)
        else:
            g = rng.random() < .7
            pure("random_FF_state", n, dict(kw, pure=True, **({"returnH": True} if g else {})), N=0, hasG=g)
    for n in (1, 2, 3):
        for N in range(n + 1):
            pure("random_FF_pure_state_WN", n, {"N": N, "seed": 0}, N=N)
    for n in (4, 4, 5, 5, 6):                          # larger registers
        s = int(rng.integers(0, 2 ** 31))
        pure("random_FF_pure_state_W0", n, {"seed": s}, N=0)
        N = int(rng.integers(0, n + 1))
        pure("random_FF_pure_state_WN", n, {"N": N, "seed": s}, N=N)
        if n < 6:
            pure("random_FF_pure_state_WN", n, {"seed": s})
            pure("random_FF_pure_state_CN", n, {"seed": s})
            pure("random_FF_state", n, {"pure": True, "seed": s}, N=0)
    for _ in range(ctx.q(2, 8)):
        s = int(rng.integers(0, 2 ** 31))
        mixed("random_FF_state_randH", 4, {"seed": s})
        mixed("random_FF_state_rotPDF", 4, {"seed": s, "returnS": True}, gauss=False, hasS=True)
        mixed("random_FF_state", 4, {"seed": s, "fixedN": True, "returnH": True}, fixedN=True, hasG=True)
    for n in (2, 3):
        pure("random_FF_state", n, {"pure": True, "fixedN": True, "seed": 5}, N=0, fixedN=True, sig="random_FF_state(pure,fixedN)")
    bad = [("random_FF_state_randH", (0,), "ValueError"), ("random_FF_state_randH", (2.0,), "TypeError"),
           ("random_FF_state_rotPDF", (-1,), "ValueError"), ("random_FF_state_rotPDF", ("2",), "TypeError"),
           ("random_FF_pure_state_W0", (0,), "ValueError"), ("random_FF_pure_state_W0", (1.5,), "TypeError"),
           ("random_FF_pure_state_CN", (-3,), "ValueError"), ("random_FF_pure_state_CN", (None,), "TypeError"),
           ("random_FF_pure_state_WN", (0,), "ValueError"), ("random_FF_pure_state_WN", (2.5,), "TypeError"),
           ("random_FF_pure_state_WN", (2, 3), "ValueError"), ("random_FF_pure_state_WN", (2, -1), "ValueError"),
           ("random_FF_pure_state_WN", (3, 4), "ValueError"), ("random_FF_pure_state_WN", (1, 2), "ValueError")]
    for fn, a, want in bad:
        v, exc, _ = ctx.call(api(fn), *a)
        ctx.emit("refuse", {"type": exc.split(":")[0]}, exc, "%s%r" % (fn, a), None, want=want)
