"""C22: clean, formatted_output, print_custom."""
import copy
import re

import numpy as np

from rec import api

MC = [{"module": "M_C22", "expect_states": 3000, "workers": "4"},
      {"module": "M_C22", "cfg": "M_C22_deep.cfg", "tier": "thorough", "workers": "4", "timeout": 850}]
ASSUMPTIONS = ["either neighbour is admissible at a rounding tie",
               "printed imaginary parts are zero or at least 1e-7 (print_custom drops what numpy.allclose calls zero)"]
CAP = 2 ** 30


def enc(x, q):
    """a scalar or array-like in units of 10^-q -> (real?, shape, flat values) or None"""
    try:
        A = np.asarray(x)
    except ValueError:
        return None
    if A.dtype.kind not in "iufc":
        return None
    B = A.astype(complex).ravel() * 10.0 ** q
    if B.size and (not np.all(np.isfinite(B)) or max(np.abs(B.real).max(), np.abs(B.imag).max()) > CAP):
        return None
    R, I = np.round(B.real), np.round(B.imag)
    if B.size and (np.abs(B.real - R).max() > 1e-4 or np.abs(B.imag - I).max() > 1e-4):
        return None
    return A.dtype.kind != "c", list(A.shape), [[int(a), int(b)] for a, b in zip(R, I)]


def cont(v):
    if isinstance(v, np.matrix):
        return "matrix"
    if isinstance(v, np.ndarray):
        return "ndarray"
    if isinstance(v, list):
        return "list"
    if isinstance(v, (int, float, complex, np.number)) and not isinstance(v, (bool, np.bool_)):
        return "scalar"
    return type(v).__name__


def make(vals, q, shape, kind, cplx, dt):
    z = [complex(a / 10 ** q, b / 10 ** q) if cplx else a / 10 ** q for a, b in vals]
    if kind == "scalar":
        return int(z[0]) if dt == "int" else z[0]
    A = np.array(z, dtype=complex if cplx else float).reshape(shape)
    if dt == "int":
        A = np.round(A).astype(int)
    if kind == "list":
        return A.tolist()
    return np.matrix(A) if kind == "matrix" else A


def drive(ctx):
    rng = ctx.rng
    clean, fmt, prt = api("clean"), api("formatted_output"), api("print_custom")

    def thr(nd, tt):
        return nd if tt == 10 and rng.random() < 0.7 else float("%de%d" % (tt, -(nd + 1)))

    def one(x, kind, q, nd, tt, cplx, shape, vals, ekind, **kw):
        keep = copy.deepcopy(x)
        t = thr(nd, tt)
        how = int(rng.integers(0, 2))
        if nd == 6 and tt == 10 and how:
            v, exc, _ = ctx.call(clean, x)
            call = "clean(%r)" % (keep,)
        else:
            v, exc, _ = ctx.call(clean, x, t) if how else ctx.call(clean, x, threshold=t)
            call = "clean(%r, %r)" % (keep, t)
        kept = bool(np.array_equal(np.asarray(x), np.asarray(keep)))
        e = enc(v, q) if exc == "" else None
        o = {"ok": e is not None, "cont": cont(v), "real": False, "shape": [], "vals": [], "kept": kept}
        can = None
        if e:
            o.update(real=e[0], shape=e[1], vals=e[2])
            if e[2]:
                can = (("out", "vals", 0, 0), 1)
        ctx.emit(ekind, o, exc, call, can, q=q, nd=nd, tt=tt, cont=kind, cplx=cplx, shape=shape, vals=vals, w=20 + len(vals), **kw)
        return v, e

    # sessions: the model's pairs, cleaned again and again
    sc = ctx.scen
    for t in range(min(len(sc), ctx.q(245, 245))):
        vals = [list(map(int, z)) for z in sc[t]["v"]]
        q = int(rng.integers(2, 10))
        kind = ["ndarray", "list", "matrix"][t % 3]
        ctx.emit("begin", {"ok": True}, "", "", None, sess=t, vals=vals, w=5)
        shape = [1, 2] if kind == "matrix" else [2]
        x, cplx = make(vals, q, shape, kind, True, ""), True
        for _ in range(3):
            nd, tt = [(q - 1, 10), (q - 1, 4), (q - 1, 25), (q - 2, 10), (q - 2, 4)][int(rng.integers(0, 5))]
            v, e = one(x, kind, q, nd, tt, cplx, shape, vals, "step", sess=t)
            if e is None or cont(v) not in ("matrix", "ndarray", "list") or e[1] != shape:
                break
            vals, cplx, x, kind = e[2], not e[0], v, cont(v)

    # free inputs: containers, shapes, dtypes, thresholds
    for i in range(ctx.q(900, 6000)):
        kind = ["ndarray", "list", "matrix", "scalar"][i % 4]
        q = int(rng.integers(1, 10))
        nd = int(rng.integers(max(-1, q - 4), q))
        tt = 10 if rng.random() < 0.5 else int(rng.integers(4, 32))
        cplx = bool(rng.random() < 0.5)
        dt = "int" if not cplx and rng.random() < 0.2 else ""
        if kind == "scalar":
            shape = []
        elif kind == "matrix":
            shape = [int(rng.integers(1, 4)), int(rng.integers(1, 4))]
        else:
            shape = [[0], [1], [3], [5], [2, 2], [1, 4], [3, 1], [2, 2, 2]][int(rng.integers(0, 8))] if i % 29 else [[40], [7, 6], [120], [3, 4, 5]][int(rng.integers(0, 4))]
        k = int(np.prod(shape)) if shape else 1
        cplx = cplx and k > 0
        p = 10 ** (q - nd)
        top = min(CAP - 1, max(50 * p, 10))
        span = [top, 3 * p, p, 2][int(rng.integers(0, 4))]
        span = max(1, min(top, span))

        def draw(sp):
            r = rng.random()
            m = int(rng.integers(-sp, sp + 1))
            if r < 0.15:
                m = 0
            elif r < 0.3:
                m = m // p * p
            elif r < 0.4:                         # just around the threshold
                m = (tt * 10 ** (q - nd - 1) + int(rng.integers(-1, 2))) * int(rng.choice([-1, 1]))
            return max(-CAP + 1, min(CAP - 1, m))
        imspan = [span, max(1, min(span, tt * 10 ** (q - nd - 1) - 1)), 1][int(rng.integers(0, 3))]
        vals = [[draw(span), draw(imspan) if cplx else 0] for _ in range(k)]
        if cplx and imspan < span:
            t0 = tt * 10 ** (q - nd - 1)
            vals = [[a, b if abs(b) < t0 else (b % t0)] for a, b in vals]
            if rng.random() < 0.3 and k:
                vals[int(rng.integers(0, k))][1] = t0
        if dt == "int":
            u = 10 ** q
            vals = [[max(-(CAP // u), min(CAP // u, a)) * u, 0] for a, _ in vals]
        x = make(vals, q, shape, kind, cplx, dt)
        one(x, kind, q, nd, tt, cplx, shape, vals, "clean")

    # strings
    for i in range(ctx.q(80, 400)):
        q = int(rng.integers(1, 7))
        nd = int(rng.integers(0, q))
        if i % 3:
            m = int(rng.integers(0, 10 ** 6)) if i % 2 else int(rng.integers(0, 10 ** q))
            s = str(m).rjust(q + 1, "0")
            text = s[:-q] + "." + s[-q:]
            if i % 5 == 0:
                m = int(rng.integers(0, 900))
                text, m = str(m), m * 10 ** q
            if abs(m) >= CAP:
                continue
            num = True
        else:
            text = str(rng.choice(["abc", "-1.25", "1e-3", "", "1.2.3", " 1", ".", "nan", "1j", "1,5", "x1", "\u00bd", "2\u00b2", "inf", "+3", "0x10", "1_000"]))
            m, num = 0, False
        v, exc, _ = ctx.call(clean, text, nd) if i % 2 else ctx.call(clean, text, float("1e-%d" % nd))
        o = {"ok": False, "m": 0, "text": v if isinstance(v, str) else "?%r" % (v,)}
        if num and isinstance(v, str):
            try:
                e = enc(float(v), q)
                if e:
                    o.update(ok=True, m=e[2][0][0])
            except ValueError:
                pass
        ctx.emit("string", o, exc, "clean(%r, %d)" % (text, nd), (("out", "m"), 10 ** q * 7 + 3) if num else (("out", "text"), "?"),
                 fn="num" if num else "text", numeric=num, m=m, q=q, nd=nd, text=text, w=5)

    # formatted_output
    class Odd:
        def __str__(self):
            return "<odd>"
    for i in range(ctx.q(300, 2000)):
        e = int(rng.integers(0, 10))
        u = int(rng.integers(-10 ** 6, 10 ** 6)) if i % 3 else int(rng.integers(-20, 21))
        if i % 7 == 0:
            e = 0
        elif e > 0 and i % 11 == 0:
            u = u // 10 * 10 + 5                       # ties
        w, f = int(rng.choice([0, 1, -1, 5, 50, 12345, -99])), int(rng.choice([0, 3, 6, 9]))
        if rng.random() < 0.35:
            f = int(rng.choice([10, 11, 12, 13]))
            w = int(rng.choice([1, 2, -1, 10, 99, 100, 101, 500, 1001, 0, -100, -1000]))
        prec = int(rng.integers(0, 9))
        kind = ["int", "float", "complex", "other", "float", "complex"][i % 6]
        if kind == "int":
            x, e = u, 0
        elif kind == "float":
            x = u / 10 ** e
        elif kind == "complex":
            x = complex(u / 10 ** e, w / 10 ** f)
        else:
            x = [None, "text", [1.25, 2], {"a": 1}, (1, 2), np.array([1.5, 2.0]), Odd(), np.float32(0.25), np.int64(7), set()][int(rng.integers(0, 10))]
        num = "other" if kind == "other" else "complex" if kind == "complex" else "real"
        if kind != "other" and (abs(u) // 10 ** e) > 10 ** 8:
            continue
        if i % 5 == 0:
            prec = 6
            v, exc, _ = ctx.call(fmt, x)
        else:
            v, exc, _ = ctx.call(fmt, x, prec) if i % 2 else ctx.call(fmt, x, precision=prec)
        o = {"text": v if isinstance(v, str) else "?%r" % (v,)}
        if num != "other" and max(abs(u), abs(w)) * 10 ** max(0, prec) > 10 ** 30:
            continue
        # |im| = 1e-10 exactly is a tie in floating point only when the literal is: it is shown
        ctx.emit("format", o, exc, "formatted_output(%r, %d)" % (x, prec), (("out", "text"), o["text"] + "0"), fn=num, num=num,
                 re=[u, e], im=[w if kind == "complex" else 0, f if kind == "complex" else 0], prec=prec, str=str(x) if num == "other" else "", w=8)

    # print_custom
    NUM = r"\d+\.?\d*(?:[eE][-+]?\d+)?"
    for i in range(ctx.q(150, 900)):
        k = int(rng.integers(2, 9)) if i % 4 else 9
        q = min(8, k + 1) if k < 8 else 8
        kind = ["ndarray", "list", "matrix", "scalar", "other"][i % 5]
        cplx = i % 3 == 0
        shape = {"scalar": [], "matrix": [2, 2], "other": []}.get(kind) if kind in ("scalar", "matrix", "other") else [[3], [2, 2], [1]][int(rng.integers(0, 3))]
        cnt = int(np.prod(shape)) if shape else 1
        vals = []
        for _ in range(cnt):
            v = int(rng.integers(10 ** (q - 2), 10 ** (q + 1) - 10 ** (q - 2))) * int(rng.choice([-1, 1]))
            w = 0
            if cplx:
                w = [0, 10, int(rng.integers(10 ** (q - 2), 10 ** q)), 10 ** max(1, q - k)][int(rng.integers(0, 4))]
                w = w if w / 10 ** q >= 1e-7 else 0
            if rng.random() < 0.2:
                v = int(rng.integers(-1, 2)) * 10 ** max(0, q - k) // 2
            vals.append([v, w])
        if k >= q and kind != "other":           # nothing to round: the lattice has to reach the digits
            q2 = 9
            f = 10 ** (q2 - q) if k == 9 else 1
            if k == 9:
                vals = [[a // 10 ** 1 * f if abs(a * f) >= CAP else a * f, b * f if abs(b * f) < CAP else 0] for a, b in vals]
                vals = [[a if abs(a) < CAP else 10 ** 8, b] for a, b in vals]
                q = q2
            else:
                continue
        if kind == "other":
            x = ["text", None, {"a": 1}, (1, 2), {3}][int(rng.integers(0, 5))]
        else:
            x = make(vals, q, shape, kind, cplx, "")
        opts = dict(np.get_printoptions())
        p0 = int(rng.choice([3, 5, 8, 12]))
        np.set_printoptions(precision=p0)
        v, exc, text = ctx.call(prt, x) if k == 9 else ctx.call(prt, x, k)
        now = dict(np.get_printoptions())
        want = dict(opts, precision=p0)
        np.set_printoptions(**{a: b for a, b in opts.items() if a not in ("legacy", "override_repr")})
        o = {"ok": False, "real": False, "vals": [], "text": text.rstrip("\n"), "restored": all(now[a] == want[a] for a in now)}
        if kind != "other":
            real = "j" not in text
            if real:
                got = [(a, "0") for a in re.findall(r"[-+]?" + NUM, text)]
            else:
                got = re.findall(r"([-+]?" + NUM + r")\s*([-+]\s*" + NUM + r")j", text)
            try:
                z = [complex(text.strip())] if kind == "scalar" else [complex(float(a), float(b.replace(" ", ""))) for a, b in got]
                e = enc(np.array(z, dtype=complex), q)
                if e and z:
                    o.update(ok=True, real=real, vals=e[2])
            except ValueError:
                pass
        ctx.emit("print", o, exc, "print_custom(%r, %d)" % (x, k), (("out", "vals", 0, 0), 1) if o["ok"] else (("out", "text"), "?"),
                 fn="other" if kind == "other" else "num", num=kind != "other", q=q, k=k, vals=vals if kind != "other" else [],
                 str=str(x) if kind == "other" else "", w=15)

    import scipy.sparse as sps
    for x in (None, {}, {"a": 1}, (1, 2), {1, 2}, sps.eye(2).tocsr(), object(), b"1", range(3)):
        v, exc, _ = ctx.call(clean, x, 3)
        ctx.emit("refuse", {"type": exc.split(":")[0] if exc else "none"}, "", "clean(%r)" % (x,), (("out", "type"), "x"), w=3)
