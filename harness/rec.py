"""Recording the real code's behaviour as trace events."""
import contextlib
import io
import math
import random
import signal
import warnings

import numpy as np

INTMAX = 2 ** 30


class CallTimeout(Exception):
    pass


def _alarm(*_):
    raise CallTimeout("call did not return in time")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.events = []
        self.scen = []
        self.rng = np.random.default_rng([seed, int(pid[1:])])
        self.pyr = random.Random(seed * 1000 + int(pid[1:]))
        self.forms = FORMS.get(pid, ("layout", "dtype"))
        self.form, self.calls = [], 0

    def start(self):
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        signal.signal(signal.SIGALRM, _alarm)

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def emit(self, kind, out, exc="", call="", canary=None, **kw):
        ev = {"id": len(self.events) + 1, "kind": kind}
        ev.update(kw)
        ev["out"] = out
        ev["exc"] = exc
        ev["call"] = call + (" [arguments passed as: %s]" % "; ".join(self.form) if self.form else "")
        self.form = []
        ev["canary"] = canary
        self.events.append(ev)
        return ev

    def call(self, fn, *a, **k):
        """Returns (value, exception text, stdout)."""
        limit = k.pop("_limit", 60)
        if k.pop("_forms", True) and self.forms and getattr(fn, "__name__", "") not in IN_PLACE:
            self.calls += 1
            r = random.Random(self.seed * 7919 + self.calls)
            a = tuple(self.vary(x, r, "argument %d" % (i + 1)) for i, x in enumerate(a))
            k = {n: self.vary(x, r, n) for n, x in k.items()}
        buf = io.StringIO()
        signal.alarm(limit)
        try:
            with contextlib.redirect_stdout(buf), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                v = fn(*a, **k)
            signal.alarm(0)
            return v, "", buf.getvalue()
        except CallTimeout as e:
            return None, "CallTimeout: %s" % e, buf.getvalue()
        except Exception as e:  # noqa
            return None, "%s: %s" % (type(e).__name__, str(e)[:200]), buf.getvalue()
        except SystemExit as e:
            return None, "SystemExit: %s" % e, buf.getvalue()
        finally:
            signal.alarm(0)


    def vary(self, x, r, name):
        """The same value in another memory layout or number type, now and then: no result may depend on it."""
        if type(x) is list and x and all(type(y) is np.ndarray and y.ndim == 2 for y in x):
            lay = r.choice(LAYOUTS)
            if lay == "C" or "layout" not in self.forms:
                return x
            self.form.append("%s: %s" % (name, lay))
            return [layout(y, lay) for y in x]
        if type(x) is not np.ndarray or x.ndim not in (1, 2) or x.size == 0 or x.dtype.kind not in "iufc" or not x.flags.writeable:
            return x
        if "dtype" in self.forms and (x.ndim == 2 or x.dtype.kind != "i") and x.dtype in (np.dtype(float), np.dtype(complex), np.dtype(np.int64)) and r.random() < 0.4:
            to = [complex]
            if not np.any(np.asarray(x).imag):
                to.append(float)
                if np.all(np.isfinite(x)) and np.all(np.abs(x) <= 10) and np.array_equal(x.real, np.round(x.real)) \
                        and not np.any(np.signbit(x.real) & (x.real == 0)):
                    to.append(np.int64)
            t = np.dtype(r.choice(to))
            if t != x.dtype:
                self.form.append("%s: dtype %s" % (name, t))
                x = (x.real if t.kind != "c" else x).astype(t)
        lay = r.choice(LAYOUTS) if "layout" in self.forms and x.size > 1 else "C"
        if lay == "C":
            return x
        self.form.append("%s: %s" % (name, lay))
        return layout(x, lay)


LAYOUTS = ["C", "C", "C", "Fortran order", "every other entry of a larger array", "reversed strides", "read-only"]
# functions that work on their arguments in place
IN_PLACE = {"complete_face"}
# C14 compares the caller's own arrays before and after the call; where number types are part of what is
# recorded (C13, C22, C24) or labels are drawn (C21) they are left alone
FORMS = {"C13": ("layout",), "C14": (), "C21": ("layout",), "C22": ("layout",), "C24": ("layout",), "C36": ("layout",)}


def layout(x, how):
    if how == "Fortran order":
        return np.asfortranarray(x)
    if how == "every other entry of a larger array":
        big = np.full([2 * s + 1 for s in x.shape], 3, dtype=x.dtype)
        v = big[tuple(slice(1, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if how == "reversed strides":
        f = tuple(slice(None, None, -1) for _ in x.shape)
        return np.ascontiguousarray(x[f])[f]
    y = np.array(x)
    y.setflags(write=False)
    return y


def toint(x, tol=1e-6, cap=INTMAX):
    """nearest integer of a real number, or None when off the lattice"""
    if not math.isfinite(x):
        return None
    r = round(x)
    if abs(x - r) > tol * max(1.0, 1e-3 * abs(x)) or abs(r) > cap:
        return None
    return int(r)


def asnum(M):
    """numpy complex array of a result, or None"""
    try:
        if M is None:
            return None
        if hasattr(M, "toarray"):
            M = M.toarray()
        A = np.asarray(M)
        if A.dtype == object:
            A = np.array(A.tolist(), dtype=complex)
        if A.dtype.kind not in "biufc":
            return None
        return A.astype(complex)
    except Exception:
        return None


def lat(M, scale=1.0, tol=1e-6, cap=INTMAX, shape=None):
    """Encode a 2-D result on the lattice Z[i]/scale.
    -> {"ok":bool,"why":str,"m":[[[re,im],..],..]}"""
    A = asnum(M)
    if A is None:
        return {"ok": False, "why": "not numeric", "m": []}
    if A.ndim != 2 or (shape is not None and A.shape != tuple(shape)):
        return {"ok": False, "why": "shape %s" % (A.shape,), "m": []}
    A = A * scale
    if A.size and not np.all(np.isfinite(A)):
        return {"ok": False, "why": "not finite", "m": []}
    R, Im = np.round(A.real), np.round(A.imag)
    if A.size:
        t = tol * np.maximum(1.0, 1e-3 * np.abs(A))
        if np.any(np.abs(A.real - R) > t) or np.any(np.abs(A.imag - Im) > t):
            return {"ok": False, "why": "off lattice", "m": []}
        if max(np.abs(R).max(), np.abs(Im).max()) > cap:
            return {"ok": False, "why": "range", "m": []}
    return {"ok": True, "why": "",
            "m": [[[int(R[i, j]), int(Im[i, j])] for j in range(A.shape[1])]
                  for i in range(A.shape[0])]}


def ints(M):
    """exact integer/Gaussian integer input matrix -> nested [re, im]"""
    A = np.asarray(M).astype(complex)
    return [[[int(round(x.real)), int(round(x.imag))] for x in row] for row in A]


def sparse(M, scale=1.0, tol=1e-6, cap=INTMAX):
    """Encode a 2-D result sparsely: shape and nonzero [row, col, re, im]."""
    A = asnum(M)
    if A is None or A.ndim != 2:
        return None
    A = A * scale
    if A.size and not np.all(np.isfinite(A)):
        return None
    R, Im = np.round(A.real), np.round(A.imag)
    if A.size:
        t = tol * np.maximum(1.0, 1e-3 * np.abs(A))
        if np.any(np.abs(A.real - R) > t) or np.any(np.abs(A.imag - Im) > t):
            return None
        if max(np.abs(R).max(), np.abs(Im).max()) > cap:
            return None
    rr, cc = np.nonzero((R != 0) | (Im != 0))
    return {"shape": list(A.shape),
            "nz": [[int(r), int(c), int(R[r, c]), int(Im[r, c])] for r, c in zip(rr, cc)]}


def sparse_list(ops, scale=1.0, tol=1e-6):
    try:
        L = list(ops)
    except TypeError:
        return {"ok": False, "why": "not a list", "ops": []}
    enc = [sparse(o, scale, tol) for o in L]
    if any(e is None for e in enc):
        return {"ok": False, "why": "operator off lattice or not a matrix", "ops": []}
    return {"ok": True, "why": "", "ops": enc}


FXS = 2 ** 24


def fx(x, cap=60.0):
    x = float(x)
    if not math.isfinite(x) or abs(x) > cap:
        return None
    return int(round(x * FXS))


def fxmat(M, shape=None, cap=7.5, scale=1.0):
    """fixed point encoding (scale 2^24) of a 2-D result"""
    A = asnum(M)
    if A is None:
        return {"ok": False, "why": "not numeric", "m": []}
    if A.ndim != 2 or (shape is not None and A.shape != tuple(shape)):
        return {"ok": False, "why": "shape %s" % (A.shape,), "m": []}
    A = A * scale
    if A.size and (not np.all(np.isfinite(A)) or
                   max(np.abs(A.real).max(), np.abs(A.imag).max()) > cap):
        return {"ok": False, "why": "range", "m": []}
    R, Im = np.round(A.real * FXS), np.round(A.imag * FXS)
    return {"ok": True, "why": "",
            "m": [[[int(R[i, j]), int(Im[i, j])] for j in range(A.shape[1])]
                  for i in range(A.shape[0])]}


def r(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def api(name):
    """a public function of the library, wherever it is exported from"""
    import importlib
    for m in ("ff", "ff.ff_lib", "ff.ff_random_states", "ff.ff_distance_measures", "ff.ff_graph_theory",
              "ff.ff_combinatorics", "ff.ff_utils"):
        try:
            f = getattr(importlib.import_module(m), name, None)
        except ImportError:
            continue
        if callable(f):
            return f

    def missing(*a, **k):
        raise AttributeError("no public function %s" % name)
    return missing
