"""Contracts: concrete back end.  The same contract text is executed on the real library
(real numpy/scipy, sources of /repo) with concrete inputs and specifications evaluated with mpmath.

Used (1) to replay counterexamples found by the deductive back end on the code that runs and
(2) as the bounded stand-in for clauses outside the verifier's reach.

    python -m dv.concrete MODULE CONTRACT --seed S --runs N --seconds T [--replay FILE] -> JSON on stdout
"""
import argparse
import ast
import glob
import importlib
import itertools
import json
import os
import random
import sys
import time
import traceback
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
if __name__ == "__main__":
    sys.path.insert(0, REPO)

import numpy as np
import mpmath
from mpmath import mpf, mpc

mpmath.mp.dps = 30
STRICT = [True]      # exact comparisons (specifications, preconditions); False: rounding slack (postconditions)


class Discard(BaseException):
    pass


class Stop(BaseException):
    pass


class SpecUndefined(BaseException):
    pass


def mpv(x):
    if isinstance(x, V):
        return x.v
    if isinstance(x, CIn):
        return x.e.v
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return mpf(int(x))
    if isinstance(x, (float, np.floating)):
        if isinstance(x, np.longdouble) and x.dtype.itemsize > 8 and np.isfinite(x):
            hi = float(x)
            return mpf(hi) + mpf(float(x - np.longdouble(hi)))
        return mpf(float(x))
    if isinstance(x, (complex, np.complexfloating)):
        return mpc(float(x.real), float(x.imag))
    if isinstance(x, (mpf, mpc)):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return mpv(x[()])
    if type(x).__module__.startswith("mpmath"):
        return x + 0
    raise TypeError(f"not a scalar: {type(x)}")


def _slack(a, b):
    return mpf("1e-8") * (abs(a) + abs(b)) + mpf("1e-10")


class V:
    """a scalar value of a specification"""
    __slots__ = ("v",)
    __array_ufunc__ = None

    def __init__(self, v):
        self.v = mpv(v)

    def _b(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim:
            raise TypeError("array in scalar specification")
        try:
            return V(f(self.v, mpv(o)))
        except ZeroDivisionError:
            raise SpecUndefined("division by zero in a specification")
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: b / a)
    def __pow__(self, o): return self._b(o, lambda a, b: a ** (int(b) if not isinstance(b, mpc) and b == int(b) else b))
    def __rpow__(self, o): return self._b(o, lambda a, b: b ** (int(a) if not isinstance(a, mpc) and a == int(a) else a))
    def __floordiv__(self, o): return self._b(o, lambda a, b: mpmath.floor(a / b))
    def __mod__(self, o): return self._b(o, lambda a, b: a - b * mpmath.floor(a / b))
    def __neg__(self): return V(-self.v)
    def __pos__(self): return self
    def __abs__(self): return V(abs(self.v))

    @staticmethod
    def _cmp(a, b):
        if isinstance(a, mpc):
            a = a.real
        if isinstance(b, mpc):
            b = b.real
        return a, b

    def __lt__(self, o):
        a, b = self._cmp(self.v, mpv(o))
        return bool(a < b) if STRICT[0] else bool(a < b + _slack(a, b))
    def __le__(self, o):
        a, b = self._cmp(self.v, mpv(o))
        return bool(a <= b) if STRICT[0] else bool(a <= b + _slack(a, b))
    def __gt__(self, o):
        a, b = self._cmp(self.v, mpv(o))
        return bool(a > b) if STRICT[0] else bool(a > b - _slack(a, b))
    def __ge__(self, o):
        a, b = self._cmp(self.v, mpv(o))
        return bool(a >= b) if STRICT[0] else bool(a >= b - _slack(a, b))
    def __eq__(self, o):
        a, b = self.v, mpv(o)
        return bool(a == b) if STRICT[0] else bool(abs(a - b) <= 10 * _slack(a, b))
    def __ne__(self, o): return not (self == o)
    def __hash__(self): return hash(self.v)
    def __bool__(self): return bool(self.v != 0)
    def __int__(self): return int(self.v)
    __index__ = __int__
    def __float__(self): return float(self.v)
    def __complex__(self): return complex(self.v)
    @property
    def real(self): return V(mpmath.re(self.v))
    @property
    def imag(self): return V(mpmath.im(self.v))
    def __repr__(self): return f"V({mpmath.nstr(self.v, 17)})"


class CIn:
    __array_ufunc__ = None

    def __init__(self, name, shape, v, get):
        self.name, self.shape, self.v, self._get = name, shape, v, get

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        return self._get(tuple(int(i) for i in idx))

    @property
    def e(self):
        return self._get(())

    def _o(self, o):
        return o.e if isinstance(o, CIn) else o
    def __add__(self, o): return self.e + self._o(o)
    def __radd__(self, o): return self._o(o) + self.e
    def __sub__(self, o): return self.e - self._o(o)
    def __rsub__(self, o): return self._o(o) - self.e
    def __mul__(self, o): return self.e * self._o(o)
    def __rmul__(self, o): return self._o(o) * self.e
    def __truediv__(self, o): return self.e / self._o(o)
    def __rtruediv__(self, o): return self._o(o) / self.e
    def __pow__(self, o): return self.e ** self._o(o)
    def __neg__(self): return -self.e
    def __lt__(self, o): return self.e < self._o(o)
    def __le__(self, o): return self.e <= self._o(o)
    def __gt__(self, o): return self.e > self._o(o)
    def __ge__(self, o): return self.e >= self._o(o)


def unwrap(x):
    if isinstance(x, CIn):
        return x.v
    if isinstance(x, V):
        v = x.v
        return complex(v) if isinstance(v, mpc) else (int(v) if isinstance(v, int) else float(v))
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(unwrap(v) for v in x)
    if isinstance(x, dict):
        return {k: unwrap(v) for k, v in x.items()}
    return x


DICT = []      # thresholds of the code under test which the reference tree does not have (guides the sampling only)


INTS = 0.12      # share of the real inputs which are given as integers


def code_thresholds():
    """numbers that the sources compare with"""
    out = set()
    for f in sorted(glob.glob(os.path.join(REPO, "gftool", "**", "*.py"), recursive=True)):
        if "/tests/" in f:
            continue
        try:
            tree = ast.parse(open(f).read())
        except (SyntaxError, OSError):
            continue
        nodes = [n for n in ast.walk(tree) if isinstance(n, (ast.Compare, ast.Slice))]
        nodes += [n.value for n in tree.body if isinstance(n, ast.Assign) and not isinstance(n.value, ast.Dict)]
        nodes += [n for f_ in ast.walk(tree) if isinstance(f_, (ast.FunctionDef, ast.Lambda)) for n in f_.args.defaults + f_.args.kw_defaults if n]
        nodes += [n.value for n in ast.walk(tree) if isinstance(n, ast.keyword)]
        for n in nodes:
            for c in ast.walk(n):
                if isinstance(c, ast.Constant) and type(c.value) in (int, float) and abs(c.value) not in (0, 1, 2):
                    out.add(abs(float(c.value)))
    return sorted(x for x in out if x < 1e300)


def new_thresholds():
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "thresholds.json")
    known = set(json.load(open(f))) if os.path.exists(f) else None
    return [] if known is None else [x for x in code_thresholds() if x not in known]


def sample_real(rng, lo, hi, lo_open, hi_open, special, mag, true=None):
    for _ in range(200):
        if DICT and rng.random() < 0.2:
            v = rng.choice(DICT) * rng.choice([1, 1, 1, -1]) * rng.choice([1, 1, 0.5, 0.875, 1.125, 2, 4])
            a, b, ao, bo = true or (lo, hi, lo_open, hi_open)
            if (a is None or v > a or (v == a and not ao)) and (b is None or v < b or (v == b and not bo)):
                return v
        u = rng.random()
        if special and u < 0.25:
            v = float(rng.choice(list(special)))
        elif u < 0.38:
            v = float(rng.choice([0, 1, -1, 2]))
        else:
            s = mag if mag is not None else rng.choice([1, 1, 2, 4])
            if u < 0.6:
                v = rng.randint(-32, 32) / 16 * s
            else:
                v = rng.uniform(-2, 2) * s
            if lo is not None and hi is not None:
                w = rng.randint(0, 64) / 64 if u < 0.6 else rng.random()
                v = float(lo) + (float(hi) - float(lo)) * w
            elif lo is not None:
                v = float(lo) + abs(v)
            elif hi is not None:
                v = float(hi) - abs(v)
        if lo is not None and (v < lo or (lo_open and v == lo)):
            continue
        if hi is not None and (v > hi or (hi_open and v == hi)):
            continue
        return v
    raise Discard


class ConKit:
    symbolic = False
    LinAlgError = np.linalg.LinAlgError

    def __init__(self, rng, prefix=(), overrides=None, dims_big=True):
        self.rng = rng
        self.prefix = list(prefix)
        self.trace = []
        self.over = overrides or {}
        self.inputs = {}
        self.failures = []
        self.checked = {}
        self.pi = V(mpmath.mp.pi + 0)
        self.I = V(mpc(0, 1))
        self.inf = V(mpf("inf"))
        self.calls = set()
        self.undefined = 0

    # inputs
    def choice(self, name, options):
        options = list(options)
        if name in self.over and "choice" in self.over[name]:
            r = self.over[name]["choice"]
            i = next((i for i, o in enumerate(options) if repr(o) == r), 0)
        elif len(self.trace) < len(self.prefix):
            i = self.prefix[len(self.trace)] % len(options)
        else:
            i = self.rng.randrange(len(options))
        self.trace.append((i, len(options)))
        self.inputs[name] = {"choice": repr(options[i])}
        return options[i]

    def dim(self, name, lo=1, hi=None, bounded=(1, 2, 3)):
        if hi is not None and hi == lo:
            return lo
        if name in self.over and "dim" in self.over[name]:
            v = int(self.over[name]["dim"])
        else:
            v = self.rng.choice([lo, lo + 1, lo + 2, lo + 3, lo + 1, lo + 2, lo + 5])
            if DICT and self.rng.random() < 0.15:
                w = int(self.rng.choice(DICT)) + self.rng.choice([-1, 0, 1])
                v = w if lo <= w <= 40 else v
            if hi is not None:
                v = min(v, hi)
        self.inputs[name] = {"dim": v}
        return v

    def int(self, name, lo=None, hi=None, bounded=(0, 1, 2, 3)):
        if name in self.over and "dim" in self.over[name]:
            v = int(self.over[name]["dim"])
        else:
            a = -3 if lo is None else lo
            b = (a + 6) if hi is None else hi
            v = self.rng.randint(a, b)
            if DICT and self.rng.random() < 0.15:
                w = int(self.rng.choice(DICT)) + self.rng.choice([-1, 0, 1])
                v = w if a <= w and (w <= b if hi is not None else w <= 64) else v
        self.inputs[name] = {"dim": v}
        return v

    def _declare(self, name, shape, kind, sampler, layout=True, whole=None):
        shape = tuple(int(s) for s in shape)
        n = int(np.prod(shape, dtype=int)) if shape else 1
        ov = self.over.get(name)
        real = kind
        vals = None
        if ov and "value" in ov and tuple(ov.get("shape", ())) == shape:
            raw = ov["value"] if shape else [ov["value"]]
            vals = [complex(*x) if isinstance(x, (list, tuple)) else x for x in raw]
            if kind == "c":
                vals = [complex(x) for x in vals]
            if ov.get("integers"):
                vals, real = [int(x) for x in vals], "i"
        if vals is None:
            vals = [sampler(self.rng) for _ in range(n)]
            if whole is not None and layout and self.rng.random() < INTS:
                # real numbers may be given as integers, the dtype must not matter
                ints = [whole(x) for x in vals]
                if None not in ints:
                    vals, real = ints, "i"
        dt = {"f": float, "i": int, "c": complex, "b": bool}[real]
        self.inputs[name] = {"kind": kind, "integers": real != kind, "shape": list(shape),
                             "value": [[v.real, v.imag] if kind == "c" else v for v in vals] if shape else ([vals[0].real, vals[0].imag] if kind == "c" else vals[0])}
        if not shape:
            v = dt(vals[0])
            exact = V(v)
            u = self.rng.random() if layout else 1.0
            if layout == "array" or (u < 0.2 and layout):
                v = np.asarray(v)
            elif u < 0.4:
                v = np.asarray(v)[()]
            r = CIn(name, shape, v, lambda idx: exact)
            r.kind = kind
            r.snap = np.array(v, copy=True)
            self.inputs[name]["_in"] = r
            return r
        base = np.array(vals, dtype=dt).reshape(shape)
        u = self.rng.random() if layout else 1.0
        arr = base.copy()
        if u < 0.15:
            arr = np.asfortranarray(base)
        elif u < 0.3:
            big = np.zeros(tuple(2 * s for s in shape), dtype=dt)
            v = big[tuple(slice(None, None, 2) for _ in shape)]
            v[...] = base
            arr = v
        elif u < 0.4:
            arr = base[tuple(slice(None, None, -1) for _ in shape)].copy()[tuple(slice(None, None, -1) for _ in shape)]
        snap = base.copy()
        r = CIn(name, shape, arr, lambda idx: V(snap[idx]))
        r.kind = kind
        r.snap = snap
        self.inputs[name]["_in"] = r
        return r

    def real(self, name, shape=(), lo=None, hi=None, lo_open=False, hi_open=False, pos=False, kind="f", special=(), mag=None,
             dtypes=None, layout=True, noint=False, samp=None):
        """lo/hi/pos: preconditions; samp: range of the sampled values only"""
        if pos:
            lo, lo_open = 0, True
        lo_, hi_, lo_open_, hi_open_ = (*samp, False, False) if samp else (lo, hi, lo_open, hi_open)

        def sampler(rng):
            v = sample_real(rng, lo_, hi_, lo_open_, hi_open_, special, mag, (lo, hi, lo_open, hi_open))
            if kind == "i":
                v = int(v)
                if lo is not None and (v < lo or (lo_open and v == lo)):
                    v += 1
            return v

        def whole(x):
            v = int(round(x))
            if abs(x) > 1e6 or v != v:
                return None
            for v in (v, v + 1, v - 1):
                if all((a is None or v > a or (v == a and not o)) and (b is None or v < b or (v == b and not p))
                       for a, b, o, p in ((lo, hi, lo_open, hi_open), (lo_, hi_, lo_open_, hi_open_))):
                    return v
            return None
        return self._declare(name, shape, kind, sampler, layout, whole if kind == "f" and not noint else None)

    def complex(self, name, shape=(), im=None, mag=None, special=(), re=None, layout=True):
        def sampler(rng):
            r = sample_real(rng, None, None, False, False, special, mag)
            i = sample_real(rng, None, None, False, False, (), mag)
            if im in ("pos", "neg"):
                i = abs(i) + 1 / 16
                if im == "neg":
                    i = -i
            elif im == "nonneg":
                i = abs(i)
            elif im == "nonzero" and i == 0:
                i = 3 / 16
            return complex(r, i)
        return self._declare(name, shape, "c", sampler, layout)

    def const(self, value):
        return value

    def derived(self, name, shape, kind, f):
        """an input array defined from other inputs"""
        shape = tuple(int(s) for s in shape)
        dt = {"f": float, "i": int, "c": complex, "b": bool}[kind]
        arr = np.empty(shape, dtype=dt)
        for idx in itertools.product(*[range(s) for s in shape]):
            val = mpv(f(*idx))
            arr[idx] = complex(val) if kind == "c" else (int(val) if kind == "i" else float(mpmath.re(val)))
        snap = arr.copy()
        r = CIn(name, shape, arr if shape else arr[()], lambda idx: V(snap[idx]))
        r.kind, r.snap = kind, snap
        self.inputs[name] = {"derived": True, "_in": r}
        return r

    def assume(self, c):
        if not bool(c if not isinstance(c, V) else c.v):
            raise Discard

    def assume_forall(self, f, *dims):
        for idx in itertools.product(*[range(int(d)) for d in dims]):
            self.assume(f(*idx))

    # specification functions
    def _m(self, x):
        return mpv(x)

    def exp(self, x): return V(mpmath.exp(mpv(x)))
    def log(self, x):
        v = mpv(x)
        if v == 0:
            raise SpecUndefined("log 0")
        return V(mpmath.log(v))
    def conj(self, x): return V(mpmath.conj(mpv(x)))
    def re(self, x): return V(mpmath.re(mpv(x)))
    def im(self, x): return V(mpmath.im(mpv(x)))
    def abs(self, x): return V(abs(mpv(x)))
    def sqrt(self, x): return V(mpmath.sqrt(mpv(x)))
    def rsqrt(self, x): return V(mpmath.sqrt(mpv(x)))
    def ellipk(self, m):
        m = mpv(m)
        if m == 1:
            raise SpecUndefined("ellipk(1)")
        return V(mpmath.ellipk(m))
    def jv(self, n, x): return V(mpmath.besselj(n, mpv(x)))
    def pow(self, x, n): return V(x) ** n
    def min(self, a, b): return a if mpv(a) <= mpv(b) else b
    def max(self, a, b): return a if mpv(a) >= mpv(b) else b
    def sin(self, x): return V(mpmath.sin(mpv(x)))
    def cos(self, x): return V(mpmath.cos(mpv(x)))

    def ite(self, c, a, b):
        r = a if bool(c if not isinstance(c, V) else c.v) else b
        r = r() if callable(r) else r
        return r if isinstance(r, int) else V(r)

    def and_(self, *cs): return all(bool(c) for c in cs)
    def or_(self, *cs): return any(bool(c) for c in cs)
    def not_(self, c): return not bool(c)
    def implies(self, a, b):
        if callable(a):       # hypotheses are decided exactly
            old = STRICT[0]
            STRICT[0] = True
            try:
                a = a()
            finally:
                STRICT[0] = old
        if not bool(a):
            return True
        b = b() if callable(b) else b
        return bool(b)

    def eq(self, a, b):
        return V(a) == V(b)

    def sum(self, f, *rng):
        lo, hi = (0, rng[0]) if len(rng) == 1 else rng
        s = V(mpf(0))
        for i in range(int(lo), int(hi)):
            s = s + f(i)
        return s

    def amax(self, f, n):
        r = f(0)
        for i in range(1, int(n)):
            r = self.max(r, f(i))
        return r

    def prod(self, f, *rng):
        lo, hi = (0, rng[0]) if len(rng) == 1 else rng
        s = V(mpf(1))
        for i in range(int(lo), int(hi)):
            s = s * f(i)
        return s

    def forall(self, f, *dims):
        return all(bool(f(*i)) for i in itertools.product(*[range(int(d)) for d in dims]))

    def exists(self, f, *dims):
        return any(bool(f(*i)) for i in itertools.product(*[range(int(d)) for d in dims]))

    def frac(self, a, b=1): return V(mpf(a) / b)

    def fdiv(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a // b
        return V(mpmath.floor(mpv(a) / mpv(b)))

    def delta(self, i, j): return 1 if int(i) == int(j) else 0

    def ghost(self, name, rec, kind="f", pos=-1, arity=None):
        memo = {}

        def g(*idx):
            idx = tuple(int(i) for i in idx)
            if idx not in memo:
                memo[idx] = rec(*idx)
            return memo[idx]
        return g

    def loop(self, *a, **k):
        pass

    def iterations(self, path, results):
        return list(enumerate(results))

    nan = float("nan")

    def need_loops(self):
        pass

    def ufun(self, name, f_np, kind="c", f_mp=None):
        """a function argument supplied by the caller: arbitrary for the proof, f_np here"""
        def g(x, *a, **kw):
            if isinstance(x, (V, CIn)):
                return V((f_mp or f_np)(mpv(x)))
            return f_np(x)
        g.__name__ = name
        return g

    def out(self, res):
        a = np.asarray(res)
        return CIn("result", a.shape, res, lambda idx: V(a[idx]))

    def as_array(self, x): return np.asarray(x)

    # calls
    def fn(self, path):
        parts = path.split(".")
        for n in range(len(parts), 0, -1):
            try:
                obj = importlib.import_module(".".join(parts[:n]))
            except ModuleNotFoundError:
                continue
            for a in parts[n:]:
                obj = getattr(obj, a)
            return obj
        raise AttributeError(path)

    def _fname(self, f):
        return f if isinstance(f, str) else getattr(f, "__name__", str(f))

    def _call(self, f, args, kw):
        self.calls.add(self._fname(f))
        s = STRICT[0]
        STRICT[0] = True
        try:
            g = self.fn(f) if isinstance(f, str) else f
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                return True, g(*unwrap(args), **unwrap(kw))
        except Exception as e:
            return False, e
        finally:
            STRICT[0] = s

    def call(self, f, *args, **kw):
        ok, r = self._call(f, args, kw)
        self._count(f"no-exception:{self._fname(f)}")
        if not ok:
            tb = traceback.extract_tb(r.__traceback__)
            self.fail(f"no-exception:{self._fname(f)}", exc=f"{type(r).__name__}: {r}", at=f"{tb[-1].filename}:{tb[-1].lineno}")
            raise Stop
        return r

    def call_raises(self, exc, when, f, *args, **kw):
        ok, r = self._call(f, args, kw)
        when = bool(when)
        nm = self._fname(f)
        self._count(f"raises:{nm}")
        if ok:
            if when:
                self.fail(f"raises-when-required:{nm}", exc="no exception raised")
                raise Stop
            return r
        if isinstance(r, exc):
            if not when:
                self.fail(f"raises-only-when-allowed:{nm}", exc=f"{type(r).__name__}: {r}")
        else:
            self.fail(f"no-exception:{nm}", exc=f"{type(r).__name__}: {r}")
        raise Stop

    def call_or(self, exc, f, *args, **kw):
        ok, r = self._call(f, args, kw)
        if not ok and not isinstance(r, exc):
            self.fail(f"no-exception:{self._fname(f)}", exc=f"{type(r).__name__}: {r}")
            raise Stop
        return ok, r

    def stable(self, f, *args, at=0, eps=1e-13, amp=1e5, post=None, **kw):
        """precondition of numerical clauses: a relative perturbation eps of argument number `at` changes no entry of the result by more than amp*eps
        (relative to the largest entry).  Badly conditioned samples are discarded; a result that is reproducibly wrong is not."""
        def flat(r):
            if post is not None:
                r = post(r)
            if isinstance(r, (tuple, list)):
                return np.concatenate([flat(x) for x in r]) if len(r) else np.zeros(0)
            return np.asarray(r).astype(complex).reshape(-1)
        raw = [a.v if isinstance(a, CIn) else a for a in args]
        x = np.array(raw[at])
        noise = 1 + eps * np.cos(7.0 * (1 + np.arange(x.size))**2).reshape(x.shape)
        g = self.fn(f) if isinstance(f, str) else f
        try:
            with np.errstate(all="ignore"), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r1 = flat(g(*[np.array(a) if isinstance(a, np.ndarray) else a for a in raw], **kw))
                r2 = flat(g(*[x * noise if i == at else a for i, a in enumerate(raw)], **kw))
        except Exception:
            return
        ok = r1.shape == r2.shape and bool(np.all(np.isfinite(r1))) and bool(np.all(abs(r1 - r2) <= amp * eps * (1e-300 + np.max(abs(r1), initial=0))))
        self.assume(ok)

    # obligations
    def _count(self, name):
        self.checked[name] = self.checked.get(name, 0) + 1

    def fail(self, name, **kw):
        self.failures.append(dict(clause=name, **kw))

    def ensure(self, name, cond, *dims):
        self._count(name)
        STRICT[0] = False
        try:
            if not dims and not callable(cond):
                if not bool(cond if not isinstance(cond, V) else cond.v):
                    self.fail(name)
                return
            for idx in itertools.product(*[range(int(d)) for d in dims]):
                try:
                    c = cond(*idx)
                except SpecUndefined:
                    continue
                except IndexError as e:
                    self.fail(name, index=idx, exc=str(e))
                    return
                if not bool(c if not isinstance(c, V) else c.v):
                    self.fail(name, index=list(idx))
                    return
        finally:
            STRICT[0] = True

    def ensure_shape(self, name, res, shape):
        self._count(name + ":shape")
        shape = tuple(int(s) for s in shape)
        got = np.shape(res)
        if got != shape:
            self.fail(name + ":shape", got=list(got), want=list(shape))
            return False
        return True

    def ensure_eq(self, name, res, spec, shape=None, tol=None, scale=None, atol=None, rel=None):
        """tol: relative to the largest entry; rel: every entry on its own"""
        shape = () if shape is None else tuple(int(s) for s in shape)
        if not self.ensure_shape(name, res, shape):
            return
        self._count(name)
        a = np.asarray(res)
        tol = mpf(1e-7 if tol is None else tol)
        items = []
        sc = mpf(0)
        for idx in itertools.product(*[range(s) for s in shape]):
            try:
                want = spec(*idx) if callable(spec) else spec
                if not isinstance(want, (bool, np.bool_)):
                    want = mpv(want)
            except SpecUndefined:
                self.undefined += 1
                continue
            if isinstance(want, (bool, np.bool_)):
                if bool(a[idx]) != bool(want):
                    self.fail(name, index=list(idx), got=str(a[idx]), want=str(want))
                    return
                continue
            if mpmath.isnan(want) or mpmath.isinf(want):
                self.undefined += 1
                continue
            sc = max(sc, abs(want))
            items.append((idx, want))
        if scale is not None:
            sc = max(sc, abs(mpv(scale() if callable(scale) else scale)))
        at = mpf(1e-10 if atol is None else atol)
        for idx, want in items:
            got = a[idx]
            try:
                g = mpv(got)
            except TypeError:
                self.fail(name, index=list(idx), got=repr(got), want=mpmath.nstr(want, 15))
                return
            if mpmath.isnan(g) or mpmath.isinf(g) or abs(g - want) > (tol * sc + at if rel is None else rel * abs(want) + mpf('1e-306')):
                self.fail(name, index=list(idx), got=mpmath.nstr(g, 17), want=mpmath.nstr(want, 17))
                return

    def ensure_real_dtype(self, name, res):
        self._count(name)
        if np.iscomplexobj(res):
            self.fail(name, got="complex dtype")

    def frame(self):
        for nm, d in self.inputs.items():
            r = d.get("_in")
            if r is None or not isinstance(r.v, np.ndarray):
                continue
            self._count(f"frame:{nm}")
            if r.v.shape != r.snap.shape or not np.array_equal(r.v, r.snap, equal_nan=True):
                self.fail(f"frame:{nm}", got=repr(r.v)[:400], want=repr(r.snap)[:400])

    def only_concrete(self):
        pass

    def concrete(self, f):
        f()

    def symbolic_only(self):
        raise Stop

    def hook(self, name, f):
        pass

    stub = hook

    def dump_inputs(self):
        return {k: {a: b for a, b in v.items() if a != "_in"} for k, v in self.inputs.items()}


def import_gftool():
    if not os.path.exists(os.path.join(REPO, "gftool", "_version.py")):
        m = types.ModuleType("gftool._version")
        m.version = m.__version__ = "0.0"
        m.__version_tuple__ = m.version_tuple = (0, 0)
        sys.modules["gftool._version"] = m
    import gftool
    got = os.path.realpath(os.path.dirname(gftool.__file__))
    if got != os.path.realpath(os.path.join(REPO, "gftool")):
        raise RuntimeError(f"wrong gftool imported: {got}")


def one(c, rng, prefix=(), overrides=None):
    k = ConKit(rng, prefix, overrides)
    STRICT[0] = True
    status = "ok"
    try:
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c(k)
    except Stop:
        pass
    except Discard:
        status = "discard"
    except SpecUndefined:
        status = "undefined"
    except (TypeError, AttributeError, IndexError, ValueError, KeyError, ArithmeticError, RuntimeError, AssertionError,
            mpmath.libmp.NoConvergence, np.linalg.LinAlgError) as e:
        # the contract could not use what the code returned (or the harness failed): reported, classified by the driver
        status = "error"
        k.error = "".join(traceback.format_exception(e)[-6:])[-1500:]
    STRICT[0] = True
    return k, status


def main():
    p = argparse.ArgumentParser()
    p.add_argument("module")
    p.add_argument("contracts", nargs="*")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--runs", type=int, default=60)
    p.add_argument("--seconds", type=float, default=10)
    p.add_argument("--replay")
    a = p.parse_args()
    import_gftool()
    DICT.extend(new_thresholds())
    mod = importlib.import_module(a.module)
    out = {}
    for cn in a.contracts:
        c = getattr(mod, cn)
        conc = getattr(c, "concrete_runs", None)
        if a.replay:
            ov = json.load(open(a.replay))
            fails = []
            for s in range(12):      # layouts / scalar types differ between seeds
                k, st = one(c, random.Random(f"replay:{s}"), overrides=ov["inputs"])
                if k.failures:
                    fails = [dict(f, inputs=k.dump_inputs()) for f in k.failures]
                    break
            out[cn] = dict(failures=fails, status=st, error=getattr(k, "error", None))
            continue
        t0 = time.time()
        runs = ok = disc = err = 0
        checked, failures, errors, calls = {}, [], [], set()
        # enumerate choice combinations first, then random
        stack, seen_prefix = [[]], 0
        nruns = int(a.runs * (conc or 1))
        while runs < nruns and time.time() - t0 < a.seconds and len(failures) < 3:
            prefix = stack.pop(0) if stack else []
            enumerating = bool(prefix) or seen_prefix == 0
            k = None
            for attempt in range(40):
                k, st = one(c, random.Random(f"{a.seed}:{cn}:{runs}:{attempt}"), prefix)
                if st != "discard":
                    break
            runs += 1
            if enumerating and seen_prefix < 200:
                seen_prefix += 1
                t = k.trace
                if seen_prefix == 1:
                    # breadth: every combination of the choices met on the first run
                    allc = list(itertools.product(*[range(n) for _, n in t]))
                    random.Random(a.seed).shuffle(allc)
                    stack = [list(x) for x in allc[:120]]
            for nm, n in k.checked.items():
                checked[nm] = checked.get(nm, 0) + n
            calls |= k.calls
            if st == "discard":
                disc += 1
            elif st == "error":
                err += 1
                if len(errors) < 2:
                    errors.append(dict(error=k.error, inputs=k.dump_inputs()))
            else:
                ok += 1
            for f in k.failures[:2]:
                failures.append(dict(f, inputs=k.dump_inputs()))
        out[cn] = dict(runs=runs, ok=ok, discarded=disc, errors=err, error_samples=errors, failures=failures[:3], checked=checked,
                       seconds=round(time.time() - t0, 2), calls=sorted(calls))
    json.dump(out, sys.stdout, default=str)


if __name__ == "__main__":
    # `dv.concrete` must be one module: contracts import nothing from here
    main()
