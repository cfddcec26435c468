"""Numeric evaluation of terms (mpmath) for refutation: a point that satisfies the
path condition and makes an obligation false is a counterexample candidate, replayed
on the real code by the concrete back end."""
from fractions import Fraction
import mpmath
from mpmath import mp, mpf, mpc
from .term import T, BINDERS

mp.dps = 30


class EvalError(Exception):
    pass


class Env:
    def __init__(self, variables=None, interp=None, sampler=None):
        self.vars = dict(variables or {})     # name -> value
        self.interp = interp or {}            # app name -> callable(env, idx) -> value
        self.apps = {}                        # (name, idx) -> value
        self.sampler = sampler
        self.memo = {}
        self.steps = 0
        self.cache = {}

    def app(self, name, idx):
        key = (name, idx)
        if key in self.apps:
            return self.apps[key]
        f = self.interp.get(name)
        if f is None:
            raise EvalError(f"uninterpreted {name}")
        v = f(self, idx)
        self.apps[key] = v
        return v


INFV = mpmath.inf


def _isnan(v):
    try:
        return bool(mpmath.isnan(v))
    except TypeError:
        return False


def ev(t, env, bound=None):
    bound = bound or {}
    if bound:
        bfv = tuple(sorted(((v.args[0], bound[v]) for v in t.fv if v in bound)))
        key = (t, bfv)
    else:
        key = t
    r = env.memo.get(key)
    if r is not None:
        return r
    env.steps += 1
    if env.steps > 400000:
        raise EvalError("evaluation budget")
    r = _ev(t, env, bound)
    env.memo[key] = r
    return r


def _ev(t, env, bound):
    op = t.op
    if op == "num":
        f = t.args[0]
        if f.denominator == 1:
            return int(f) if t.sort == "I" else mpf(f.numerator)
        return mpf(f.numerator) / f.denominator
    if op == "const":
        n = t.args[0]
        return {"pi": mp.pi + 0, "I": mpc(0, 1), "inf": mpf("inf"), "nan": mpf("nan")}[n]
    if op == "var":
        if t in bound:
            return bound[t]
        n = t.args[0]
        if n not in env.vars:
            if env.sampler:
                env.vars[n] = env.sampler(t)
            else:
                raise EvalError(f"no value for {n}")
        return env.vars[n]
    if op == "app":
        idx = tuple(int(ev(a, env, bound)) if a.sort == "I" else ev(a, env, bound) for a in t.args[1:])
        return env.app(t.args[0], idx)
    if op == "add":
        s = 0
        for a in t.args:
            s = s + ev(a, env, bound)
        return s
    if op == "mul":
        s = 1
        for a in t.args:
            s = s * ev(a, env, bound)
        return s
    if op == "pow":
        b, e = ev(t.args[0], env, bound), ev(t.args[1], env, bound)
        try:
            if isinstance(e, int) or (isinstance(e, mpf) and mpmath.isint(e)):
                e = int(e)
                if e < 0 and b == 0:
                    return mpf("inf")
                return b**e if not (isinstance(b, int) and e < 0) else mpf(b)**e
            return mpmath.power(b, e)
        except ZeroDivisionError:
            return mpf("inf")
    if op == "toreal":
        return mpf(ev(t.args[0], env, bound))
    if op == "fn":
        return _fn(t.args[0], [ev(a, env, bound) for a in t.args[1:]], t)
    if op == "ite":
        return ev(t.args[1] if ev(t.args[0], env, bound) else t.args[2], env, bound)
    if op == "true":
        return True
    if op == "false":
        return False
    if op == "not":
        return not ev(t.args[0], env, bound)
    if op == "and":
        return all(ev(a, env, bound) for a in t.args)
    if op == "or":
        return any(ev(a, env, bound) for a in t.args)
    if op in ("lt", "le", "eq"):
        a, b = ev(t.args[0], env, bound), ev(t.args[1], env, bound)
        if op == "eq":
            return bool(a == b)
        a, b = _real(a), _real(b)
        return bool(a < b) if op == "lt" else bool(a <= b)
    if op in BINDERS:
        j, lo, hi, body = t.args
        lo, hi = int(ev(lo, env, bound)), int(ev(hi, env, bound))
        if hi - lo > 3000:
            raise EvalError("range too large")
        vals = (ev(body, env, {**bound, j: k}) for k in range(lo, hi + 1))
        if op == "sum":
            s = 0
            for v in vals:
                s = s + v
            return s
        if op == "prod":
            s = 1
            for v in vals:
                s = s * v
            return s
        if op == "forall":
            return all(vals)
        if op == "exists":
            return any(vals)
        vals = list(vals)
        if not vals:
            raise EvalError("max of empty")
        return max(vals) if op == "amax" else min(vals)
    raise EvalError(op)


def _real(v):
    if isinstance(v, mpc):
        if abs(v.imag) > 1e-20 * (1 + abs(v.real)):
            raise EvalError("ordering of complex values")
        return v.real
    return v


def _fn(name, a, t):
    try:
        return _fn0(name, a, t)
    except ZeroDivisionError:
        return mpf("nan")


def _fn0(name, a, t):
    x = a[0]
    if name == "exp":
        if mpmath.re(x) > 10**6:
            return mpf("inf")
        if mpmath.re(x) < -10**6:
            return mpf(0)
        return mpmath.exp(x)
    if name == "conj":
        return mpmath.conj(x)
    if name == "re":
        return mpmath.re(x)
    if name == "im":
        return mpmath.im(x)
    if name == "abs":
        return abs(x)
    if name == "arg":
        return mpmath.arg(x)
    if name in ("sqrt", "csqrt"):
        if name == "sqrt" and t.args[1].sort != "C" and _real(x) < 0:
            return mpf("nan")
        return mpmath.sqrt(x)
    if name in ("log", "clog"):
        if name == "log" and t.args[1].sort != "C" and _real(x) < 0:
            return mpf("nan")
        if x == 0:
            return mpf("-inf")
        return mpmath.log(x)
    if name == "sign":
        return mpmath.sign(x)
    if name == "trunc":
        return int(mpf(_real(x)))
    if name == "floor":
        return int(mpmath.floor(_real(x)))
    if name == "ceil":
        return int(mpmath.ceil(_real(x)))
    if name == "round":
        return int(mpmath.nint(_real(x)))
    if name == "fdiv":
        r = mpmath.floor(mpf(a[0]) / mpf(a[1])) if not (isinstance(a[0], int) and isinstance(a[1], int)) else a[0] // a[1]
        return r
    if name == "mod":
        return a[0] % a[1]
    if name in ("ellipk", "cellipk"):
        if name == "ellipk" and t.args[1].sort != "C" and _real(x) > 1:
            return mpf("nan")
        if x == 1:
            return mpf("inf")
        return mpmath.ellipk(x)
    if name == "ellipkm1":
        return mpmath.ellipk(1 - x)
    if name == "cpow":
        return mpmath.power(a[0], a[1]) if a[0] != 0 else mpf(0)
    if name == "cbrt":
        return mpmath.sign(x) * mpmath.cbrt(abs(x))
    if name == "jv":
        return mpmath.besselj(a[0], a[1])
    if name == "hyp2f1":
        return mpmath.hyp2f1(*a)
    if name == "atan2":
        return mpmath.atan2(a[0], a[1])
    if name in ("min", "max"):
        return min(a) if name == "min" else max(a)
    if name in ("acos", "asin", "atan", "sin", "cos", "tan", "gamma", "digamma", "sinh", "cosh", "acosh", "asinh", "atanh"):
        return getattr(mpmath, name)(x)
    raise EvalError(f"fn {name}")
