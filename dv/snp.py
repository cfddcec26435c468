"""Symbolic numpy: the assumed contracts of the numpy functions the repository uses."""
import math as _math
import types
from fractions import Fraction
from . import term as tm
from .term import T, num, ZERO, ONE, PI, IU, INF, NAN, TRUE, FALSE, fn, ite, real as t_real, fresh, numval
from .arr import (SArr, Buf, asarr, scalar, from_fn, bshapes, bget, same_dim, is_one, dim_term, dim_out, as_dtype,
                  kjoin, KORD, KIND, BOOL, INT, FLOAT, COMPLEX, LONGDOUBLE, CLONGDOUBLE, OBJECT, SDtype, Unsupported, W,
                  cast_term, bind_all, perm_view)

import builtins as _b

ndarray = SArr
newaxis = None
pi = scalar(PI, "f")
inf = scalar(INF, "f")
infty = inf
nan = scalar(NAN, "f")
e = _math.e
float64 = float_ = double = FLOAT
longdouble = float128 = LONGDOUBLE
complex128 = complex_ = cdouble = COMPLEX
clongdouble = complex256 = CLONGDOUBLE
int64 = int_ = intp = INT
bool_ = BOOL
object_ = OBJECT
True_ = True
False_ = False
__version__ = "2.3.2"


class UFuncTypeError(TypeError):
    pass


class AxisError(ValueError, IndexError):
    pass


class VisibleDeprecationWarning(UserWarning):
    pass


class generic:
    pass


class inexact:
    pass


class floating(inexact):
    pass


class complexfloating(inexact):
    pass


class integer:
    pass


class number:
    pass


def issubdtype(d, t):
    k = as_dtype(d).kind
    if t is inexact:
        return k in "fc"
    if t is floating:
        return k == "f"
    if t is complexfloating:
        return k == "c"
    if t is integer:
        return k == "i"
    if t is number:
        return k in "ifc"
    return k == as_dtype(t).kind


class finfo:
    def __init__(self, dtype=None):
        self.eps = 2.0**-52
        self.max = 1.7976931348623157e308
        self.min = -self.max
        self.tiny = 2.2250738585072014e-308
        self.resolution = 1e-15


def _bidx(idx, sh):
    """index of an operand of shape sh under broadcasting to an output index idx"""
    if not sh:
        return ()
    if len(sh) > len(idx):      # leading ones of the operand
        return (ZERO,) * (len(sh) - len(idx)) + _bidx(idx, sh[len(sh) - len(idx):])
    return tuple(ZERO if is_one(d) else i for i, d in zip(idx[len(idx) - len(sh):], sh))


# ----------------------------------------------------------------- ufuncs
def _ew(f, kindf, *arrs, out=None, where=None):
    arrs = [asarr(a) for a in arrs]
    masks = [a for a in arrs if a.mask is not None]
    kinds = [a.kind for a in arrs]
    k = kindf(*kinds)
    if masks:
        m0 = masks[0]
        mx = getattr(m0, "maxes", None)
        if mx is not None and mx[0] != 0:
            # selections with leading axes: entry by entry with equal selections and scalars only
            idx = tuple(fresh("m", "I") for _ in m0.sh)
            for a in arrs:
                if a.mask is None and a.sh or a.mask is not None and (getattr(a, "maxes", None) != mx or len(a.sh) != len(m0.sh)
                                                                      or a.mask(idx) is not m0.mask(idx)):
                    raise Unsupported("operation on selections with leading axes")
            gs = [(a.getter() if a.mask is not None else (lambda i, t=a.term(): t)) for a in arrs]
            r = from_fn(lambda i: f(*[g(i) for g in gs]), m0.sh, k, mask=m0.mask)
            r.maxes = mx
            return r
        nm = m0.sel_nm()
        idx = tuple(fresh("m", "I") for _ in _b.range(nm))
        pad = (ZERO,) * 8
        for m in masks[1:]:
            if m.sel_nm() != nm or m.mask((idx + pad)[:len(m.sh)]) is not m0.mask((idx + pad)[:len(m0.sh)]):
                raise Unsupported("operation on selections with different masks")
        tails = [a.sh[nm:] if a.mask is not None else a.sh for a in arrs]
        tail = bshapes(*tails)
        if len(tail) and not _b.any(len(m.sh) > nm for m in masks):
            # the selected axis is the last one: arrays must not broadcast against it
            if not _b.all(is_one(d) for t in tails for d in t):
                raise Unsupported("selection combined with array")
            tail = ()
        gs = []
        for a, t in zip(arrs, tails):
            g = a.getter()
            if a.mask is not None:
                gs.append(lambda i, g=g, t=t: g(i[:nm] + _bidx(i[nm:], t)))
            else:
                gs.append(lambda i, g=g, t=t: g(_bidx(i[nm:], t)))
        n0 = len(m0.sh)
        mk = m0.mask
        r = from_fn(lambda i: f(*[g(i) for g in gs]), m0.sh[:nm] + tuple(tail), k, mask=lambda i: mk((i + pad)[:n0]))
        if tail or nm != len(m0.sh):
            r.maxes = (0, nm)
        return r
    sh = bshapes(*[a.sh for a in arrs])
    gs = [bget(a, sh) for a in arrs]
    r = from_fn(lambda i: f(*[g(i) for g in gs]), sh, k)
    if where is not None and where is not True:
        wm = asarr(where)
        if out is None:
            out = _uninit(bshapes(r.sh, wm.sh), r.kind)
        out = out[0] if isinstance(out, tuple) else out
        wg = bget(wm, out.sh)
        rg = bget(r, out.sh)
        out._store(lambda i: wg(i), rg, r.kind)
        return out
    if out is not None:
        out = out[0] if isinstance(out, tuple) else out
        out[...] = r
        return out
    return r


def _n(t):
    """booleans as numbers"""
    return ite(t, num(1), num(0)) if t.sort == "B" else t


def _karith(*ks):
    k = kjoin(*ks)
    return "i" if k == "b" and False else k


def _kfloat(*ks):
    k = kjoin(*ks)
    return k if KORD[k] >= 2 else "f"


class ufunc:
    def __init__(self, name, f, kf, nin):
        self.__name__ = name
        self.f, self.kf, self.nin = f, kf, nin
        self.identity = {"add": 0, "multiply": 1}.get(name)

    def __call__(self, *args, out=None, where=True, dtype=None, casting=None, **kw):
        r = _ew(self.f, self.kf, *args[:self.nin], out=out if len(args) == self.nin else args[self.nin], where=None if where is True else where)
        return r.astype(dtype) if dtype is not None else r

    def outer(self, a, b, **kw):
        a, b = asarr(a), asarr(b)
        n = len(b.sh)
        a2 = a[(Ellipsis,) + (None,) * n] if n else a
        return self(a2, b)

    def reduce(self, a, axis=0, keepdims=False, **kw):
        if self.__name__ == "add":
            return sum(a, axis=axis, keepdims=keepdims)
        if self.__name__ == "multiply":
            return prod(a, axis=axis, keepdims=keepdims)
        if self.__name__ == "logical_and":
            return all(a, axis=axis)
        if self.__name__ == "logical_or":
            return any(a, axis=axis)
        if self.__name__ == "maximum":
            return max(a, axis=axis)
        raise Unsupported("reduce")

    def accumulate(self, a, axis=0):
        if self.__name__ == "add":
            return cumsum(a, axis)
        raise Unsupported("accumulate")

    def __repr__(self):
        return f"<ufunc {self.__name__}>"


def _u(name, f, kf=_karith, nin=2):
    u = ufunc(name, f, kf, nin)
    globals()[name] = u
    return u


def _kb(*ks):
    return "b"


_u("add", lambda a, b: tm.or_(a, b) if a.sort == b.sort == "B" else tm.add(_n(a), _n(b)))
_u("subtract", lambda a, b: tm.sub(_n(a), _n(b)), lambda *k: kjoin(*k) if kjoin(*k) != "b" else _raise(TypeError("numpy boolean subtract")))
_u("multiply", lambda a, b: tm.and_(a, b) if a.sort == b.sort == "B" else tm.mul(_n(a), _n(b)))
_u("true_divide", lambda a, b: tm.div(t_real(_n(a)), t_real(_n(b))), _kfloat)
divide = true_divide  # noqa: F821
_u("floor_divide", lambda a, b: fn("fdiv", _n(a), _n(b)))
_u("mod", lambda a, b: fn("mod", _n(a), _n(b)))
remainder = mod  # noqa: F821
_u("negative", lambda a: tm.neg(a), nin=1)
_u("positive", lambda a: a, nin=1)


def _raise(e):
    raise e


def _power_kind(a, b):
    return kjoin(a, b)


def _pow_t(a, b):
    a, b = _n(a), _n(b)
    if b.op == "num" and b.sort != "I" and numval(b).denominator == 1:
        return t_real(tm.pow_(a, num(int(numval(b)))))
    if b.op == "num" and numval(b).denominator == 2:
        s = _sqrt_t(a)
        return tm.pow_(s, num(int(numval(b) * 2)))
    if b.sort == "I":
        return tm.pow_(a, b)
    if b.op == "toreal":
        return t_real(tm.pow_(a, b.args[0]))
    return fn("cpow", a, b) if (a.sort == "C" or b.sort == "C") else fn("exp", tm.mul(b, fn("log", a)))


_u("power", _pow_t, _power_kind)
float_power = power  # noqa: F821


def _sqrt_t(a):
    return fn("sqrt", a)


def _exp_t(a):
    return fn("exp", t_real(_n(a)))


def _csqrt_k(a):
    """np.sqrt on an element of kind c whose term may be of real sort"""
    return a


_u("exp", _exp_t, _kfloat, 1)
_u("expm1", lambda a: tm.sub(_exp_t(a), ONE), _kfloat, 1)
_u("exp2", lambda a: fn("exp", tm.mul(fn("log", num(2, "R")), t_real(_n(a)))), _kfloat, 1)
_u("log", lambda a: fn("log", t_real(_n(a))), _kfloat, 1)
_u("log1p", lambda a: fn("log", tm.add(num(1, "R"), t_real(_n(a)))), _kfloat, 1)
_u("log2", lambda a: tm.div(fn("log", t_real(_n(a))), fn("log", num(2, "R"))), _kfloat, 1)
_u("log10", lambda a: tm.div(fn("log", t_real(_n(a))), fn("log", num(10, "R"))), _kfloat, 1)
_u("conj", lambda a: fn("conj", a), nin=1)
conjugate = conj  # noqa: F821
_u("square", lambda a: tm.mul(a, a), nin=1)
_u("reciprocal", lambda a: tm.div(ONE, a), nin=1)


def _cx(a):
    return a if a.sort == "C" else tm.add(a, tm.mul(IU, num(0, "R")))


def _ufsqrt(x, out=None, where=True, **kw):
    x = asarr(x)
    if x.kind == "c":
        return _ew(csqrt_t, lambda k: "c", x, out=out)
    return _ew(lambda a: fn("sqrt", t_real(_n(a))), _kfloat, x, out=out)


def csqrt_t(a):
    """principal complex square root of a term"""
    if a.sort != "C":
        a = t_real(a)
        if a.op == "num":
            v = numval(a)
            return fn("sqrt", a) if v >= 0 else tm.mul(IU, fn("sqrt", tm.neg(a)))
        if tm.syn_nonneg(a):
            return fn("sqrt", a)
        return ite(tm.ge(a, ZERO), fn("sqrt", a), tm.mul(IU, fn("sqrt", tm.neg(a))))
    return fn("sqrt", a)


sqrt = ufunc("sqrt", None, None, 1)
sqrt.__class__ = type("ufsqrt", (ufunc,), {"__call__": lambda self, x, *a, **k: _ufsqrt(x, *a, **k)})


def _trig(name):
    def f(a):
        a = t_real(_n(a))
        ia = tm.mul(IU, a)
        ep, em = fn("exp", ia), fn("exp", tm.neg(ia))
        half = num(Fraction(1, 2))
        s = tm.mul(half, tm.neg(IU), tm.sub(ep, em))
        c = tm.mul(half, tm.add(ep, em))
        if a.sort != "C":
            s, c = fn("im", ep), fn("re", ep)
            # keep as re/im of exp(i a): real sorted
            s = _as_real(s)
            c = _as_real(c)
        if name == "sin":
            return s
        if name == "cos":
            return c
        return tm.div(s, c)
    return f


def _as_real(t):
    return t


def _hyp(name):
    def f(a):
        a = t_real(_n(a))
        ep, em = fn("exp", a), fn("exp", tm.neg(a))
        half = num(Fraction(1, 2))
        if name == "sinh":
            return tm.mul(half, tm.sub(ep, em))
        if name == "cosh":
            return tm.mul(half, tm.add(ep, em))
        return tm.div(tm.sub(ep, em), tm.add(ep, em))
    return f


for _nm in ("sin", "cos", "tan"):
    _u(_nm, _trig(_nm), _kfloat, 1)
for _nm in ("sinh", "cosh", "tanh"):
    _u(_nm, _hyp(_nm), _kfloat, 1)
for _nm, _f in (("arcsin", "asin"), ("arccos", "acos"), ("arctan", "atan"), ("arccosh", "acosh"), ("arcsinh", "asinh"), ("arctanh", "atanh")):
    _u(_nm, (lambda f: lambda a: fn(f, t_real(_n(a))))(_f), _kfloat, 1)
_u("arctan2", lambda a, b: fn("atan2", t_real(a), t_real(b)), _kfloat, 2)
_u("cbrt", lambda a: fn("cbrt", t_real(_n(a))), _kfloat, 1)
_u("abs", lambda a: fn("abs", a), lambda k: "f" if k == "c" else k, 1)
absolute = abs  # noqa: F821
fabs = abs  # noqa: F821
_u("sign", lambda a: _sign_t(a), nin=1)
_u("floor", lambda a: t_real(fn("floor", a)), _kfloat, 1)
_u("ceil", lambda a: t_real(fn("ceil", a)), _kfloat, 1)
_u("rint", lambda a: t_real(fn("round", a)), _kfloat, 1)
_u("trunc", lambda a: t_real(fn("trunc", a)), _kfloat, 1)
_u("maximum", lambda a, b: fn("max", _n(a), _n(b)))
_u("minimum", lambda a, b: fn("min", _n(a), _n(b)))
fmax, fmin = maximum, minimum  # noqa: F821


def _sign_t(a):
    r = fn("sign", a)
    return r if a.sort != "I" else ite(tm.gt(a, ZERO), num(1), ite(tm.lt(a, ZERO), num(-1), num(0)))


def _cmpc(op):
    def f(a, b):
        a, b = _n(a), _n(b)
        if op in ("eq", "ne"):
            r = tm.eq(a, b)
            return r if op == "eq" else tm.not_(r)
        if a.sort == "C" or b.sort == "C":
            if a.sort == "C" and b.sort == "C" or True:
                # numpy orders complex numbers lexicographically
                ra, ia, rb, ib = fn("re", a), fn("im", a), fn("re", b), fn("im", b)
                lex = {"lt": tm.lt(ia, ib), "le": tm.le(ia, ib), "gt": tm.gt(ia, ib), "ge": tm.ge(ia, ib)}[op]
                st = {"lt": tm.lt, "le": tm.lt, "gt": tm.gt, "ge": tm.gt}[op](ra, rb)
                return tm.or_(st, tm.and_(tm.eq(ra, rb), lex))
        return getattr(tm, op)(a, b)
    return f


for _nm, _op in (("less", "lt"), ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge")):
    _u(_nm, _cmpc(_op), _kb)
_u("equal", lambda a, b: tm.eq(a, b) if a.sort == b.sort == "B" else _cmpc("eq")(a, b), _kb)
_u("not_equal", lambda a, b: tm.not_(tm.eq(a, b)) if a.sort == b.sort == "B" else _cmpc("ne")(a, b), _kb)


def _b_(t):
    return t if t.sort == "B" else tm.ne(t, ZERO)


_u("logical_and", lambda a, b: tm.and_(_b_(a), _b_(b)), _kb)
_u("logical_or", lambda a, b: tm.or_(_b_(a), _b_(b)), _kb)
_u("logical_not", lambda a: tm.not_(_b_(a)), _kb, 1)
_u("logical_xor", lambda a, b: tm.not_(tm.eq(_b_(a), _b_(b))), _kb)
bitwise_and, bitwise_or, invert = logical_and, logical_or, logical_not  # noqa: F821


def _isnan_t(a):
    if a is NAN:
        return TRUE
    return FALSE


_u("isnan", _isnan_t, _kb, 1)
_u("isfinite", lambda a: FALSE if (a is NAN or tm._infsign(a)) else TRUE, _kb, 1)
_u("isinf", lambda a: TRUE if tm._infsign(a) else FALSE, _kb, 1)
_u("iscomplex", lambda a: FALSE if a.sort != "C" else tm.ne(fn("im", a), ZERO), _kb, 1)
_u("isreal", lambda a: TRUE if a.sort != "C" else tm.eq(fn("im", a), ZERO), _kb, 1)


def iscomplexobj(a):
    return asarr(a).kind == "c"


def isrealobj(a):
    return asarr(a).kind != "c"


def isscalar(a):
    return not isinstance(a, SArr) or a.is_scalar


def angle(z):
    z = asarr(z)
    return _ew(lambda a: fn("arg", a), lambda k: "f", z)


def real(z):
    return asarr(z).real


def imag(z):
    return asarr(z).imag


def real_if_close(a, tol=100):
    return asarr(a)


# -------------------------------------------------------------- creation
def _shape(s):
    if isinstance(s, SArr):
        if s.sh:
            return tuple(dim_term(x) for x in s)
        return (dim_term(s),)
    if isinstance(s, (tuple, list)):
        return tuple(dim_term(x) for x in s)
    return (dim_term(s),)


def _like(a, dtype, shape):
    a = asarr(a)
    if a.mask is not None:
        raise Unsupported("*_like of selection")
    return (a.sh if shape is None else _shape(shape)), (a.kind if dtype is None else as_dtype(dtype).kind)


def _const(v, sh, k):
    t = cast_term(asarr(v).term(), asarr(v).kind, k)
    a = SArr(Buf(lambda idx: t, k), sh)
    return a


def zeros(shape, dtype=None, order="C", **kw):
    return _const(0, _shape(shape), as_dtype(dtype).kind)


def ones(shape, dtype=None, order="C", **kw):
    return _const(1, _shape(shape), as_dtype(dtype).kind)


_ecount = [0]


def _uninit(sh, k):
    _ecount[0] += 1
    nm = f"uninit{_ecount[0]}"
    W().declare_uninit(nm, k)
    s = {"b": "B", "i": "I", "f": "R", "c": "C", "O": "R"}[k]
    return SArr(Buf(lambda idx: tm.app(nm, idx, s), k), sh)


def empty(shape, dtype=None, order="C", **kw):
    return _uninit(_shape(shape), as_dtype(dtype).kind)


def full(shape, fill_value, dtype=None, order="C", **kw):
    v = asarr(fill_value)
    sh = _shape(shape)
    k = v.kind if dtype is None else as_dtype(dtype).kind
    g = bget(v, sh)
    return SArr(Buf(lambda idx: cast_term(g(idx), v.kind, k), k), sh)


def zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    sh, k = _like(a, dtype, shape)
    return _const(0, sh, k)


def ones_like(a, dtype=None, order="K", subok=True, shape=None):
    sh, k = _like(a, dtype, shape)
    return _const(1, sh, k)


def empty_like(a, dtype=None, order="K", subok=True, shape=None):
    sh, k = _like(a, dtype, shape)
    return _uninit(sh, k)


def full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    sh, k = _like(a, dtype, shape)
    return full(tuple(dim_out(d) for d in sh), fill_value, KIND[k])


def array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, **kw):
    a = asarr(x)
    a = a.astype(dtype) if dtype is not None else a.copy()
    while len(a.sh) < ndmin:
        a = a[None]
    if not a.sh:
        a = SArr(Buf(a.getter(), a.kind), ())
    return a


def asarray(x, dtype=None, order=None, **kw):
    a = asarr(x)
    if dtype is not None and as_dtype(dtype).kind != a.kind:
        a = a.astype(dtype)
    if a.is_scalar:
        a = SArr(Buf(a.getter(), a.kind), ())
    return a


asanyarray = asfarray = asarray


def ascontiguousarray(a, dtype=None):
    a = asarray(a, dtype)
    return a if a.sh else a[None]


def asfortranarray(a, dtype=None):
    return asarray(a, dtype)


def copy(a, order="K", subok=False):
    return array(a)


def atleast_1d(*arys):
    r = [(lambda a: a if a.sh else a[None])(asarray(a)) for a in arys]
    return r[0] if len(r) == 1 else r


def atleast_2d(*arys):
    def f(a):
        a = asarray(a)
        if len(a.sh) == 0:
            return a[None, None]
        return a[None] if len(a.sh) == 1 else a
    r = [f(a) for a in arys]
    return r[0] if len(r) == 1 else r


def _rng_len(start, stop, step):
    s, e, st = [asarr(v) for v in (start, stop, step)]
    return s, e, st


def arange(start, stop=None, step=1, dtype=None, **kw):
    if stop is None:
        start, stop = 0, start
    s, e, st = asarr(start), asarr(stop), asarr(step)
    k = kjoin(s.kind, e.kind, st.kind)
    if k == "b":
        k = "i"
    if k != "i":
        if all_num(s, e, st):
            n = _math.ceil((numval(e.term()) - numval(s.term())) / numval(st.term()))
            nt = num(_b.max(n, 0))
        else:
            raise Unsupported("float arange")
    else:
        stt = st.term()
        if stt.op != "num":
            raise Unsupported("arange step")
        d = tm.sub(e.term(), s.term())
        q = int(numval(stt))
        if q < 0:
            d, q = tm.neg(d), -q
        nt = fn("fdiv", tm.add(d, num(q - 1)), num(q))
        if nt.op == "num":
            nt = num(_b.max(int(numval(nt)), 0))
        elif W().cond(tm.le(ZERO, nt)) is not True:
            if not W().branch(tm.le(ZERO, nt), why="arange"):
                nt = ZERO
    kk = k if dtype is None else as_dtype(dtype).kind
    a, b = s.term(), st.term()
    return SArr(Buf(lambda idx: cast_term(tm.add(a, tm.mul(b, idx[0])), k, kk), kk), (nt,))


def all_num(*xs):
    return _b.all(x.term().op == "num" for x in xs)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    s, e = asarr(start), asarr(stop)
    n = dim_term(num)
    k = kjoin("f", s.kind, e.kind)
    div = tm.sub(n, ONE) if endpoint else n
    sh = bshapes(s.sh, e.sh)
    sg, eg = bget(s, sh), bget(e, sh)
    if div.op == "num" and numval(div) == 0:
        step = lambda idx: NAN
        f = lambda i, idx: t_real(sg(idx))
    else:
        step = lambda idx: tm.div(tm.sub(eg(idx), sg(idx)), t_real(div))
        f = lambda i, idx: tm.add(t_real(sg(idx)), tm.mul(t_real(i), step(idx)))
    if axis in (-1, len(sh)) and sh:
        r = SArr(Buf(lambda idx: f(idx[-1], idx[:-1]), k), sh + (n,))
    elif axis == 0:
        r = SArr(Buf(lambda idx: f(idx[0], idx[1:]), k), (n,) + sh)
    else:
        raise Unsupported("linspace axis")
    if dtype is not None:
        r = r.astype(dtype)
    if retstep:
        return r, from_fn(step, sh, k)
    return r


def logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None):
    r = linspace(start, stop, num, endpoint)
    return power(base, r)  # noqa: F821


def geomspace(*a, **k):
    raise Unsupported("geomspace")


def eye(N, M=None, k=0, dtype=None, **kw):
    n = dim_term(N)
    m = n if M is None else dim_term(M)
    kk = as_dtype(dtype).kind
    kt = dim_term(k)
    one, zero = cast_term(num(1), "i", kk), cast_term(num(0), "i", kk)
    return SArr(Buf(lambda i: ite(tm.eq(tm.add(i[0], kt), i[1]), one, zero), kk), (n, m))


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def diag(v, k=0):
    v = asarr(v)
    if len(v.sh) == 1:
        return diagflat(v, k)
    return diagonal(v, k)


def diagflat(v, k=0):
    v = asarr(v).ravel() if not isinstance(v, range) else asarr(list(v))
    kt = dim_term(k)
    n = tm.add(v.sh[0], fn("abs", kt) if kt.op == "num" else kt)
    g = v.getter()
    z = cast_term(num(0), "i", v.kind)

    def get(i):
        p = i[0] if not (kt.op == "num" and numval(kt) < 0) else i[1]
        return ite(tm.eq(tm.add(i[0], kt), i[1]), g((p,)), z)
    return SArr(Buf(get, v.kind), (n, n))


def diagonal(a, offset=0, axis1=0, axis2=1):
    a = asarr(a)
    n = len(a.sh)
    axis1, axis2 = axis1 % n, axis2 % n
    rest = [i for i in _b.range(n) if i not in (axis1, axis2)]
    if offset != 0 or not same_dim(a.sh[axis1], a.sh[axis2]):
        raise Unsupported("diagonal offset")
    g = a.getter()

    def get(idx):
        full = [None] * n
        for i, t in zip(rest, idx):
            full[i] = t
        full[axis1] = full[axis2] = idx[-1]
        return g(tuple(full))
    r = SArr(Buf(get, a.kind), tuple(a.sh[i] for i in rest) + (a.sh[axis1],))
    r.buf.writable = False
    return r


def trace(a, offset=0, axis1=0, axis2=1):
    return sum(diagonal(a, offset, axis1, axis2), axis=-1)


def diag_indices(n, ndim=2):
    i = arange(n)
    return (i,) * ndim


def fill_diagonal(a, val, wrap=False):
    v = asarr(val)
    if v.sh:
        vg = bget(v, (a.sh[0],))
        a._store(lambda i: tm.eq(i[0], i[1]), lambda i: vg((i[0],)), v.kind)
    else:
        t = v.term()
        # for tall matrices numpy stops at min(shape) with wrap=False: diagonal entries only
        a._store(lambda i: tm.eq(i[0], i[1]), lambda i: t, v.kind)


def tri(N, M=None, k=0, dtype=None):
    n = dim_term(N)
    m = n if M is None else dim_term(M)
    return SArr(Buf(lambda i: ite(tm.le(i[1], tm.add(i[0], num(k))), num(1, "R"), num(0, "R")), "f"), (n, m))


def tril(a, k=0):
    a = asarr(a)
    g = a.getter()
    z = cast_term(num(0), "i", a.kind)
    return from_fn(lambda i: ite(tm.le(i[-1], tm.add(i[-2], num(k))), g(i), z), a.sh, a.kind)


def triu(a, k=0):
    a = asarr(a)
    g = a.getter()
    z = cast_term(num(0), "i", a.kind)
    return from_fn(lambda i: ite(tm.ge(i[-1], tm.add(i[-2], num(k))), g(i), z), a.sh, a.kind)


# --------------------------------------------------------- manipulation
def broadcast_to(a, shape, subok=False):
    a = asarr(a)
    sh = _shape(shape)
    bs = bshapes(a.sh, sh)
    if len(bs) != len(sh) or not _b.all(same_dim(x, y) for x, y in zip(bs, sh)):
        raise ValueError("operands could not be broadcast together with remapped shapes")
    g = bget(a, sh)
    r = SArr(Buf(g, a.kind), sh)
    r.buf.writable = False
    return r


def broadcast_arrays(*args, subok=False):
    args = [asarr(a) for a in args]
    sh = bshapes(*[a.sh for a in args])
    return [broadcast_to(a, tuple(dim_out(d) for d in sh)) for a in args]


def broadcast_shapes(*shs):
    return tuple(dim_out(d) for d in bshapes(*[_shape(s) for s in shs]))


class broadcast:
    def __init__(self, *args):
        self._sh = bshapes(*[asarr(a).sh for a in args])

    @property
    def shape(self):
        return tuple(dim_out(d) for d in self._sh)

    @property
    def ndim(self):
        return len(self._sh)
    nd = ndim

    @property
    def size(self):
        return dim_out(tm.mul(ONE, *self._sh))


def expand_dims(a, axis):
    a = asarr(a)
    axes = axis if isinstance(axis, (tuple, list)) else (axis,)
    n = len(a.sh) + len(axes)
    axes = {x % n for x in axes}
    key = tuple(None if i in axes else slice(None) for i in _b.range(n))
    return a[key]


def squeeze(a, axis=None):
    a = asarr(a)
    n = len(a.sh)
    if axis is None:
        axes = [i for i, d in enumerate(a.sh) if is_one(d)]
    else:
        axes = [x % n for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        for x in axes:
            if not is_one(a.sh[x]):
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    return a[tuple(0 if i in axes else slice(None) for i in _b.range(n))] if axes else a


def moveaxis(a, source, destination):
    a = asarr(a)
    n = len(a.sh)
    s = [x % n for x in (source if isinstance(source, (tuple, list)) else (source,))]
    d = [x % n for x in (destination if isinstance(destination, (tuple, list)) else (destination,))]
    order = [i for i in _b.range(n) if i not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return perm_view(a, order)


def rollaxis(a, axis, start=0):
    n = len(asarr(a).sh)
    return moveaxis(a, axis, start if start <= axis % n else start - 1)


def swapaxes(a, x, y):
    return asarr(a).swapaxes(x, y)


def transpose(a, axes=None):
    return asarr(a).transpose(*( [axes] if axes is not None else []))


def ravel(a, order="C"):
    return asarr(a).ravel()


def reshape(a, shape, order="C"):
    a = asarr(a)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    if order != "C":
        raise Unsupported("reshape order")
    sh = [dim_term(s) for s in shape]
    tot = tm.mul(ONE, *a.sh)
    for i, s in enumerate(sh):
        if s.op == "num" and numval(s) == -1:
            other = tm.mul(ONE, *[x for k, x in enumerate(sh) if k != i])
            if other.op == "num" and tot.op == "num":
                if numval(other) == 0 or numval(tot) % numval(other):
                    raise ValueError("cannot reshape array")
                sh[i] = num(int(numval(tot) / numval(other)))
            elif is_one(other):
                sh[i] = tot
            else:
                q = _divdims(list(a.sh), [x for k, x in enumerate(sh) if k != i])
                if q is None:
                    raise Unsupported("reshape -1 with symbolic sizes")
                sh[i] = q
    new = tm.mul(ONE, *sh)
    if not same_dim(new, tot):
        if new.op == "num" and tot.op == "num":
            raise ValueError("cannot reshape array")
        raise Unsupported("reshape size")
    # match axes greedily
    g = a.getter()
    plan = _reshape_plan(list(a.sh), sh)
    if plan is None:
        # general: flat index
        def get(idx):
            flat = ZERO
            for i, d in zip(idx, sh):
                flat = tm.add(tm.mul(flat, d), i)
            out = []
            for d in reversed(a.sh):
                out.append(fn("mod", flat, d))
                flat = fn("fdiv", flat, d)
            return g(tuple(reversed(out)))
        r = from_fn(get, sh, a.kind, None)
    else:
        def get(idx):
            return g(tuple(plan(idx)))
        inv = _reshape_plan(sh, list(a.sh))
        if a.vmap is None and a.part is None and inv is not None:
            return SArr(a.buf, tuple(sh), get_map(plan), lambda b: (TRUE, tuple(inv(b))))
        r = SArr(Buf(get, a.kind), tuple(sh))
    return r


def get_map(plan):
    return lambda idx: tuple(plan(idx))


def _divdims(num_, den):
    num_ = list(num_)
    for d in den:
        for k, x in enumerate(num_):
            if same_dim(x, d):
                del num_[k]
                break
        else:
            return None
    return tm.mul(ONE, *num_)


def _reshape_plan(src, dst):
    """index map dst idx -> src idx when only unit axes are added/removed or groups match"""
    s = [(i, d) for i, d in enumerate(src) if not is_one(d)]
    t = [(i, d) for i, d in enumerate(dst) if not is_one(d)]
    i = j = 0
    groups = []
    while i < len(s) or j < len(t):
        if i < len(s) and j < len(t) and same_dim(s[i][1], t[j][1]):
            groups.append(([s[i]], [t[j]]))
            i += 1
            j += 1
            continue
        # merge minimal groups with equal products
        found = False
        for a in _b.range(i + 1, len(s) + 1):
            for b in _b.range(j + 1, len(t) + 1):
                if same_dim(tm.mul(ONE, *[d for _, d in s[i:a]]), tm.mul(ONE, *[d for _, d in t[j:b]])):
                    groups.append((s[i:a], t[j:b]))
                    i, j = a, b
                    found = True
                    break
            if found:
                break
        if not found:
            return None

    def f(idx):
        out = [ZERO] * len(src)
        for ss, tt in groups:
            if len(ss) == len(tt) == 1:
                out[ss[0][0]] = idx[tt[0][0]]
                continue
            flat = ZERO
            for k, d in tt:
                flat = tm.add(tm.mul(flat, d), idx[k])
            for k, d in reversed(ss[1:]):
                out[k] = fn("mod", flat, d)
                flat = fn("fdiv", flat, d)
            out[ss[0][0]] = flat
        return out
    return f


def concatenate(arrs, axis=0, dtype=None, **kw):
    arrs = [asarr(a) for a in arrs]
    n = len(arrs[0].sh)
    if n == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % n
    k = kjoin(*[a.kind for a in arrs])
    for a in arrs[1:]:
        if len(a.sh) != n:
            raise ValueError("all the input array dimensions must match")
        for i in _b.range(n):
            if i != axis and not same_dim(a.sh[i], arrs[0].sh[i]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    offs = [ZERO]
    for a in arrs:
        offs.append(tm.add(offs[-1], a.sh[axis]))
    gs = [a.getter() for a in arrs]
    ks = [a.kind for a in arrs]

    def get(idx):
        i = idx[axis]
        r = None
        for p in reversed(_b.range(len(arrs))):
            j = idx[:axis] + (tm.sub(i, offs[p]),) + idx[axis + 1:]
            if r is None:
                r = cast_term(gs[p](j), ks[p], k)
            else:
                c = tm.lt(i, offs[p + 1])
                if c is FALSE:
                    continue
                if c is TRUE:
                    r = cast_term(gs[p](j), ks[p], k)
                else:
                    r = ite(c, cast_term(gs[p](j), ks[p], k), r)
        return r
    sh = list(arrs[0].sh)
    sh[axis] = offs[-1]
    r = SArr(Buf(get, k), tuple(sh))
    return r.astype(dtype) if dtype is not None else r


def stack(arrs, axis=0, **kw):
    arrs = [asarr(a) for a in arrs]
    for a in arrs[1:]:
        if len(a.sh) != len(arrs[0].sh) or not _b.all(same_dim(x, y) for x, y in zip(a.sh, arrs[0].sh)):
            raise ValueError("all input arrays must have the same shape")
    ax = axis % (len(arrs[0].sh) + 1)
    return concatenate([expand_dims(a, ax) for a in arrs], axis=ax)


def hstack(t):
    t = [atleast_1d(a) for a in t]
    return concatenate(t, axis=0 if len(t[0].sh) == 1 else 1)


def vstack(t):
    return concatenate([atleast_2d(a) for a in t], axis=0)


def column_stack(t):
    return concatenate([a[:, None] if len(asarr(a).sh) == 1 else a for a in map(asarr, t)], axis=1)


def append(arr, values, axis=None):
    if axis is None:
        return concatenate([asarr(arr).ravel(), asarray(values).ravel()])
    return concatenate([arr, values], axis)


class _R:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts, axis = [], 0
        for k in key:
            if isinstance(k, slice):
                if isinstance(k.step, complex):
                    parts.append(linspace(k.start, k.stop, int(_b.abs(k.step))))
                else:
                    parts.append(arange(k.start or 0, k.stop, k.step or 1))
            elif isinstance(k, str):
                if k.lstrip("-").isdigit() and not parts:
                    axis = int(k)
                    continue
                raise Unsupported("r_ string")
            else:
                parts.append(atleast_1d(asarr(k)))
        if axis != 0 and _b.any(len(p.sh) == 1 for p in parts) and _b.any(len(p.sh) != 1 for p in parts):
            raise Unsupported("r_ of different ranks")
        return concatenate(parts, axis=axis)


r_ = _R()


class _SIdx:
    def __getitem__(self, k):
        return k


s_ = index_exp = _SIdx()


def flip(a, axis=None):
    a = asarr(a)
    n = len(a.sh)
    axes = _b.range(n) if axis is None else [x % n for x in (axis if isinstance(axis, tuple) else (axis,))]
    return a[tuple(slice(None, None, -1) if i in axes else slice(None) for i in _b.range(n))]


def flipud(a):
    return flip(a, 0)


def fliplr(a):
    return flip(a, 1)


def roll(a, shift, axis=None):
    a = asarr(a)
    if axis is None:
        if len(a.sh) != 1:
            raise Unsupported("roll")
        axis = 0
    axis %= len(a.sh)
    g, n, s = a.getter(), a.sh[axis], dim_term(shift)

    def get(idx):
        j = tm.sub(idx[axis], s)
        j = fn("mod", j, n)
        return g(idx[:axis] + (j,) + idx[axis + 1:])
    return from_fn(get, a.sh, a.kind)


def tile(a, reps):
    a = asarr(a)
    if isinstance(reps, int):
        reps = (reps,)
    return concatenate([a] * reps[0]) if len(reps) == 1 and len(a.sh) <= 1 else _raise(Unsupported("tile"))


def repeat(a, repeats, axis=None):
    a = asarr(a)
    r = dim_term(repeats)
    if axis is None:
        if len(a.sh) != 1:
            raise Unsupported("repeat")
        axis = 0
    axis %= len(a.sh)
    g = a.getter()
    sh = list(a.sh)
    sh[axis] = tm.mul(sh[axis], r)
    return from_fn(lambda i: g(i[:axis] + (fn("fdiv", i[axis], r),) + i[axis + 1:]), sh, a.kind)


def split(a, indices_or_sections, axis=0):
    a = asarr(a)
    axis %= len(a.sh)
    pre = (slice(None),) * axis
    if isinstance(indices_or_sections, (int, SArr)) and not (isinstance(indices_or_sections, SArr) and indices_or_sections.sh):
        k = int(indices_or_sections)
        n = a.sh[axis]
        if n.op == "num":
            if numval(n) % k:
                raise ValueError("array split does not result in an equal division")
            m = num(int(numval(n)) // k)
        else:
            m = fn("fdiv", n, num(k))
        return [a[pre + (slice(dim_out(tm.mul(num(i), m)), dim_out(tm.mul(num(i + 1), m))),)] for i in _b.range(k)]
    idx = [x for x in indices_or_sections]
    out = []
    lo = 0
    for hi in idx + [None]:
        out.append(a[pre + (slice(lo, hi),)])
        lo = hi
    return out


array_split = split


def where(c, x=None, y=None):
    if x is None:
        raise Unsupported("np.where with one argument")
    return _ew(lambda c, a, b: ite(_b_(c), _n(a) if b.sort != "B" else a, _n(b) if a.sort != "B" else b),
               lambda kc, ka, kb: kjoin(ka, kb), c, x, y)


def select(condlist, choicelist, default=0):
    r = asarr(default)
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where(c, v, r)
    return r


def piecewise(x, condlist, funclist, *args, **kw):
    x = asarray(x)
    condlist = [asarr(c) for c in condlist]
    r = zeros_like(x)
    fl = list(funclist)
    if len(fl) == len(condlist) + 1:
        els = tm.TRUE
        o = None
        for c in condlist:
            o = c if o is None else logical_or(o, c)  # noqa: F821
        condlist.append(logical_not(o))  # noqa: F821
    for c, f in zip(condlist, fl):
        r[c] = f(x[c], *args, **kw) if callable(f) else f
    return r


def clip(a, a_min=None, a_max=None, out=None):
    r = asarr(a)
    if a_min is not None:
        r = maximum(r, a_min)  # noqa: F821
    if a_max is not None:
        r = minimum(r, a_max)  # noqa: F821
    if out is not None:
        out[...] = r
        return out
    return r


def nan_to_num(a, *args, **kw):
    raise Unsupported("nan_to_num")


def copyto(dst, src, where=True, casting="same_kind"):
    if where is True:
        dst[...] = src
    else:
        w, s = asarr(where), asarr(src)
        wg, sg = bget(w, dst.sh), bget(s, dst.sh)
        dst._store(lambda i: wg(i), sg, s.kind)


def putmask(a, mask, values):
    copyto(a, values, where=mask)


def place(*a):
    raise Unsupported("place")


def take(a, indices, axis=None, **kw):
    a = asarr(a)
    if axis is None:
        return a.ravel()[indices]
    axis %= len(a.sh)
    return a[(slice(None),) * axis + (indices if _isint(indices) else asarray(indices),)]


def _isint(k):
    return isinstance(k, int)


def take_along_axis(arr, indices, axis):
    arr, indices = asarr(arr), asarr(indices)
    n = len(arr.sh)
    axis %= n
    if len(indices.sh) != n:
        raise ValueError("`indices` and `arr` must have the same number of dimensions")
    sh = []
    for i in _b.range(n):
        sh.append(indices.sh[i] if i == axis else bshapes((arr.sh[i],), (indices.sh[i],))[0])
    ig = bget(indices, sh)
    g = arr.getter()
    one = [is_one(d) for d in arr.sh]
    from .arr import wrap_index
    return from_fn(lambda i: g(tuple(wrap_index(ig(i), arr.sh[axis]) if k == axis else (ZERO if one[k] else i[k]) for k in _b.range(n))), sh, arr.kind)


def meshgrid(*xs, indexing="xy", sparse=False, copy=True):
    if indexing != "ij":
        raise Unsupported("meshgrid xy")
    n = len(xs)
    r = [asarr(x)[tuple(slice(None) if i == k else None for i in _b.range(n))] for k, x in enumerate(xs)]
    return r if sparse else broadcast_arrays(*r)


# -------------------------------------------------------------- reductions
def _axes(a, axis):
    n = len(a.sh)
    if axis is None:
        return list(_b.range(n))
    if isinstance(axis, SArr):
        axis = int(axis)
    if isinstance(axis, int):
        axis = (axis,)
    out = []
    for x in axis:
        if not -n <= x < n:
            raise AxisError(f"axis {x} is out of bounds for array of dimension {n}")
        out.append(x % n)
    return out


def _reduce(a, axis, keepdims, body, binder, kind, empty_ok=True, out=None):
    a = asarr(a)
    g = a.getter()
    if a.mask is not None:
        m = a.mask
        neutral = {"sum": ZERO, "prod": ONE, "forall": TRUE, "exists": FALSE}.get(binder.__name__.rstrip("_"))
        if axis is None and not keepdims and neutral is not None:
            return scalar(bind_all(a.sh, lambda idx: ite(m(idx), body(g(idx)), neutral), binder), kind)
        nm = a.sel_nm()
        if axis == -1 and len(a.sh) > nm and not keepdims:
            def get1(idx):
                v = fresh("r", "I")
                return binder(v, ZERO, tm.sub(a.sh[-1], ONE), body(g(idx + (v,))))
            r = from_fn(get1, a.sh[:-1], kind, mask=lambda idx: m(idx + (ZERO,)))
            if len(r.sh) > nm:
                r.maxes = (0, nm)
            return r
        if axis not in (None, 0, -1):
            raise Unsupported("axis reduction of selection")
        if neutral is None or hasattr(a, "maxes"):
            raise Unsupported("reduction of selection")
        t = bind_all(a.sh, lambda idx: ite(m(idx), body(g(idx)), neutral), binder)
        return scalar(t, kind)
    axes = _axes(a, axis)
    n = len(a.sh)
    keep = [i for i in _b.range(n) if i not in axes]

    def get(idx):
        full = [None] * n
        if keepdims:
            for i in keep:
                full[i] = idx[i]
        else:
            for i, t in zip(keep, idx):
                full[i] = t
        vs = {}
        for i in axes:
            vs[i] = full[i] = fresh("r", "I")
        t = body(g(tuple(full)))
        for i in reversed(axes):
            t = binder(vs[i], ZERO, tm.sub(a.sh[i], ONE), t)
        return t
    sh = tuple(ONE if i in axes else a.sh[i] for i in _b.range(n)) if keepdims else tuple(a.sh[i] for i in keep)
    r = from_fn(get, sh, kind)
    if out is not None:
        out[...] = r
        return out
    return r


def sum(a, axis=None, dtype=None, out=None, keepdims=False, where=None, **kw):
    a = asarr(a)
    if where is not None:
        a = globals()["where"](where, a, 0)
    k = "i" if a.kind == "b" else a.kind
    r = _reduce(a, axis, keepdims, _n, tm.sum_, k, out=out)
    return r.astype(dtype) if dtype is not None else r


def prod(a, axis=None, dtype=None, keepdims=False, **kw):
    a = asarr(a)
    k = "i" if a.kind == "b" else a.kind
    if len(a.sh) == 1 and a.sh[0].op == "num" and numval(a.sh[0]) == 0:
        return scalar(num(1, "R"), "f") if k == "f" else scalar(num(1), k)
    r = _reduce(a, axis, keepdims, _n, tm.prod_, k)
    return r.astype(dtype) if dtype is not None else r


def all(a, axis=None, keepdims=False, **kw):
    return _reduce(a, axis, keepdims, _b_, tm.forall, "b")


def any(a, axis=None, keepdims=False, **kw):
    return _reduce(a, axis, keepdims, _b_, tm.exists, "b")


def count_nonzero(a, axis=None, keepdims=False):
    return _reduce(a, axis, keepdims, lambda t: ite(_b_(t), ONE, ZERO), tm.sum_, "i")


def _nonempty(a, axis):
    a = asarr(a)
    if a.mask is not None:
        raise Unsupported("max of selection")
    for i in _axes(a, axis):
        d = a.sh[i]
        if d.op == "num":
            if numval(d) == 0:
                raise ValueError("zero-size array to reduction operation which has no identity")
        elif not W().branch(tm.lt(ZERO, d), why="nonempty"):
            raise ValueError("zero-size array to reduction operation which has no identity")


def max(a, axis=None, out=None, keepdims=False, initial=None, **kw):
    a = asarr(a)
    _nonempty(a, axis)
    if a.kind == "c":
        raise Unsupported("max of complex")
    return _reduce(a, axis, keepdims, _n, tm.amax, a.kind)


def min(a, axis=None, out=None, keepdims=False, initial=None, **kw):
    a = asarr(a)
    _nonempty(a, axis)
    if a.kind == "c":
        raise Unsupported("min of complex")
    return _reduce(a, axis, keepdims, _n, tm.amin, a.kind)


amax, amin = max, min


def nanmax(*a, **k):
    return max(*a, **k)


def ptp(a, axis=None):
    return max(a, axis) - min(a, axis)


def _size_along(a, axis):
    a = asarr(a)
    return scalar(tm.mul(ONE, *[a.sh[i] for i in _axes(a, axis)]), "i")


def mean(a, axis=None, dtype=None, keepdims=False, **kw):
    a = asarr(a)
    return sum(a, axis, keepdims=keepdims) / _size_along(a, axis)


nanmean = mean


def var(a, axis=None, ddof=0, keepdims=False, **kw):
    a = asarr(a)
    m = mean(a, axis, keepdims=True)
    d = a - m
    return sum((d * conj(d)).real, axis, keepdims=keepdims) / (_size_along(a, axis) - ddof)  # noqa: F821


def std(a, axis=None, ddof=0, keepdims=False, **kw):
    return sqrt(var(a, axis, ddof=ddof, keepdims=keepdims))


nanstd = std


def average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = asarr(a)
    if weights is None:
        return mean(a, axis)
    w = asarr(weights)
    if len(w.sh) != len(a.sh):
        if len(w.sh) != 1 or axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        ax = axis % len(a.sh)
        w = w[tuple(slice(None) if i == ax else None for i in _b.range(len(a.sh)))]
        w = broadcast_to(w, a.shape)
    scl = sum(w, axis)
    return sum(a * w, axis) / scl


def median(*a, **k):
    raise Unsupported("median")


def cumsum(a, axis=None, dtype=None, **kw):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis %= len(a.sh)
    g = a.getter()

    def get(idx):
        v = fresh("r", "I")
        return tm.sum_(v, ZERO, idx[axis], _n(g(idx[:axis] + (v,) + idx[axis + 1:])))
    return from_fn(get, a.sh, "i" if a.kind == "b" else a.kind)


def cumprod(a, axis=None, **kw):
    a = asarr(a)
    axis = 0 if axis is None else axis % len(a.sh)
    g = a.getter()

    def get(idx):
        v = fresh("r", "I")
        return tm.prod_(v, ZERO, idx[axis], _n(g(idx[:axis] + (v,) + idx[axis + 1:])))
    return from_fn(get, a.sh, a.kind)


def diff(a, n=1, axis=-1, **kw):
    a = asarr(a)
    axis %= len(a.sh)
    pre = (slice(None),) * axis
    for _ in _b.range(n):
        a = a[pre + (slice(1, None),)] - a[pre + (slice(None, -1),)]
    return a


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    axis %= len(y.sh)
    if x is None:
        d = asarr(dx)
    else:
        x = asarr(x)
        d = diff(x, axis=-1 if len(x.sh) == 1 else axis)
        if len(x.sh) == 1:
            d = d[tuple(slice(None) if i == axis else None for i in _b.range(len(y.sh)))]
    pre = (slice(None),) * axis
    s = d * (y[pre + (slice(1, None),)] + y[pre + (slice(None, -1),)]) / 2.0
    return sum(s, axis=axis)


trapz = trapezoid


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return all(isclose(a, b, rtol, atol))


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return less_equal(abs(subtract(a, b)), atol + rtol * abs(b))  # noqa: F821


def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if len(a.sh) != len(b.sh) or not _b.all(same_dim(x, y) for x, y in zip(a.sh, b.sh)):
        return False
    return all(equal(a, b))  # noqa: F821


def _argext(a, axis, sign, name):
    a = asarr(a)
    if len(a.sh) != 1 or axis not in (None, 0, -1) or a.kind not in "if" or a.mask is not None or W().ambient:
        raise Unsupported(name)
    if W().branch(tm.le(a.sh[0], ZERO), why=name):
        raise ValueError(f"attempt to get {name} of an empty sequence")
    from . import ext
    from .evalt import ev
    g = a.getter()
    n = a.sh[0]

    def interp(env, idx):
        v = [ev(g((num(i),)), env) * sign for i in _b.range(int(ev(n, env)))]
        return v.index(_b.min(v))
    r = ext.uf_array(name, (), "i", interp)
    t = tm.app(r.ufname, (), "I")
    j = fresh("a", "I")
    W().ctx.assume(tm.le(ZERO, t))
    W().ctx.assume(tm.le(t, tm.sub(n, tm.ONE)))
    W().ctx.assume(tm.forall(j, ZERO, tm.sub(n, tm.ONE), tm.le(*((g((t,)), g((j,))) if sign > 0 else (g((j,)), g((t,)))))))
    return scalar(t, "i")


def argmax(a, axis=None, out=None):
    return _argext(a, axis, -1, "argmax")


def argmin(a, axis=None, out=None):
    return _argext(a, axis, 1, "argmin")


def argsort(*a, **k):
    raise Unsupported("argsort")


def argwhere(*a, **k):
    raise Unsupported("argwhere")


def nonzero(*a, **k):
    raise Unsupported("nonzero")


flatnonzero = nonzero


def sort(*a, **k):
    raise Unsupported("sort")


def isin(x, test, **k):
    x, t = asarr(x), asarr(test)
    if len(t.sh) != 1:
        raise Unsupported("isin")
    return any(equal(x[..., None], t), axis=-1)  # noqa: F821


def result_type(*args):
    ks = []
    for a in args:
        if isinstance(a, SArr):
            ks.append(a.kind)
        elif isinstance(a, (int, float, complex, bool)) and not isinstance(a, type):
            ks.append(asarr(a).kind)
        elif isinstance(a, (list, tuple)):
            ks.append(asarr(a).kind)
        else:
            ks.append(as_dtype(a).kind)
    return KIND[kjoin(*ks)]


promote_types = result_type


def common_type(*arrs):
    return KIND[kjoin("f", *[asarr(a).kind for a in arrs])]


def can_cast(a, b, casting="safe"):
    ka = asarr(a).kind if isinstance(a, SArr) else as_dtype(a).kind
    return KORD[ka] <= KORD[as_dtype(b).kind]


def min_scalar_type(a):
    return asarr(a).dtype


class dtype:
    def __new__(cls, d, *a, **k):
        return as_dtype(d)


def ndim(a):
    return asarr(a).ndim


def shape(a):
    return asarr(a).shape


def size(a, axis=None):
    a = asarr(a)
    return a.size if axis is None else a.shape[axis]


def may_share_memory(a, b):
    return a.buf is b.buf


def errstate(**k):
    import contextlib
    return contextlib.nullcontext()


def seterr(**k):
    return {}


def set_printoptions(**k):
    pass


# ---------------------------------------------------------- linear algebra
def matmul(a, b, out=None, **kw):
    a, b = asarr(a), asarr(b)
    if not a.sh or not b.sh:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    a1, b1 = len(a.sh) == 1, len(b.sh) == 1
    if a1:
        a = a[None, :]
    if b1:
        b = b[:, None]
    n = a.sh[-1]
    if not same_dim(n, b.sh[-2]):
        if (n.op == "num" and b.sh[-2].op == "num") or not W().branch(tm.eq(n, b.sh[-2]), why="matmul"):
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    bs = bshapes(a.sh[:-2], b.sh[:-2])
    ag, bg = bget(a, bs + a.sh[-2:]), bget(b, bs + b.sh[-2:])
    nb = len(bs)

    def get(idx):
        i = list(idx)
        bi = tuple(i[:nb])
        rest = i[nb:]
        row = ZERO if a1 else rest.pop(0)
        col = ZERO if b1 else rest.pop(0)
        v = fresh("r", "I")
        return tm.sum_(v, ZERO, tm.sub(n, ONE), tm.mul(ag(bi + (row, v)), bg(bi + (v, col))))
    sh = bs + (() if a1 else (a.sh[-2],)) + (() if b1 else (b.sh[-1],))
    r = from_fn(get, sh, kjoin(a.kind, b.kind))
    if out is not None:
        out[...] = r
        return out
    return r


def dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if not a.sh or not b.sh:
        return a * b
    if len(b.sh) == 1 or len(a.sh) <= 2 and len(b.sh) <= 2:
        return matmul(a, b)
    raise Unsupported("dot nd")


def inner(a, b):
    a, b = asarr(a), asarr(b)
    if len(a.sh) == 1 and len(b.sh) == 1:
        return matmul(a, b)
    raise Unsupported("inner")


def vdot(a, b):
    return matmul(conj(asarr(a).ravel()), asarr(b).ravel())  # noqa: F821


def vecdot(a, b, axis=-1):
    return sum(conj(a) * b, axis=axis)  # noqa: F821


def outer(a, b, out=None):
    return asarr(a).ravel()[:, None] * asarr(b).ravel()[None, :]


def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, int):
        axes = (list(_b.range(len(a.sh) - axes, len(a.sh))), list(_b.range(axes)))
    ax, bx = [list(x) if isinstance(x, (tuple, list)) else [x] for x in axes]
    ax = [x % len(a.sh) for x in ax]
    bx = [x % len(b.sh) for x in bx]
    letters = "abcdefghijklmnopqrstuvwxyz"
    la = list(letters[:len(a.sh)])
    lb = list(letters[len(a.sh):len(a.sh) + len(b.sh)])
    for x, y in zip(ax, bx):
        lb[y] = la[x]
    out = [c for i, c in enumerate(la) if i not in ax] + [c for i, c in enumerate(lb) if i not in bx]
    return einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), a, b)


def kron(a, b):
    raise Unsupported("kron")


def cross(a, b):
    raise Unsupported("cross")


def einsum(spec, *ops, optimize=None, **kw):
    ops = [asarr(o) for o in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        lhs, rhs = spec.split("->")
    else:
        lhs = spec
        flat = lhs.replace(",", "").replace(".", "")
        rhs = ("..." if "..." in lhs else "") + "".join(sorted(c for c in set(flat) if flat.count(c) == 1))
    ins = lhs.split(",")
    ell = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            ell = _b.max(ell, len(o.sh) - len(s.replace("...", "")))
    elln = [f"<{i}>" for i in _b.range(ell)]

    def labels(s, nd):
        if "..." not in s:
            return list(s)
        pre, post = s.split("...")
        k = nd - len(pre) - len(post)
        return list(pre) + elln[ell - k:] + list(post)
    labs = [labels(s, len(o.sh)) for s, o in zip(ins, ops)]
    if "..." in rhs:
        pre, post = rhs.split("...")
        out = list(pre) + elln + list(post)
    else:
        out = list(rhs)
    dims = {}
    for l, o in zip(labs, ops):
        if len(l) != len(o.sh):
            raise ValueError("einstein sum subscripts string does not match operand dims")
        for c, d in zip(l, o.sh):
            dims[c] = bshapes((dims[c],), (d,))[0] if c in dims else d
    gs = [o.getter() for o in ops]
    ones_ = [[is_one(d) and not is_one(dims[c]) for c, d in zip(l, o.sh)] for l, o in zip(labs, ops)]
    red = [c for c in dims if c not in out]

    def get(idx):
        m = dict(zip(out, idx))
        for c in red:
            m[c] = fresh("r", "I")
        t = tm.mul(ONE, *[g(tuple(ZERO if z else m[c] for c, z in zip(l, zs))) for g, l, zs in zip(gs, labs, ones_)])
        for c in reversed(red):
            t = tm.sum_(m[c], ZERO, tm.sub(dims[c], ONE), t)
        return t
    return from_fn(get, tuple(dims[c] for c in out), kjoin(*[o.kind for o in ops]))


def einsum_path(*a, **k):
    return [], ""


def vander(*a, **k):
    raise Unsupported("vander")


def polyvander(x, deg):
    x = asarray(x)
    d = dim_term(deg)
    if d.op == "num" and numval(d) < 0:
        raise ValueError("deg must be non-negative")
    g = x.getter()
    return from_fn(lambda i: tm.pow_(g(i[:-1]), i[-1]), x.sh + (tm.add(d, ONE),), kjoin("f", x.kind))


def polyval(x, c, tensor=True):
    """numpy.polynomial.polynomial.polyval"""
    x, c = asarr(x), asarr(c)
    n = c.sh[0]
    if len(c.sh) == 1:
        g = c.getter()

        def f(t):
            v = fresh("r", "I")
            return tm.sum_(v, ZERO, tm.sub(n, ONE), tm.mul(g((v,)), tm.pow_(t, v)))
        return _ew(f, lambda k: kjoin(k, c.kind), x)
    raise Unsupported("polyval nd")


def vectorize(f, otypes=None, doc=None, excluded=None, cache=False, signature=None):
    """np.vectorize with signature: f is executed once for a generic loop index"""
    def g(*args, **kw):
        if signature is None:
            raise Unsupported("np.vectorize without signature")
        ins, outs = signature.replace(" ", "").split("->")
        core = [c.strip("()").split(",") if c.strip("()") else [] for c in ins.replace("),(", ")|(").split("|")]
        ocore = [c.strip("()").split(",") if c.strip("()") else [] for c in outs.replace("),(", ")|(").split("|")]
        if len(core) != len(args):
            raise TypeError(f"wrong number of positional arguments: expected {len(core)}, got {len(args)}")
        arrs = [asarr(a) for a in args]
        dims = {}
        loops = []
        for a, c in zip(arrs, core):
            if len(a.sh) < len(c):
                raise ValueError(f"{len(a.sh)}-dimensional argument does not have enough dimensions for all core dimensions {tuple(c)}")
            for d, nm in zip(a.sh[len(a.sh) - len(c):], c):
                if nm in dims and not same_dim(d, dims[nm]):
                    raise ValueError(f"inconsistent size for core dimension {nm!r}")
                dims.setdefault(nm, d)
            loops.append(a.sh[:len(a.sh) - len(c)])
        lsh = bshapes(*loops)
        world = W()
        amb = [(fresh("L", "I"), d) for d in lsh]
        sym = [(v, d) for v, d in amb if not is_one(d)]
        li = tuple(v if not is_one(d) else ZERO for v, d in amb)
        cargs = []
        for a, c in zip(arrs, core):
            full = lsh + a.sh[len(a.sh) - len(c):]
            bg = bget(a, full)
            cargs.append(from_fn((lambda i, bg=bg: bg(li + tuple(i))), a.sh[len(a.sh) - len(c):], a.kind))
        for v, d in sym:
            world.ctx.assume(tm.le(ZERO, v))
            world.ctx.assume(tm.lt(v, dim_term(d)))
        world.ambient = world.ambient + sym
        try:
            r = f(*cargs, **kw)
        finally:
            world.ambient = world.ambient[:len(world.ambient) - len(sym)]
        rs = r if isinstance(r, tuple) else (r,)
        out = []
        for n, (x, c) in enumerate(zip(rs, ocore)):
            x = asarr(x)
            if len(x.sh) != len(c):
                raise ValueError(f"wrong number of core dimensions for output {n}")
            xg = x.getter()
            nl = len(lsh)
            kind = x.kind
            if otypes is not None:
                kind = as_dtype(otypes[n]).kind

            def get(i, xg=xg, nl=nl, xk=x.kind, kind=kind):
                t = xg(tuple(i[nl:]))
                if xk != kind:
                    t = cast_term(t, xk, kind)
                return tm.subst(t, {v: i[q] for q, (v, d) in enumerate(amb) if not is_one(d)})
            out.append(from_fn(get, lsh + x.sh, kind))
        return out[0] if not isinstance(r, tuple) else tuple(out)
    g.__wrapped__ = f
    return g


def frompyfunc(f, nin, nout):
    return _PyUfunc(f)


class _PyUfunc:
    def __init__(self, f):
        self.f = f

    def __call__(self, *args):
        return _ew(lambda *ts: self.f(*ts), lambda *k: kjoin("c"), *args)


def apply_along_axis(*a, **k):
    raise Unsupported("apply_along_axis")


def interp(*a, **k):
    raise Unsupported("interp")


def convolve(*a, **k):
    raise Unsupported("convolve")


def searchsorted(*a, **k):
    raise Unsupported("searchsorted")


def unique(*a, **k):
    raise Unsupported("unique")


def histogram(*a, **k):
    raise Unsupported("histogram")


def poly(*a, **k):
    raise Unsupported("poly")


def sinc(x):
    raise Unsupported("sinc")


def nditer(*a, **k):
    raise Unsupported("nditer")


def ndenumerate(*a, **k):
    raise Unsupported("ndenumerate")


def ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    import itertools
    return itertools.product(*[_b.range(int(s)) for s in shape])


# scimath ------------------------------------------------------------------
def em_sqrt(x):
    x = asarr(x)
    if x.kind == "c":
        return sqrt(x)
    return _ew(csqrt_t, lambda k: "c", x)


def em_log(x):
    x = asarr(x)
    if x.kind == "c":
        return log(x)  # noqa: F821

    def f(a):
        a = t_real(_n(a))
        return ite(tm.gt(a, ZERO), fn("log", a), tm.add(fn("log", tm.neg(a)), tm.mul(IU, PI)))
    return _ew(f, lambda k: "c", x)


def em_power(x, p):
    return _ew(lambda a, b: _pow_t(a, b) if (b.sort == "I" or a.sort == "C") else (fn("cpow", tm.add(a, tm.mul(IU, num(0))), b) if False else _empow(a, b)), lambda *k: kjoin("c"), x, p)


def _empow(a, b):
    if b.op == "num" and numval(b).denominator in (1,):
        return tm.pow_(a, num(int(numval(b))))
    if b.op == "num" and numval(b).denominator == 2:
        return tm.pow_(csqrt_t(a), num(int(numval(b) * 2)))
    return fn("cpow", a, b)


# ------------------------------------------------------------------- fft
def hfft(a, n=None, axis=-1, norm=None):
    """Hermitian FFT: out[k] = sum_{m=0}^{n-1} A[m] exp(-2 pi i k m/n) with A the Hermitian extension of a[:n//2+1]."""
    a = asarr(a)
    axis %= len(a.sh)
    if axis != len(a.sh) - 1 or norm not in (None, "backward"):
        raise Unsupported("hfft")
    m = a.sh[-1]
    nn = tm.mul(num(2), tm.sub(m, ONE)) if n is None else dim_term(n)
    if nn.op != "num" and W().cond(tm.ge(nn, ONE)) is not True:
        if not W().branch(tm.ge(nn, ONE), why="hfft"):
            raise ValueError("Invalid number of data points (0) specified.")
    half = fn("fdiv", nn, num(2))
    g = a.getter()
    z = num(0, "C")

    def elem(b, p):
        # zero padding of the half spectrum
        c = tm.lt(p, m)
        return ite(c, g(b + (p,)), z)

    def get(idx):
        b, k = idx[:-1], idx[-1]
        v = fresh("r", "I")
        # out[k] = Re a[0] + sum_{p=1}^{(n-1)//2} 2 Re(a[p] exp(-2 pi i k p/n)) + [n even] Re(a[n/2]) (-1)^k
        ph = fn("exp", tm.mul(num(-2), IU, PI, k, v, tm.pow_(nn, num(-1))))
        x = tm.mul(elem(b, v), ph)
        mid = tm.sum_(v, ONE, fn("fdiv", tm.sub(nn, ONE), num(2)), tm.mul(num(2), fn("re", x)))
        r = tm.add(fn("re", elem(b, ZERO)), mid)
        par = fn("mod", nn, num(2))
        nyq = tm.mul(fn("re", elem(b, half)), fn("re", fn("exp", tm.mul(IU, PI, k))))
        ev_ = tm.eq(par, ZERO)
        d = W().cond(ev_)
        if d is True:
            return tm.add(r, nyq)
        if d is False:
            return r
        return tm.add(r, ite(ev_, nyq, num(0, "R")))
    return from_fn(get, a.sh[:-1] + (nn,), "f")


def ihfft(a, n=None, axis=-1, norm=None):
    """out[k] = 1/n sum_m a[m] exp(+2 pi i k m/n), k = 0..n//2 (real input)."""
    a = asarr(a)
    axis %= len(a.sh)
    if axis != len(a.sh) - 1 or norm not in (None, "backward"):
        raise Unsupported("ihfft")
    m = a.sh[-1]
    nn = m if n is None else dim_term(n)
    g = a.getter()
    if a.kind == "c":
        raise TypeError("ufunc 'rfft_n_even' did not contain a loop with signature matching types")

    def get(idx):
        b, k = idx[:-1], idx[-1]
        v = fresh("r", "I")
        x = g(b + (v,))
        if nn is not m:
            x = ite(tm.lt(v, m), x, num(0, "R"))
        return tm.mul(tm.pow_(nn, num(-1)), tm.sum_(v, ZERO, tm.sub(nn, ONE), tm.mul(x, fn("exp", tm.mul(num(2), IU, PI, k, v, tm.pow_(nn, num(-1)))))))
    return from_fn(get, a.sh[:-1] + (tm.add(fn("fdiv", nn, num(2)), ONE),), "c")


def _dft(sign, scale):
    def f(a, n=None, axis=-1, norm=None):
        a = asarr(a)
        axis_ = axis % len(a.sh)
        if norm not in (None, "backward"):
            raise Unsupported("fft norm")
        a = moveaxis(a, axis_, -1)
        m = a.sh[-1]
        nn = m if n is None else dim_term(n)
        g = a.getter()

        def get(idx):
            b, k = idx[:-1], idx[-1]
            v = fresh("r", "I")
            x = g(b + (v,))
            if nn is not m:
                x = ite(tm.lt(v, m), x, num(0, "C"))
            s = tm.sum_(v, ZERO, tm.sub(nn, ONE), tm.mul(x, fn("exp", tm.mul(num(2 * sign), IU, PI, k, v, tm.pow_(nn, num(-1))))))
            return tm.mul(tm.pow_(nn, num(-1)), s) if scale else s
        return moveaxis(from_fn(get, a.sh[:-1] + (nn,), "c"), -1, axis_)
    return f


fft_ = _dft(-1, False)
ifft_ = _dft(1, True)


def rfft_(a, n=None, axis=-1, norm=None):
    r = fft_(asarr(a), n, axis, norm)
    axis %= len(r.sh)
    nn = r.sh[axis]
    return r[(slice(None),) * axis + (slice(None, dim_out(tm.add(fn("fdiv", nn, num(2)), ONE))),)]
