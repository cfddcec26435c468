"""Hash-consed terms of the verification logic.

Sorts: I (integer), R (real), C (complex), B (boolean).  All arithmetic is
mathematical (unbounded integers, exact reals/complexes); this is stated as an
assumption in every evidence file.
"""
from fractions import Fraction
import math

_TABLE = {}
_COUNT = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "fv", "size", "flags", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _TABLE.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort = op, args, sort
    t.id = _COUNT[0]
    _COUNT[0] += 1
    fv = frozenset()
    size = 1
    for a in args:
        if isinstance(a, T):
            fv |= a.fv
            size += a.size
    if op == "var":
        fv = frozenset([t])
    elif op in ("sum", "prod", "amax", "amin", "forall", "exists"):
        fv = fv - {args[0]}
    t.fv = fv
    t.size = size
    t.flags = 0
    _TABLE[key] = t
    return t


# ----------------------------------------------------------------- numbers
def simplest_fraction(x):
    """Simplest rational that rounds to the double x (floats denote decimal literals)."""
    if x != x or x in (math.inf, -math.inf):
        raise ValueError("non-finite")
    fr = Fraction(x)
    if fr.denominator == 1:
        return fr
    for den in (10**3, 10**6, 10**9, 10**12):
        c = fr.limit_denominator(den)
        if float(c) == x:
            return c
    # shortest decimal representation
    c = Fraction(repr(float(x)))
    return c


def num(v, sort=None):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return _mk("num", (Fraction(v),), sort or "I")
    if isinstance(v, Fraction):
        return _mk("num", (v,), sort or ("R" if v.denominator != 1 else "I"))
    if isinstance(v, float):
        if v != v:
            return NAN
        if v == math.inf:
            return INF
        if v == -math.inf:
            return mul(num(-1), INF)
        if v == math.pi:
            return PI
        for n, d in ((1, 2), (2, 1), (4, 1), (1, 4), (-1, 1), (1, 3), (2, 3)):
            if v == math.pi * n / d:
                return mul(num(Fraction(n, d)), PI)
        f = simplest_fraction(v)
        if f.denominator > 10**6:
            q = (Fraction(v)**2).limit_denominator(20000)     # roots of small rationals such as 2**-1.5
            if q and abs(math.sqrt(q) - abs(v)) <= 2 * math.ulp(v):
                r = fn("sqrt", num(q, "R"))
                return r if v > 0 else neg(r)
        return _mk("num", (f,), "R")
    if isinstance(v, complex):
        if v.imag == 0 and num(v.real).op == "num":
            return _mk("num", (num(v.real).args[0],), "C") if v.real == v.real and abs(v.real) != math.inf else num(v.real)
        re, im = num(v.real), num(v.imag)
        return add(re, mul(im, IU))
    raise TypeError(f"num {v!r}")


NAN = _mk("const", ("nan",), "R")
INF = _mk("const", ("inf",), "R")
PI = _mk("const", ("pi",), "R")
IU = _mk("const", ("I",), "C")
TRUE = _mk("true", (), "B")
FALSE = _mk("false", (), "B")

ZERO = num(0)
ONE = num(1)
_fresh = [0]


def var(name, sort):
    return _mk("var", (name,), sort)


def fresh(name, sort):
    _fresh[0] += 1
    return var(f"{name}!{_fresh[0]}", sort)


def bvar(depth):
    return var(f"@{depth}", "I")


def app(name, args, sort):
    return _mk("app", (name, *args), sort)


def is_num(t):
    return t.op == "num"


def numval(t):
    return t.args[0]


_ORD = {"B": 0, "I": 1, "R": 2, "C": 3}


def join(*sorts):
    return max(sorts, key=lambda s: _ORD[s])


def _lin(t):
    """coefficient, rest for like-term collection."""
    if t.op == "num":
        return numval(t), None
    if t.op == "mul" and t.args[0].op == "num":
        rest = t.args[1:]
        r = rest[0] if len(rest) == 1 else _mk("mul", rest, t.sort)
        return numval(t.args[0]), r
    return Fraction(1), t


def add(*ts):
    sort = "I"
    acc = {}
    const = Fraction(0)
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        sort = join(sort, t.sort)
        if t.op == "add":
            stack.extend(reversed(t.args))
            continue
        if t is NAN:
            return NAN
        c, r = _lin(t)
        if r is None:
            const += c
        else:
            acc[r] = acc.get(r, 0) + c
    out = []
    for r, c in acc.items():
        if c == 0:
            if not _finite(r):
                return NAN
            continue
        out.append(_scale(c, r))
    out.sort(key=lambda t: t.id)
    if const != 0 or not out:
        out.insert(0, _mk("num", (const,), _nsort(const, sort if not out else "I")))
    if len(out) == 1:
        return _cast(out[0], sort)
    return _mk("add", tuple(out), sort)


def _nsort(c, sort):
    return "R" if (sort == "I" and c.denominator != 1) else sort


def _cast(t, sort):
    if t.op == "num" and _ORD[t.sort] < _ORD[sort]:
        return _mk("num", t.args, sort)
    return t


def _finite(t):
    if t is INF or t is NAN:
        return False
    return not any(isinstance(a, T) and not _finite(a) for a in t.args) if (t.op in ("mul", "add", "pow") and t.size < 200) else True


def _scale(c, r):
    if c == 1:
        return r
    n = _mk("num", (Fraction(c),), "I" if Fraction(c).denominator == 1 else "R")
    sort = join(n.sort, r.sort)
    if r.op == "mul":
        return _mk("mul", (n, *r.args), sort)
    return _mk("mul", (n, r), sort)


def mul(*ts):
    sort = "I"
    c = Fraction(1)
    ipow = 0
    acc = {}
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        sort = join(sort, t.sort)
        if t.op == "mul":
            stack.extend(reversed(t.args))
            continue
        if t is NAN:
            return NAN
        if t.op == "num":
            c *= numval(t)
            continue
        if t is IU:
            ipow += 1
            continue
        b, e = (t.args[0], t.args[1]) if t.op == "pow" else (t, ONE)
        if e.op == "num" and b is not INF:
            acc[b] = add(acc[b], e) if b in acc else e
        else:
            acc[t] = add(acc.get(t, ZERO), ONE)
    if c == 0:
        if all(_finite(b) for b in acc):
            return _mk("num", (Fraction(0),), "I" if sort == "I" else sort)
        return NAN
    ipow %= 4
    if ipow in (2, 3):
        c = -c
    out = []
    for b, e in acc.items():
        p = pow_(b, e)
        if p.op == "num":
            c *= numval(p)
        elif p.op == "mul":
            # pow_ may distribute
            for q in p.args:
                if q.op == "num":
                    c *= numval(q)
                elif q is IU:
                    ipow += 1
                else:
                    out.append(q)
        else:
            out.append(p)
    if ipow in (1, 3):
        out.append(IU)
    out.sort(key=lambda t: t.id)
    for t in out:
        sort = join(sort, t.sort)
    if not out:
        return _mk("num", (c,), _nsort(c, sort))
    if c != 1:
        n = _mk("num", (c,), "I" if c.denominator == 1 else "R")
        sort = join(sort, n.sort)
        if len(out) == 1 and out[0].op == "add":
            return add(*[_scale2(c, a) for a in out[0].args])
        out.insert(0, n)
    if len(out) == 1:
        return out[0]
    return _mk("mul", tuple(out), sort)


def _scale2(c, a):
    k, r = _lin(a)
    if r is None:
        v = k * c
        return _mk("num", (v,), _nsort(v, a.sort))
    return _scale(k * c, r) if k * c != 1 else r


def pow_(b, e):
    if e.op == "num":
        ev = numval(e)
        if ev == 1:
            return b
        if ev == 0:
            return _mk("num", (Fraction(1),), b.sort)
        if b.op == "num" and ev.denominator == 1:
            if numval(b) == 0 and ev < 0:
                return INF
            v = numval(b) ** int(ev)
            return _mk("num", (v,), _nsort(v, b.sort))
        if b is IU and ev.denominator == 1:
            k = int(ev) % 4
            return [ONE, IU, num(-1), mul(num(-1), IU)][k]
        if ev.denominator == 1 and b.op == "pow" and b.args[1].op == "num" and numval(b.args[1]).denominator == 1:
            return pow_(b.args[0], num(numval(b.args[1]) * ev))
        if ev.denominator == 1 and b.op == "mul":
            return mul(*[pow_(a, e) for a in b.args])
        if ev == Fraction(1, 2):
            return fn("sqrt", b)
        if ev == Fraction(-1, 2):
            return pow_(fn("sqrt", b), num(-1))
        sort = b.sort
        if sort == "I" and ev < 0:
            sort = "R"
        if sort == "I" and ev.denominator != 1:
            sort = "R"
        return _mk("pow", (b, e), sort)
    if b.op == "num" and numval(b) == 1:
        return b
    sort = join(b.sort, e.sort)
    return _mk("pow", (b, e), sort)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    if b.op == "num" and numval(b) == 0:
        if a.op == "num":
            v = numval(a)
            return NAN if v == 0 else (INF if v > 0 else neg(INF))
        return mul(a, INF)
    if b is INF or (b.op == "mul" and INF in b.args):
        return _mk("num", (Fraction(0),), "R")
    r = mul(a, pow_(b, num(-1)))
    if r.sort == "I" and not (r.op == "num"):
        pass
    return real(r) if r.sort == "I" else r


def real(t):
    """Cast integer to real sort (same value)."""
    if t.sort != "I":
        return t
    if t.op == "num":
        return _mk("num", t.args, "R")
    return _mk("toreal", (t,), "R")


# ------------------------------------------------------------- functions
def fn(name, *args):
    args = tuple(args)
    for a in args:
        if a is NAN and name not in ("isnan",):
            return NAN
    f = _FNS.get(name)
    if f is not None:
        r = f(*args)
        if r is not None:
            return r
    return _mk("fn", (name, *args), _fnsort(name, args))


def _fnsort(name, args):
    if name in ("re", "im", "abs", "arg"):
        return "R"
    if name in ("floor", "ceil", "trunc", "fdiv", "mod", "round", "isign"):
        return "I" if all(a.sort == "I" for a in args) or name not in ("mod",) else "R"
    if name in ("exp", "sqrt", "log", "conj", "ellipk", "cbrt"):
        return "C" if args[0].sort == "C" else "R"
    if name in ("csqrt", "clog", "cellipk", "cpow"):
        return "C"
    if name in ("sign",):
        return "C" if args[0].sort == "C" else "R"
    if name in ("min", "max"):
        return join(*[a.sort for a in args])
    return "C" if any(a.sort == "C" for a in args) else "R"


def isreal(t):
    return t.sort != "C"


def _f_conj(t):
    if isreal(t):
        return t
    if t is IU:
        return neg(IU)
    if t.op in ("add", "mul"):
        return (add if t.op == "add" else mul)(*[fn("conj", a) for a in t.args])
    if t.op == "pow" and t.args[1].sort == "I":
        return pow_(fn("conj", t.args[0]), t.args[1])
    if t.op == "fn":
        if t.args[0] == "conj":
            return t.args[1]
        if t.args[0] == "exp":
            return fn("exp", fn("conj", t.args[1]))
    if t.op == "sum":
        return sum_(t.args[0], t.args[1], t.args[2], fn("conj", t.args[3]))
    if t.op == "prod":
        return prod_(t.args[0], t.args[1], t.args[2], fn("conj", t.args[3]))
    if t.op == "ite":
        return ite(t.args[0], fn("conj", t.args[1]), fn("conj", t.args[2]))
    return None


def _split_real(t):
    """If t = a + I*b with syntactically real a, b return (a, b) else None."""
    if isreal(t):
        return t, ZERO
    if t is IU:
        return ZERO, ONE
    if t.op == "mul":
        rs = [a for a in t.args if a is not IU]
        if len(rs) < len(t.args) and all(isreal(a) for a in rs):
            return ZERO, mul(*rs)
        return None
    if t.op == "add":
        re, im = [], []
        for a in t.args:
            s = _split_real(a)
            if s is None:
                return None
            re.append(s[0])
            im.append(s[1])
        return add(*re), add(*im)
    if t.op == "ite":
        a = _split_real(t.args[1])
        b = _split_real(t.args[2])
        if a and b:
            return ite(t.args[0], a[0], b[0]), ite(t.args[0], a[1], b[1])
        return None
    if t.op == "sum":
        a = _split_real(t.args[3])
        if a:
            return (sum_(t.args[0], t.args[1], t.args[2], a[0]),
                    sum_(t.args[0], t.args[1], t.args[2], a[1]))
        return None
    if t.op == "num":
        return _mk("num", t.args, "R"), ZERO
    return None


def _f_re(t):
    if isreal(t):
        return real(t)
    s = _split_real(t)
    if s:
        return real(s[0])
    if t.op == "add":
        return add(*[fn("re", a) for a in t.args])
    if t.op == "mul":
        rs = [a for a in t.args if isreal(a)]
        if rs:
            cs = [a for a in t.args if not isreal(a)]
            return mul(*rs, fn("re", mul(*cs)))
        if IU in t.args:
            return neg(fn("im", mul(*[a for a in t.args if a is not IU])))
    if t.op == "fn" and t.args[0] == "conj":
        return fn("re", t.args[1])
    if t.op == "sum":
        return sum_(t.args[0], t.args[1], t.args[2], fn("re", t.args[3]))
    if t.op == "ite":
        return ite(t.args[0], fn("re", t.args[1]), fn("re", t.args[2]))
    return None


def _f_im(t):
    if isreal(t):
        return num(0, "R")
    s = _split_real(t)
    if s:
        return real(s[1])
    if t.op == "add":
        return add(*[fn("im", a) for a in t.args])
    if t.op == "mul":
        rs = [a for a in t.args if isreal(a)]
        if rs:
            cs = [a for a in t.args if not isreal(a)]
            return mul(*rs, fn("im", mul(*cs)))
        if IU in t.args:
            return fn("re", mul(*[a for a in t.args if a is not IU]))
    if t.op == "fn" and t.args[0] == "conj":
        return neg(fn("im", t.args[1]))
    if t.op == "sum":
        return sum_(t.args[0], t.args[1], t.args[2], fn("im", t.args[3]))
    if t.op == "ite":
        return ite(t.args[0], fn("im", t.args[1]), fn("im", t.args[2]))
    return None


def _f_exp(t):
    if t.op == "num" and numval(t) == 0:
        return _mk("num", (Fraction(1),), t.sort if t.sort != "I" else "R")
    if t is INF:
        return INF
    if t.op == "mul" and len(t.args) == 2 and INF in t.args and is_num(t.args[0]) and numval(t.args[0]) < 0:
        return num(0, "R")
    return None


def _f_sqrt(t):
    if t.op == "num":
        v = numval(t)
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return _mk("num", (Fraction(n, d),), "R" if t.sort == "I" else t.sort)
    return None


def _f_abs(t):
    if t.op == "num":
        return _mk("num", (abs(numval(t)),), t.sort if t.sort != "C" else "R")
    if t is PI or t is INF:
        return t
    if isreal(t):
        return ite(ge(t, ZERO), t, neg(t))
    return None


def syn_nonneg(t):
    """t is real and >= 0 for syntactic reasons: sums/products of even powers, |x|, roots, x*conj(x)"""
    if t.op == "num":
        return numval(t) >= 0
    if t.op == "add":
        return all(syn_nonneg(x) for x in t.args)
    if t.op == "mul":
        rest = list(t.args)
        for x in t.args:
            if x in rest and not syn_nonneg(x):
                c = fn("conj", x)
                if c is x or c not in rest:
                    return False
                rest.remove(x)
                rest.remove(c)
        return True
    if t.op == "fn" and t.args[0] == "abs":
        return True
    if t.sort == "C":
        return False
    if t.op == "pow":
        e = t.args[1]
        return e.op == "num" and ((numval(e) > 0 and numval(e) % 2 == 0) or syn_nonneg(t.args[0]))
    return t.op == "fn" and t.args[0] == "sqrt"


def _f_sign(t):
    if isreal(t):
        return ite(gt(t, ZERO), num(1, "R"), ite(lt(t, ZERO), num(-1, "R"), num(0, "R")))
    return None


def _f_min(a, b):
    return ite(le(a, b), a, b)


def _f_max(a, b):
    return ite(ge(a, b), a, b)


def _f_trunc(t):
    if t.sort == "I":
        return t
    if t.op == "num":
        v = numval(t)
        return num(int(v))
    if t.op == "toreal":
        return t.args[0]
    return None


def _f_floor(t):
    if t.sort == "I":
        return t
    if t.op == "num":
        return num(math.floor(numval(t)))
    if t.op == "toreal":
        return t.args[0]
    return None


def _f_fdiv(a, b):
    if a.op == "num" and b.op == "num" and numval(b) != 0:
        return num(math.floor(numval(a) / numval(b)), "I" if a.sort == b.sort == "I" else "R")
    if b.op == "num" and numval(b) == 1 and a.sort == "I":
        return a
    if b.op == "num" and a.sort == "I" and b.sort == "I":
        # exact linear division: (b*q + r)//b
        bv = numval(b)
        items = a.args if a.op == "add" else (a,)
        q, r = [], []
        for it in items:
            c, rest = _lin(it)
            if rest is None:
                qq = math.floor(c / bv)
                q.append(num(qq))
                r.append(num(c - qq * bv))
            elif (c / bv).denominator == 1:
                q.append(_scale(c / bv, rest) if c != bv else rest)
            else:
                r.append(it)
        if q and len(r) < len(items) or (q and any(not (x.op == "num" and numval(x) == 0) for x in q)):
            rr = add(*r) if r else ZERO
            if rr.op == "num" and 0 <= numval(rr) < bv:
                return add(*q)
            if rr is not a:
                return add(*q, _mk("fn", ("fdiv", rr, b), "I"))
    return None


def _f_mod(a, b):
    if a.op == "num" and b.op == "num" and numval(b) != 0:
        return num(numval(a) - numval(b) * math.floor(numval(a) / numval(b)))
    if a.sort == "I" and b.sort == "I":
        return sub(a, mul(b, fn("fdiv", a, b)))
    return None


_FNS = {"conj": _f_conj, "re": _f_re, "im": _f_im, "exp": _f_exp, "sqrt": _f_sqrt,
        "abs": _f_abs, "sign": _f_sign, "min": _f_min, "max": _f_max,
        "trunc": _f_trunc, "floor": _f_floor, "fdiv": _f_fdiv, "mod": _f_mod}


# ---------------------------------------------------------------- booleans
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    sort = join(a.sort, b.sort)
    if c.op == "not":
        return _mk("ite", (c.args[0], b, a), sort)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk("ite", (c, a, b), sort)


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "forall":
        return exists(c.args[0], c.args[1], c.args[2], not_(c.args[3]))
    if c.op == "exists":
        return forall(c.args[0], c.args[1], c.args[2], not_(c.args[3]))
    if c.op == "and":
        return or_(*[not_(a) for a in c.args])
    if c.op == "or":
        return and_(*[not_(a) for a in c.args])
    if c.op == "le":
        return lt(c.args[1], c.args[0])
    if c.op == "lt":
        return le(c.args[1], c.args[0])
    return _mk("not", (c,), "B")


def and_(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for d in (c.args if c.op == "and" else (c,)):
            if d not in out:
                out.append(d)
    for c in out:
        if not_(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _mk("and", tuple(out), "B")


def or_(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        for d in (c.args if c.op == "or" else (c,)):
            if d not in out:
                out.append(d)
    for c in out:
        if c.op in ("lt", "le", "eq", "not", "var", "app") and not_(c) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _mk("or", tuple(out), "B")


def _cmp(op, a, b):
    # nan and inf
    if a is NAN or b is NAN:
        return FALSE
    ai, bi = _infsign(a), _infsign(b)
    if ai or bi:
        if ai and bi:
            v = {"lt": ai < bi, "le": ai <= bi, "eq": ai == bi}[op]
        elif ai:
            v = {"lt": ai < 0, "le": ai < 0, "eq": False}[op]
        else:
            v = {"lt": bi > 0, "le": bi > 0, "eq": False}[op]
        return TRUE if v else FALSE
    d = sub(a, b)
    if d.op == "num":
        v = numval(d)
        r = {"lt": v < 0, "le": v <= 0, "eq": v == 0}[op]
        return TRUE if r else FALSE
    if op == "eq":
        # canonical orientation
        c, r = _lin(d) if d.op != "add" else (_lin(d.args[0])[0], None)
        if c < 0:
            d = neg(d)
        return _mk("eq", (d, num(0)), "B")
    if d.op == "add" and d.args[0].op == "num":
        return _mk(op, (add(*d.args[1:]), num(-numval(d.args[0]))), "B")
    return _mk(op, (d, num(0)), "B")


def _infsign(t):
    if t is INF:
        return 1
    if t.op == "mul" and len(t.args) == 2 and t.args[1] is INF and t.args[0].op == "num":
        return 1 if numval(t.args[0]) > 0 else -1
    if t.op == "mul" and len(t.args) == 2 and t.args[0] is INF and t.args[1].op == "num":
        return 1 if numval(t.args[1]) > 0 else -1
    return 0


def lt(a, b):
    if a.sort == "I" and b.sort == "I":
        # integers: a < b  <->  a+1 <= b
        return _cmp("le", add(a, ONE), b)
    return _cmp("lt", a, b)


def le(a, b):
    return _cmp("le", a, b)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a.sort == "B" or b.sort == "B":
        if a is b:
            return TRUE
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a is b and a is not NAN:
        return TRUE
    return _cmp("eq", a, b)


def ne(a, b):
    return not_(eq(a, b))


def implies(a, b):
    return or_(not_(a), b)


# ----------------------------------------------------------------- binders
def _depth(t, cache=None):
    """1 + max index of canonical bound variables bound inside t."""
    return _bdepth(t)


_BD = {}


def _bdepth(t):
    r = _BD.get(t)
    if r is not None:
        return r
    d = 0
    for a in t.args:
        if isinstance(a, T):
            d = max(d, _bdepth(a))
    if t.op in ("sum", "prod", "amax", "amin", "forall", "exists"):
        d = max(d, int(t.args[0].args[0][1:]) + 1)
    _BD[t] = d
    return d


def _binder(op, j, lo, hi, body, sort):
    """j: a fresh var; canonicalise to @depth."""
    d = max(_bdepth(body), _bdepth(lo), _bdepth(hi))
    for v in body.fv:
        nm = v.args[0]
        if nm[0] == "@" and v is not j:
            d = max(d, int(nm[1:]) + 1)
    b = bvar(d)
    if b is not j:
        body = subst(body, {j: b})
    return _mk(op, (b, lo, hi, body), sort)


MAXUNROLL = 64


def _rng(lo, hi):
    d = sub(hi, lo)
    if lo.op == "num" and hi.op == "num":
        n = int(numval(hi) - numval(lo)) + 1
        return list(range(int(numval(lo)), int(numval(hi)) + 1)) if n <= MAXUNROLL else None
    if d.op == "num" and numval(d) < 12:
        return [add(lo, num(k)) for k in range(int(numval(d)) + 1)]
    return None


def sum_(j, lo, hi, body):
    """sum over lo <= j <= hi (inclusive)."""
    if body.op == "num" and numval(body) == 0:
        return body
    r = _rng(lo, hi)
    if r is not None:
        return add(_mk("num", (Fraction(0),), "I"), *[subst(body, {j: k if isinstance(k, T) else num(k)}) for k in r])
    return _binder("sum", j, lo, hi, body, body.sort)


def prod_(j, lo, hi, body):
    r = _rng(lo, hi)
    if r is not None:
        return mul(ONE, *[subst(body, {j: k if isinstance(k, T) else num(k)}) for k in r])
    return _binder("prod", j, lo, hi, body, body.sort)


def amax(j, lo, hi, body):
    r = _rng(lo, hi)
    if r:
        res = None
        for k in r:
            v = subst(body, {j: k if isinstance(k, T) else num(k)})
            res = v if res is None else fn("max", res, v)
        return res
    return _binder("amax", j, lo, hi, body, body.sort)


def amin(j, lo, hi, body):
    return neg(amax(j, lo, hi, neg(body)))


def forall(j, lo, hi, body):
    if body is TRUE:
        return TRUE
    r = _rng(lo, hi)
    if r is not None:
        return and_(*[subst(body, {j: k if isinstance(k, T) else num(k)}) for k in r])
    if body is FALSE or j not in body.fv:
        return or_(body, gt(lo, hi))
    if body.op == "and":
        return and_(*[forall(j, lo, hi, b) for b in body.args])
    return _binder("forall", j, lo, hi, body, "B")


def exists(j, lo, hi, body):
    if body is FALSE:
        return FALSE
    r = _rng(lo, hi)
    if r is not None:
        return or_(*[subst(body, {j: k if isinstance(k, T) else num(k)}) for k in r])
    if body is TRUE or j not in body.fv:
        return and_(body, le(lo, hi))
    if body.op == "or":
        return or_(*[exists(j, lo, hi, b) for b in body.args])
    return _binder("exists", j, lo, hi, body, "B")


BINDERS = {"sum": sum_, "prod": prod_, "amax": amax, "amin": amin, "forall": forall, "exists": exists}


# ------------------------------------------------------------ substitution
def rebuild(t, args):
    op = t.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        return pow_(*args)
    if op == "fn":
        return fn(*args)
    if op == "ite":
        return ite(*args)
    if op == "not":
        return not_(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "le":
        return le(*args)
    if op == "lt":
        return lt(*args)
    if op == "eq":
        return eq(*args)
    if op == "toreal":
        return real(*args)
    if op in BINDERS:
        return BINDERS[op](*args)
    return _mk(op, tuple(args), t.sort)


def subst(t, m, memo=None):
    """Simultaneous substitution var->term (bound vars are canonical and never clash:
    a binder @d only ever encloses binders with smaller index)."""
    if memo is None:
        memo = {}
    keys = frozenset(m)

    def go(t, keys):
        if not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "var":
            return m.get(t, t)
        if t.op in BINDERS:
            j, lo, hi, body = t.args
            f = fresh("b", "I")
            body2 = subst(body, {j: f})
            body2 = go(body2, keys)
            r = BINDERS[t.op](f, go(lo, keys), go(hi, keys), body2)
        else:
            r = rebuild(t, [go(a, keys) if isinstance(a, T) else a for a in t.args])
        memo[t] = r
        return r
    return go(t, keys)


def replace(t, f, memo=None):
    """Bottom-up rewriting: f(node) -> node or None; does not descend into binder bodies' vars."""
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in BINDERS:
            j, lo, hi, body = t.args
            fr = fresh("b", "I")
            body2 = go(subst(body, {j: fr}))
            n = BINDERS[t.op](fr, go(lo), go(hi), body2)
        elif any(isinstance(a, T) for a in t.args):
            n = rebuild(t, [go(a) if isinstance(a, T) else a for a in t.args])
        else:
            n = t
        r2 = f(n)
        r = n if r2 is None else r2
        memo[t] = r
        return r
    return go(t)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(a for a in x.args if isinstance(a, T))


# ------------------------------------------------------------------- print
def show(t, depth=0):
    if depth > 14:
        return "…"
    s = lambda a: show(a, depth + 1)
    op = t.op
    if op == "num":
        return str(t.args[0])
    if op in ("const", "var"):
        return str(t.args[0])
    if op == "app":
        return f"{t.args[0]}[{', '.join(s(a) for a in t.args[1:])}]"
    if op == "fn":
        return f"{t.args[0]}({', '.join(s(a) for a in t.args[1:])})"
    if op == "add":
        return "(" + " + ".join(s(a) for a in t.args) + ")"
    if op == "mul":
        return "*".join(s(a) for a in t.args)
    if op == "pow":
        return f"({s(t.args[0])})**({s(t.args[1])})"
    if op in ("true", "false"):
        return op
    if op in BINDERS:
        return f"{op}[{s(t.args[0])}={s(t.args[1])}..{s(t.args[2])}]({s(t.args[3])})"
    return f"{op}({', '.join(s(a) for a in t.args if isinstance(a, T))})"
