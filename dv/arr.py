"""Symbolic n-dimensional arrays with numpy semantics (shapes may be symbolic)."""
import math
from .term import *
from .term import _mk, T
from . import term as tm


class Unsupported(BaseException):
    """A construct outside the verifier's reach (never caught by the code under verification)."""


class PathLimit(BaseException):
    pass


class World:
    """State of one symbolic execution path and of the contract being verified."""
    current = None


def W():
    return World.current


# ----------------------------------------------------------------- dtypes
class SDtype:
    def __init__(self, name, kind, rank):
        self.name, self.kind, self.rank = name, kind, rank
        self.itemsize = 8
        self.char = {"float64": "d", "complex128": "D"}.get(name, "x")

    def __call__(self, x=0, *a, **k):
        return asarr(x).astype(self).as_scalar()

    def __eq__(self, o):
        try:
            return self.kind == as_dtype(o).kind
        except TypeError:
            return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return self.name

    @property
    def type(self):
        return self


BOOL = SDtype("bool", "b", 0)
INT = SDtype("int64", "i", 1)
FLOAT = SDtype("float64", "f", 2)
LONGDOUBLE = SDtype("longdouble", "f", 2)
COMPLEX = SDtype("complex128", "c", 3)
CLONGDOUBLE = SDtype("clongdouble", "c", 3)
OBJECT = SDtype("object", "O", 4)
KIND = {"b": BOOL, "i": INT, "f": FLOAT, "c": COMPLEX, "O": OBJECT}
KORD = {"b": 0, "i": 1, "f": 2, "c": 3, "O": 4}


def as_dtype(d):
    if isinstance(d, SDtype):
        return d
    if d is int:
        return INT
    if d is float or d is None:
        return FLOAT
    if d is complex:
        return COMPLEX
    if d is bool:
        return BOOL
    if isinstance(d, type) and issubclass(d, SArr):
        raise TypeError
    if isinstance(d, str):
        s = d.lstrip("<>=|")
        return {"d": FLOAT, "D": COMPLEX, "f": FLOAT, "c": COMPLEX, "complex": COMPLEX, "float": FLOAT, "int": INT,
                "float64": FLOAT, "complex128": COMPLEX, "int64": INT, "bool": BOOL, "f8": FLOAT, "c16": COMPLEX, "i8": INT, "i": INT}[s]
    if d is object:
        return OBJECT
    # builtins replaced by shims carry __sym_dtype__
    if hasattr(d, "__sym_dtype__"):
        return d.__sym_dtype__
    raise TypeError(f"dtype {d!r}")


def kjoin(*ks):
    return max(ks, key=lambda k: KORD[k])


# -------------------------------------------------------------------- dims
def dim_term(d):
    if isinstance(d, T):
        return d
    if isinstance(d, SArr):
        if d.kind not in "bi":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return d.term()
    if isinstance(d, bool) or not isinstance(d, int):
        if hasattr(d, "__index__"):
            return num(int(d))
        raise TypeError(f"{type(d).__name__!r} object cannot be interpreted as an integer")
    return num(d)


def dim_out(t):
    if t.op == "num":
        return int(numval(t))
    return scalar(t, "i")


def same_dim(a, b):
    if a is b:
        return True
    if a.op == "num" and b.op == "num":
        return False
    d = sub(a, b)
    if d.op == "num":
        return numval(d) == 0
    return W().cond(eq(a, b)) is True


def is_one(d):
    return d.op == "num" and numval(d) == 1


def bshapes(*shs):
    n = max((len(s) for s in shs), default=0)
    out = []
    for k in range(n):
        cur = ONE
        for s in shs:
            i = k - (n - len(s))
            if i < 0:
                continue
            d = s[i]
            if is_one(d):
                continue
            if is_one(cur):
                cur = d
            elif not same_dim(cur, d):
                if W().cond(eq(d, ONE)) is True:
                    continue
                if W().cond(eq(cur, ONE)) is True:
                    cur = d
                    continue
                # numpy raises unless equal: decide by forking on equality
                if d.op == "num" and cur.op == "num" or not W().branch(eq(cur, d), why="broadcast"):
                    raise ValueError("operands could not be broadcast together with shapes "
                                     + " ".join(str(tuple(dim_out(x) for x in s)) for s in shs))
        out.append(cur)
    return tuple(out)


class Buf:
    __slots__ = ("get", "kind", "name", "memo", "writable", "orig")

    def __init__(self, get, kind, name=None):
        self.kind = kind
        self.name = name
        self.writable = True
        self.orig = None
        self.set(get)

    def set(self, get):
        memo = {}

        def g(idx, _get=get, _memo=memo):
            r = _memo.get(idx)
            if r is None:
                r = _get(idx)
                _memo[idx] = r
            return r
        self.get = g


def scalar(t, kind):
    a = SArr(Buf(lambda idx: t, kind), ())
    a.is_scalar = True
    return a


def from_fn(get, shape, kind, mask=None):
    a = SArr(Buf(get, kind), tuple(shape))
    a.mask = mask
    if not shape and mask is None:
        a.is_scalar = True
    return a


def asarr(x, copy=False):
    if isinstance(x, SArr):
        return x
    if isinstance(x, bool):
        return scalar(TRUE if x else FALSE, "b")
    if isinstance(x, int):
        return scalar(num(x), "i")
    if isinstance(x, float):
        return scalar(real(num(x)), "f")
    if isinstance(x, complex):
        return scalar(num(x), "c")
    if isinstance(x, T):
        return scalar(x, {"B": "b", "I": "i", "R": "f", "C": "c"}[x.sort])
    if isinstance(x, (list, tuple)):
        from . import snp
        if not x:
            return from_fn(lambda idx: num(0, "R"), (ZERO,), "f")
        return snp.stack([asarr(v) for v in x])
    if isinstance(x, range):
        return asarr(list(x))
    if hasattr(x, "__array__") and hasattr(x, "_sym_array"):
        return x._sym_array()
    if hasattr(x, "__len__") and hasattr(x, "__getitem__") and not isinstance(x, (str, dict)):
        return asarr([x[i] for i in range(len(x))])
    from fractions import Fraction
    if isinstance(x, Fraction):
        return scalar(real(num(x)), "f")
    if type(x).__module__.startswith("mpmath"):
        return scalar(real(num(float(x))), "f")
    if hasattr(x, "__next__"):
        return asarr(list(x))
    raise Unsupported(f"array from {type(x).__name__}")


def cast_term(t, src, dst):
    """value conversion between dtype kinds as numpy does on assignment/astype"""
    if src == dst:
        return t
    if dst == "b":
        return ne(t, ZERO) if t.sort != "B" else t
    if t.sort == "B":
        t = ite(t, num(1), num(0))
    if dst == "i":
        if t.sort == "C":
            t = fn("re", t)
        return fn("trunc", t) if t.sort != "I" else t
    if dst == "f":
        if t.sort == "C":
            t = fn("re", t)
        return real(t)
    if dst == "c":
        return real(t)
    return t


class SArr:
    __array_priority__ = 1000
    is_scalar = False
    mask = None

    def __init__(self, buf, sh, vmap=None, inv=None, part=None):
        self.buf = buf
        self.sh = tuple(sh)
        self.vmap = vmap
        self.inv = inv
        self.part = part     # None | 're' | 'im' : view on a component of a complex buffer

    # ------------------------------------------------------------- access
    @property
    def kind(self):
        return "f" if self.part else self.buf.kind

    def getter(self):
        """snapshot of the current contents: idx -> Term"""
        g, vm, part = self.buf.get, self.vmap, self.part
        if vm is None and part is None:
            return g
        if part is None:
            return lambda idx: g(vm(idx))
        if vm is None:
            return lambda idx: fn(part, g(idx))
        return lambda idx: fn(part, g(vm(idx)))

    def term(self):
        assert not self.sh
        return self.getter()(())

    def at(self, *idx):
        return self.getter()(tuple(i if isinstance(i, T) else dim_term(i) for i in idx))

    def as_scalar(self):
        if not self.sh and self.mask is None:
            return scalar(self.term(), self.kind)
        return self

    # ---------------------------------------------------------- attributes
    @property
    def shape(self):
        if self.mask is not None:
            raise Unsupported("shape of a mask selection")
        return tuple(dim_out(d) for d in self.sh)

    @property
    def ndim(self):
        if self.mask is not None:
            return 1
        return len(self.sh)

    @property
    def size(self):
        if self.mask is not None:
            return self._count()
        return dim_out(mul(ONE, *self.sh))

    def _count(self):
        t = bind_all(self.sh, lambda idx: ite(self.mask(idx), ONE, ZERO), sum_)
        return dim_out(t)

    @property
    def dtype(self):
        return KIND[self.kind]

    @property
    def itemsize(self):
        return 8

    @property
    def nbytes(self):
        return self.size * 8

    @property
    def real(self):
        if self.kind != "c":
            return self
        if self.is_scalar:
            g = self.getter()
            return from_fn(lambda idx: fn("re", g(idx)), self.sh, "f", self.mask)
        r = SArr(self.buf, self.sh, self.vmap, self.inv, "re")
        if self.mask is not None:
            r.mask = self.mask
            if hasattr(self, "maxes"):
                r.maxes = self.maxes
        return r

    @real.setter
    def real(self, v):
        if self.kind != "c":
            self[...] = v
        else:
            SArr(self.buf, self.sh, self.vmap, self.inv, "re")[...] = v

    @property
    def imag(self):
        if self.kind != "c":
            g = self.getter()
            return from_fn(lambda idx: num(0, "R") if self.kind == "f" else ZERO, self.sh, self.kind, self.mask)
        if self.is_scalar:
            g = self.getter()
            return from_fn(lambda idx: fn("im", g(idx)), self.sh, "f", self.mask)
        r = SArr(self.buf, self.sh, self.vmap, self.inv, "im")
        if self.mask is not None:
            r.mask = self.mask
            if hasattr(self, "maxes"):
                r.maxes = self.maxes
        return r

    @imag.setter
    def imag(self, v):
        SArr(self.buf, self.sh, self.vmap, self.inv, "im")[...] = v

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        raise Unsupported("flat")

    @property
    def flags(self):
        raise Unsupported("flags")

    def __len__(self):
        if not self.sh:
            raise TypeError("len() of unsized object")
        n = self.sh[0]
        if n.op == "num":
            return int(numval(n))
        raise Unsupported("len of symbolic dimension")

    def __iter__(self):
        if not self.sh:
            raise TypeError("iteration over a 0-d array")
        n = self.sh[0]
        if n.op == "num":
            return iter([self[i] for i in range(int(numval(n)))])
        import sys
        from .loops import iterate, find
        if find(sys._getframe(1)) is None:
            raise Unsupported("iteration over a symbolic dimension")
        return iterate(sys._getframe(1), ZERO, n, lambda i: self[scalar(i, "i")])

    def __hash__(self):
        return id(self)

    # ------------------------------------------------------- python scalars
    def _sc(self):
        if self.sh:
            if all(is_one(d) for d in self.sh):
                return self.at(*([0] * len(self.sh)))
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.term()

    def __bool__(self):
        if self.mask is not None:
            raise Unsupported("truth of selection")
        if self.sh and not all(is_one(d) for d in self.sh):
            if all(d.op == "num" for d in self.sh) or True:
                sz = mul(ONE, *self.sh)
                if W().cond(eq(sz, ONE)) is not True:
                    raise ValueError("The truth value of an array with more than one element is ambiguous. "
                                     "Use a.any() or a.all()")
        t = self.at(*([0] * len(self.sh)))
        c = t if t.sort == "B" else ne(t, ZERO)
        return W().branch(c)

    def __index__(self):
        t = self._sc()
        if self.kind not in "bi":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        if t.op == "num":
            return int(numval(t))
        raise Unsupported("symbolic integer used where a concrete one is required")

    def __int__(self):
        t = cast_term(self._sc(), self.kind, "i")
        if t.op == "num":
            return int(numval(t))
        raise Unsupported("int() of symbolic value")

    def __float__(self):
        t = self._sc()
        if t.op == "num":
            return float(numval(t))
        if t is PI:
            return math.pi
        raise Unsupported("float() of symbolic value")

    def __complex__(self):
        t = self._sc()
        if t.op == "num":
            return complex(float(numval(t)))
        raise Unsupported("complex() of symbolic value")

    def item(self, *a):
        return self.as_scalar() if not self.sh else scalar(self._sc(), self.kind)

    def tolist(self):
        if not self.sh:
            return self
        return [x.tolist() for x in self]

    def __format__(self, spec):
        return f"<{self.kind}{self.ndim}>"

    def __repr__(self):
        try:
            v = [fresh("i", "I") for _ in self.sh]
            return f"SArr{self.sh}{self.kind}: {show(self.at(*v))[:300]}"
        except Exception:
            return "SArr"

    # ------------------------------------------------------------ indexing
    def _norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        nd = len(self.sh)
        used = 0
        ell = None
        out = []
        for k in key:
            if k is Ellipsis:
                ell = len(out)
                out.append(k)
                continue
            if isinstance(k, list):
                k = asarr(k)
            if isinstance(k, SArr) and k.kind == "b":
                used += len(k.sh)
            elif k is None:
                pass
            else:
                used += 1
            out.append(k)
        if used > nd:
            raise IndexError("too many indices for array")
        if ell is None:
            out.append(Ellipsis)
            ell = len(out) - 1
        out[ell:ell + 1] = [slice(None)] * (nd - used)
        return out

    def __getitem__(self, key):
        if self.mask is not None:
            if key is Ellipsis:
                return self
            return self._sel_get(key)
        parts = self._norm_key(key)
        # pure boolean mask
        nz = [k for k in parts if not (isinstance(k, slice) and k == slice(None))]
        if len(nz) == 1 and isinstance(nz[0], SArr) and nz[0].kind == "b":
            return self._mask_get(parts, nz[0])
        if any(isinstance(k, SArr) and k.sh for k in parts):
            return self._fancy_get(parts)
        v = self._basic(parts)
        if not v.sh and Ellipsis not in (key if isinstance(key, tuple) else (key,)):
            return v.as_scalar()
        if self.is_scalar and not v.sh:
            return v.as_scalar() if False else v
        return v

    # a selection a[mask] keeps the full index space of a; only entries with mask(idx) exist.
    # axes nm.. (trailing) are ordinary axes of the selection
    def sel_nm(self):
        mx = getattr(self, "maxes", None)
        if mx is None:
            return len(self.sh)
        if mx[0] != 0:
            raise Unsupported("selection with leading axes")
        return mx[1]

    def _sel_key(self, key):
        if isinstance(key, SArr) and key.kind == "b" and key.mask is not None and len(key.sh) == len(self.sh) \
                and getattr(key, "maxes", None) == getattr(self, "maxes", None):
            # a condition on every entry of the selection
            idx = tuple(fresh("m", "I") for _ in self.sh)
            if key.mask(idx) is self.mask(idx):
                kg, m = key.getter(), self.mask
                return None, kg, (lambda i: and_(m(i), kg(i)))
        nm = self.sel_nm()
        if not (isinstance(key, SArr) and key.kind == "b" and key.mask is not None and key.sel_nm() == nm and len(key.sh) == nm):
            raise Unsupported("indexing a selection")
        idx = tuple(fresh("m", "I") for _ in self.sh)
        if key.mask(idx[:nm]) is not self.mask(idx):
            raise Unsupported("selection indexed by a different selection")
        kg, m = key.getter(), self.mask
        return nm, kg, (lambda i: and_(m(i), kg(i[:nm])))

    def _sel_get(self, key):
        g, m = self.getter(), self.mask
        if isinstance(key, tuple) and key and key[0] is Ellipsis and all(k is None for k in key[1:]):
            n, nm = len(self.sh), self.sel_nm()
            r = from_fn(lambda i: g(i[:n]), self.sh + (ONE,) * (len(key) - 1), self.kind, mask=lambda i: m(i[:n]))
            r.maxes = (0, nm)
            return r
        nm, kg, mm = self._sel_key(key)
        r = from_fn(g, self.sh, self.kind, mask=mm)
        if hasattr(self, "maxes") and nm is not None:
            r.maxes = self.maxes
        return r

    def _sel_set(self, key, value):
        nm, kg, mm = self._sel_key(key)
        if value.mask is not None:
            idx = tuple(fresh("m", "I") for _ in self.sh)
            if len(value.sh) != len(self.sh) or value.mask(idx) is not mm(idx):
                raise Unsupported("selection assigned through a different mask")
            vg = value.getter()
        elif not value.sh:
            t = value.term()
            vg = lambda i: t
        else:
            raise Unsupported("array assigned through a selection")
        self._store(lambda i: kg(i[:nm]), vg, value.kind)       # i[:None] is i

    def _mask_get(self, parts, m):
        pos = next(i for i, k in enumerate(parts) if isinstance(k, SArr))
        g, mg = self.getter(), m.getter()
        if len(m.sh) == 0 and len(self.sh) == 0:
            return from_fn(g, (), self.kind, mask=mg)
        # mask covers axes pos..pos+len(m.sh)
        nm = len(m.sh)
        for a, b in zip(self.sh[pos:pos + nm], m.sh):
            if not same_dim(a, b):
                raise IndexError("boolean index did not match indexed array")
        if nm != len(self.sh):
            if pos == len(self.sh) - nm or pos == 0:
                # selection on part of the axes: keep full space, but remember extra axes
                r = from_fn(g, self.sh, self.kind, mask=lambda idx: mg(idx[pos:pos + nm]))
                r.maxes = (pos, nm)
                return r
            raise Unsupported("mask in the middle")
        return from_fn(g, self.sh, self.kind, mask=mg)

    def _fancy_get(self, parts):
        arrs = [k for k in parts if isinstance(k, SArr) and k.kind != "b" and k.sh]
        if any(isinstance(k, SArr) and k.kind == "b" for k in parts):
            raise Unsupported("mixed boolean fancy index")
        bsh = bshapes(*[k.sh for k in arrs])
        # first apply basic parts with full slices in the fancy positions
        adv_pos = []
        basic = []
        for k in parts:
            if isinstance(k, SArr) and k.sh:
                adv_pos.append(len([b for b in basic if b is not None and not _isint(b)]) + len([b for b in basic if b is None]))
                basic.append(slice(None))
            elif isinstance(k, SArr) or _isint(k):
                if len(arrs):
                    # ints count as advanced index when combined with arrays
                    basic.append(k)
            else:
                basic.append(k)
        ints = [i for i, k in enumerate(parts) if _isint(k) or (isinstance(k, SArr) and not k.sh)]
        v = self._basic(basic)
        g = v.getter()
        contiguous = all(b - a == 1 for a, b in zip(adv_pos, adv_pos[1:]))
        if ints and not contiguous:
            raise Unsupported("mixed int and fancy index")
        gs = []
        for p, k in zip(adv_pos, arrs):
            gs.append(bget(k, bsh))
        n = v.sh
        first = adv_pos[0] if contiguous else 0
        rest = [i for i in range(len(n)) if i not in adv_pos]
        lead = [i for i in rest if i < first] if contiguous else []
        tail = [i for i in rest if i not in lead]
        osh = tuple(n[i] for i in lead) + bsh + tuple(n[i] for i in tail)

        def get(idx):
            nl, nb = len(lead), len(bsh)
            full = [None] * len(n)
            for a, i in zip(idx[:nl], lead):
                full[i] = a
            for a, i in zip(idx[nl + nb:], tail):
                full[i] = a
            for gg, p in zip(gs, adv_pos):
                t = gg(idx[nl:nl + nb])
                t = wrap_index(t, n[p])
                full[p] = t
            return g(tuple(full))
        return from_fn(get, osh, self.kind)

    def _basic(self, parts):
        maps = []      # per source axis: ('fix', term) | ('aff', out axis, start, step)
        osh = []
        ax = 0
        for k in parts:
            if k is None:
                osh.append(ONE)
                continue
            d = self.sh[ax]
            if isinstance(k, slice):
                start, step, ln = norm_slice(k, d)
                maps.append(("aff", len(osh), start, step))
                osh.append(ln)
            else:
                t = dim_term(k)
                t = norm_index(t, d)
                maps.append(("fix", t))
            ax += 1
        maps = tuple(maps)
        noax = len(osh)

        def fwd(idx):
            return tuple(m[1] if m[0] == "fix" else add(m[2], mul(num(m[3]), idx[m[1]])) for m in maps)

        def inv(src):
            conds = []
            out = [ZERO] * noax
            for m, s in zip(maps, src):
                if m[0] == "fix":
                    conds.append(eq(s, m[1]))
                else:
                    _, o, start, step = m
                    off = sub(s, start)
                    if step == 1:
                        q = off
                    elif step == -1:
                        q = neg(off)
                    else:
                        q = fn("fdiv", off, num(step)) if step > 0 else fn("fdiv", neg(off), num(-step))
                        conds.append(eq(mul(num(step), q), off))
                    conds.append(le(ZERO, q))
                    conds.append(lt(q, osh[o]))
                    out[o] = q
            return and_(*conds), tuple(out)
        ovm, oinv = self.vmap, self.inv
        vm = fwd if ovm is None else (lambda idx: ovm(fwd(idx)))
        if oinv is None:
            ninv = inv
        else:
            def ninv(b):
                c1, i1 = oinv(b)
                c2, i2 = inv(i1)
                return and_(c1, c2), i2
        return SArr(self.buf, osh, vm, ninv, self.part)

    # writes
    def __setitem__(self, key, value):
        if self.is_scalar and self.buf.name is None and False:
            raise TypeError("scalar does not support item assignment")
        value = asarr(value)
        if self.mask is not None:
            return self._sel_set(key, value)
        parts = self._norm_key(key)
        nz = [k for k in parts if not (isinstance(k, slice) and k == slice(None))]
        if len(nz) == 1 and isinstance(nz[0], SArr) and nz[0].kind == "b":
            return self._mask_set(parts, nz[0], value)
        if any(isinstance(k, SArr) and k.sh for k in parts):
            return self._fancy_set(parts, value)
        v = self._basic(parts)
        v._assign(lambda idx: TRUE, value)

    def _assign(self, cond, value):
        """self[idx] = value[idx] where cond(idx)"""
        if value.mask is not None:
            raise Unsupported("assigning a selection")
        if len(value.sh) > len(self.sh):
            # leading ones are allowed
            extra = len(value.sh) - len(self.sh)
            if not all(is_one(d) for d in value.sh[:extra]):
                raise ValueError("could not broadcast input array into shape")
            value = value[(0,) * extra]
        bs = bshapes(self.sh, value.sh)
        for a, b in zip(bs, self.sh):
            if not same_dim(a, b):
                raise ValueError("could not broadcast input array into shape")
        g = bget(value, self.sh)
        self._store(cond, g, value.kind)

    def _store(self, cond, g, vkind):
        if not self.buf.writable:
            raise ValueError("assignment destination is read-only")
        dk = self.kind
        if vkind == "c" and dk in "fi":
            W().note("complex value stored into real array (imaginary part discarded)")
        old, inv, vm = self.buf.get, self.inv, self.vmap
        part = self.part
        bkind = self.buf.kind

        def get(b):
            if inv is None:
                c, i = TRUE, b
            else:
                c, i = inv(b)
            if c is FALSE:
                return old(b)
            c = and_(c, cond(i))
            if c is FALSE:
                return old(b)
            v = cast_term(g(i), vkind, dk)
            if part == "re":
                v = add(v, mul(IU, fn("im", old(b))))
            elif part == "im":
                v = add(fn("re", old(b)), mul(IU, v))
            if c is TRUE:
                return v
            return ite(c, v, old(b))
        self.buf.set(get)

    def _mask_set(self, parts, m, value):
        pos = next(i for i, k in enumerate(parts) if isinstance(k, SArr))
        nm = len(m.sh)
        mg = m.getter()
        for a, b in zip(self.sh[pos:pos + nm], m.sh):
            if not same_dim(a, b):
                raise IndexError("boolean index did not match indexed array")
        if value.mask is not None:
            idx = tuple(fresh("m", "I") for _ in self.sh)
            if value.mask(idx) is not mg(idx[pos:pos + nm]):
                a, b = value.mask(idx), mg(idx[pos:pos + nm])
                if W().cond(eq(a, b)) is not True:
                    raise Unsupported("selection assigned through a different mask")
            self._store(lambda i: mg(i[pos:pos + nm]), value.getter(), value.kind)
            return
        if value.sh and nm:
            # trailing axes broadcast
            tail = self.sh[pos + nm:]
            if pos == 0 and len(value.sh) <= len(tail):
                g = bget(value, tail)
                self._store(lambda i: mg(i[:nm]), lambda i: g(i[nm:]), value.kind)
                return
            if all(is_one(d) for d in value.sh):
                t = value.at(*([0] * len(value.sh)))
                self._store(lambda i: mg(i[pos:pos + nm]), lambda i: t, value.kind)
                return
            raise Unsupported("array assigned through a mask")
        if value.sh:
            t = value.at(*([0] * len(value.sh)))
        else:
            t = value.term()
        self._store(lambda i: mg(i[pos:pos + nm]), lambda i: t, value.kind)

    def _fancy_set(self, parts, value):
        arrs = [(i, k) for i, k in enumerate(parts) if isinstance(k, SArr) and k.sh]
        if any(k is None for k in parts):
            raise Unsupported("newaxis in fancy assignment")
        bsh = bshapes(*[k.sh for _, k in arrs])
        # concrete-length index arrays: expand into point writes
        if all(d.op == "num" for d in bsh):
            import itertools
            pos0 = arrs[0][0]
            if any(i != pos0 + n for n, (i, _) in enumerate(arrs)):
                raise Unsupported("non-adjacent fancy assignment")
            vsh = None
            for pt in itertools.product(*[range(int(numval(d))) for d in bsh]):
                ptt = tuple(num(p) for p in pt)
                ps = list(parts)
                for i, k in arrs:
                    ps[i] = scalar(bget(k, bsh)(ptt), "i")
                tgt = self._basic(ps)
                if vsh is None:
                    lead = len([p for p in ps[:pos0] if isinstance(p, slice)])
                    full = tgt.sh[:lead] + bsh + tgt.sh[lead:]
                    vg = bget(value, full)
                    vsh = full
                tgt._store(lambda i: TRUE, (lambda i, ptt=ptt, lead=lead: vg(i[:lead] + ptt + i[lead:])), value.kind)
            return
        # affine injective index arrays (arange-like, possibly several = diagonal writes)
        if len(bsh) == 1:
            k = fresh("k", "I")
            lins = []
            from .norm import linear_in
            for i, a in arrs:
                t = bget(a, bsh)((k,))
                l = linear_in(t, k)
                if l is None or abs(l[0]) != 1:
                    raise Unsupported("fancy assignment with non-affine index")
                lins.append((i, l))
            pos0, na = arrs[0][0], len(arrs)
            adjacent = all(i == pos0 + n for n, (i, _) in enumerate(arrs))
            rest = [p for p in parts if not isinstance(p, SArr)]
            if adjacent and len(parts) == len(self.sh) and all(isinstance(p, slice) and p == slice(None) for p in rest):
                vg = bget(value, self.sh[:pos0] + bsh + self.sh[pos0 + na:])
                n = bsh[0]

                def cond(idx):
                    cs = []
                    q0 = None
                    for i, (s, r) in lins:
                        q = sub(idx[i], r) if s == 1 else sub(r, idx[i])
                        if q0 is None:
                            q0 = q
                            cs += [le(ZERO, q), lt(q, n)]
                        else:
                            cs.append(eq(q, q0))
                    return and_(*cs)

                def val(idx):
                    i, (s, r) = lins[0]
                    q = sub(idx[i], r) if s == 1 else sub(r, idx[i])
                    return vg(idx[:pos0] + (q,) + idx[pos0 + na:])
                self._store(cond, val, value.kind)
                return
        raise Unsupported("fancy assignment")

    # ----------------------------------------------------------- operators
    def _bin(self, name, o, swap=False):
        from . import snp
        if isinstance(o, (str, type(None), dict)):
            return NotImplemented
        if not isinstance(o, SArr):
            if hasattr(type(o), "__array_ufunc__") and getattr(type(o), "__array_ufunc__") is None:
                return NotImplemented
            try:
                o = asarr(o)
            except Unsupported:
                return NotImplemented
        return getattr(snp, name)(o, self) if swap else getattr(snp, name)(self, o)

    def __add__(self, o): return self._bin("add", o)
    def __radd__(self, o): return self._bin("add", o, True)
    def __sub__(self, o): return self._bin("subtract", o)
    def __rsub__(self, o): return self._bin("subtract", o, True)
    def __mul__(self, o):
        if self.is_scalar and self.kind in "ib" and type(o) in (list, tuple):
            return repeat_list(o, self)
        return self._bin("multiply", o)

    def __rmul__(self, o):
        if self.is_scalar and self.kind in "ib" and type(o) in (list, tuple):
            return repeat_list(o, self)
        return self._bin("multiply", o, True)
    def __truediv__(self, o): return self._bin("true_divide", o)
    def __rtruediv__(self, o): return self._bin("true_divide", o, True)
    def __floordiv__(self, o): return self._bin("floor_divide", o)
    def __rfloordiv__(self, o): return self._bin("floor_divide", o, True)
    def __mod__(self, o): return self._bin("mod", o)
    def __rmod__(self, o): return self._bin("mod", o, True)
    def __pow__(self, o): return self._bin("power", o)
    def __rpow__(self, o): return self._bin("power", o, True)
    def __matmul__(self, o): return self._bin("matmul", o)
    def __rmatmul__(self, o): return self._bin("matmul", o, True)
    def __lt__(self, o): return self._bin("less", o)
    def __le__(self, o): return self._bin("less_equal", o)
    def __gt__(self, o): return self._bin("greater", o)
    def __ge__(self, o): return self._bin("greater_equal", o)

    def __eq__(self, o):
        r = self._bin("equal", o)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._bin("not_equal", o)
        return True if r is NotImplemented else r

    def __and__(self, o): return self._bin("logical_and", o)
    def __rand__(self, o): return self._bin("logical_and", o, True)
    def __or__(self, o): return self._bin("logical_or", o)
    def __ror__(self, o): return self._bin("logical_or", o, True)
    def __xor__(self, o): return self._bin("not_equal", o)

    def __invert__(self):
        from . import snp
        return snp.logical_not(self) if self.kind == "b" else snp.subtract(-1, self)

    def __neg__(self):
        from . import snp
        return snp.negative(self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        from . import snp
        return snp.abs(self)

    def __divmod__(self, o):
        return self // o, self % o

    def _inplace(self, r):
        if r is NotImplemented:
            return r
        if self.mask is not None:
            return r
        if self.is_scalar:
            return r
        if KORD[r.kind] > KORD[self.kind] and not (r.kind == "f" and self.kind == "f"):
            from . import snp
            raise snp.UFuncTypeError(f"Cannot cast ufunc output from {r.dtype} to {self.dtype} with casting rule 'same_kind'")
        if len(r.sh) != len(self.sh) or not all(same_dim(a, b) for a, b in zip(r.sh, self.sh)):
            raise ValueError("non-broadcastable output operand")
        self._assign(lambda i: TRUE, r)
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)
    def __ipow__(self, o): return self._inplace(self ** o)
    def __ifloordiv__(self, o): return self._inplace(self // o)
    def __imod__(self, o): return self._inplace(self % o)
    def __iand__(self, o): return self._inplace(self & o)
    def __ior__(self, o): return self._inplace(self | o)
    def __imatmul__(self, o): return self._inplace(self @ o)

    # -------------------------------------------------------------- methods
    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        d = as_dtype(dtype)
        if casting == "safe" and KORD[d.kind] < KORD[self.kind]:
            raise TypeError(f"Cannot cast array data from {self.dtype} to {d} according to the rule 'safe'")
        g, sk, dk = self.getter(), self.kind, d.kind
        r = from_fn(lambda idx: cast_term(g(idx), sk, dk), self.sh, dk if dk != "O" else sk, self.mask)
        r.is_scalar = self.is_scalar
        if hasattr(self, "maxes"):
            r.maxes = self.maxes
        return r

    def copy(self, order="C"):
        r = from_fn(self.getter(), self.sh, self.kind, self.mask)
        r.is_scalar = self.is_scalar
        if hasattr(self, "maxes"):
            r.maxes = self.maxes
        return r

    def conj(self):
        from . import snp
        return snp.conj(self)
    conjugate = conj

    def transpose(self, *axes):
        n = len(self.sh)
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        if not axes:
            axes = tuple(reversed(range(n)))
        axes = tuple(int(a) % n for a in axes)
        return perm_view(self, axes)

    def swapaxes(self, a, b):
        n = len(self.sh)
        if not (-n <= a < n and -n <= b < n):
            from . import snp
            raise snp.AxisError("axis out of bounds")
        ax = list(range(n))
        ax[a % n], ax[b % n] = ax[b % n], ax[a % n]
        return perm_view(self, ax)

    def reshape(self, *shape, order="C"):
        from . import snp
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return snp.reshape(self, shape)

    def ravel(self, order="C"):
        from . import snp
        return snp.reshape(self, (-1,))

    def flatten(self, order="C"):
        return self.ravel().copy()

    def squeeze(self, axis=None):
        from . import snp
        return snp.squeeze(self, axis)

    def __getattr__(self, name):
        if name in ("sum", "prod", "mean", "max", "min", "any", "all", "cumsum", "dot", "round", "std", "var",
                    "argmax", "argmin", "argsort", "repeat", "diagonal", "trace", "clip", "nonzero", "take"):
            from . import snp
            f = getattr(snp, name)
            return lambda *a, **k: f(self, *a, **k)
        if name in ("sort", "fill", "setflags", "view", "resize", "put"):
            if name == "fill":
                return lambda v: self.__setitem__(Ellipsis, v)
            if name == "setflags":
                return self._setflags
            raise Unsupported(f"ndarray.{name}")
        raise AttributeError(name)

    def _setflags(self, write=None, **k):
        if write is not None:
            self.buf.writable = bool(write)

    def __array_wrap__(self, *a):
        raise Unsupported("array wrap")


def _isint(k):
    return (isinstance(k, int) and not isinstance(k, bool)) or (isinstance(k, SArr) and not k.sh and k.kind == "i")


def wrap_index(t, n):
    """element of an integer index array: negative values count from the end"""
    if t.op == "num":
        return t if numval(t) >= 0 else add(n, t)
    c = W().cond(le(ZERO, t))
    if c is True:
        return t
    if c is False:
        return add(n, t)
    if any(v.args[0][0] == "@" or "!" in v.args[0] for v in t.fv):
        return ite(le(ZERO, t), t, add(n, t))
    return ite(le(ZERO, t), t, add(n, t))


def norm_index(t, d):
    """scalar index against dimension d; raises IndexError when out of bounds"""
    if t.op == "num":
        v = int(numval(t))
        if d.op == "num":
            n = int(numval(d))
            if not -n <= v < n:
                raise IndexError(f"index {v} is out of bounds for axis with size {n}")
            return num(v % n) if n else t
        if v >= 0:
            if not W().branch(lt(t, d), why="index"):
                raise IndexError(f"index {v} is out of bounds")
            return t
        if not W().branch(le(num(-v), d), why="index"):
            raise IndexError(f"index {v} is out of bounds")
        return add(d, t)
    if W().branch(le(ZERO, t), why="index"):
        if not W().branch(lt(t, d), why="index"):
            raise IndexError("index out of bounds")
        return t
    if not W().branch(le(neg(d), t), why="index"):
        raise IndexError("index out of bounds")
    return add(d, t)


def _decide(c):
    r = W().cond(c)
    if r is None:
        return W().branch(c, why="slice")
    return r


def norm_slice(s, d):
    """-> (start term, int step, length term)"""
    step = s.step
    if step is None:
        step = 1
    step = int(step)
    if step == 0:
        raise ValueError("slice step cannot be zero")

    def bound(v, default, lo, hi):
        if v is None:
            return default
        if not isinstance(v, (int, SArr)) or (isinstance(v, SArr) and v.kind not in "bi"):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        t = dim_term(v)
        if t.op == "num":
            if numval(t) < 0:
                t = add(d, t)
        elif not _decide(le(ZERO, t)):
            t = add(d, t)
        # clip to [lo, hi]
        if t.op == "num" and lo.op == "num" and numval(t) < numval(lo):
            return lo
        if not (t.op == "num" and lo.op == "num"):
            if not _decide(le(lo, t)):
                return lo
        if not _decide(le(t, hi)):
            return hi
        return t
    if step > 0:
        start = bound(s.start, ZERO, ZERO, d)
        stop = bound(s.stop, d, ZERO, d)
        n = sub(stop, start)
    else:
        start = bound(s.start, sub(d, ONE), num(-1), sub(d, ONE))
        stop = bound(s.stop, num(-1), num(-1), sub(d, ONE)) if s.stop is not None else num(-1)
        n = sub(start, stop)
    if abs(step) == 1 and (n is d or (s.start is None and s.stop is None and step == 1)):
        return start, step, d
    if not _decide(le(ZERO, n)):
        return start, step, ZERO
    a = abs(step)
    if a != 1:
        n = fn("fdiv", add(n, num(a - 1)), num(a))
    return start, step, n


def perm_view(a, axes):
    """out axis k = source axis axes[k]"""
    sh = tuple(a.sh[i] for i in axes)
    n = len(axes)
    invp = [0] * n
    for k, i in enumerate(axes):
        invp[i] = k

    def fwd(idx):
        return tuple(idx[invp[i]] for i in range(n))

    def inv(src):
        return TRUE, tuple(src[i] for i in axes)
    ovm, oinv = a.vmap, a.inv
    vm = fwd if ovm is None else (lambda idx: ovm(fwd(idx)))
    if oinv is None:
        ninv = inv
    else:
        def ninv(b):
            c1, i1 = oinv(b)
            return c1, inv(i1)[1]
    if a.mask is not None:
        raise Unsupported("transpose of selection")
    return SArr(a.buf, sh, vm, ninv, a.part)


def bget(a, sh):
    """getter of a broadcast to shape sh"""
    g = a.getter()
    n, m = len(sh), len(a.sh)
    if n == m and all(x is y for x, y in zip(a.sh, sh)):
        return g
    ones = []
    for i, d in enumerate(a.sh):
        t = sh[n - m + i]
        ones.append(is_one(d) and not is_one(t))

    def get(idx):
        sub_ = idx[n - m:]
        return g(tuple(ZERO if o else i for i, o in zip(sub_, ones)))
    return get


def bind_all(sh, body, binder):
    """nested binder over all axes of sh"""
    vs = [fresh("r", "I") for _ in sh]
    t = body(tuple(vs))
    for v, d in zip(reversed(vs), reversed(sh)):
        t = binder(v, ZERO, sub(d, ONE), t)
    return t


class SList(SArr):
    """a list of symbolic length: [x]*n (list semantics of + and *)"""

    def __add__(self, o):
        if not isinstance(o, (list, SList)):
            raise Unsupported("list + non-list")
        return _slist_cat(self, o)

    def __radd__(self, o):
        if not isinstance(o, (list, SList)):
            raise Unsupported("list + non-list")
        return _slist_cat(o, self)

    def _no(self, *a):
        raise Unsupported("operation on a list of symbolic length")
    __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __neg__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _no
    __hash__ = None


def _slist_cat(a, b):
    from . import snp
    r = snp.concatenate([asarr(a) if len(a) else SArr(Buf(lambda i: ZERO, "i"), (ZERO,)) for a in (a, b)]) if not (isinstance(a, list) and not a or isinstance(b, list) and not b) \
        else (b if isinstance(a, list) else a)
    return SList(r.buf, r.sh)


def repeat_list(x, n):
    n = n.term()
    if n.op == "num":
        return x * int(numval(n))
    if len(x) != 1:
        raise Unsupported("repetition of a longer list")
    e = asarr(x[0])
    if e.sh:
        raise Unsupported("repetition of a list of arrays")
    t = e.term()
    m = ZERO if W().branch(tm.le(n, ZERO), why="list repetition") else n
    return SList(Buf(lambda i: t, e.kind), (m,))
