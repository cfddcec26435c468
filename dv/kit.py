"""Contracts: symbolic back end (the deductive verifier).

A contract is a function c(k).  It declares symbolic inputs, states preconditions with k.assume,
calls functions of /repo through k.call and states postconditions with k.ensure*.
The same text is executed by concrete.py on the real library for replay."""
import itertools
import random
import time
import traceback
from fractions import Fraction
import mpmath
from mpmath import mpf, mpc
from . import term as tm
from .term import T, num, ZERO, ONE, PI, IU, TRUE, FALSE, fn, ite, fresh, numval, var, app, le, lt, eq, ne, and_, or_, not_
from .arr import (SArr, Buf, asarr, scalar, from_fn, World as _WBase, Unsupported, PathLimit, dim_term, dim_out, KIND, W)
from . import snp, ext
from .prove import Ctx, refute, STATS
from .norm import TooBig
from .evalt import Env, ev, EvalError


class PathDone(BaseException):
    pass


class PathSkip(BaseException):
    pass


class World(_WBase):
    def __init__(self, prefix, bounded, loader, seed=0):
        self.prefix = prefix
        self.pos = 0
        self.allowed = None
        self.trace = []           # (kind, taken, n alternatives)
        self.bounded = bounded
        self.loader = loader
        self.elem_facts = {}
        self.positive = set()
        self.global_facts = []
        self.sumrules = [self._sumrule]
        self.eqfacts = []
        self.ambient = []
        self.patterns = None
        self.interp = {}
        self.samplers = {}        # var name -> f(rng, env)
        self.inputs = {}          # name -> In
        self.obligations = []
        self.trusted = set()
        self.notes = set()
        self.hooks = {}
        self.stubs = {}
        self.calls = []
        self.numeric_only = False
        self.ctx = Ctx(self)
        self.nbranch = 0
        self.uninit = set()
        World.current = _WBase.current = self

    # ------------------------------------------------------- control flow
    def cond(self, c):
        return self.ctx.cond(c)

    def decide(self, n, label):
        """n-ary decision"""
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
        else:
            r = 0
        self.pos += 1
        self.trace.append((label, r, n))
        if self.allowed is not None and label.startswith("choice:"):
            here = [(l, x) for l, x, _ in self.trace if l.startswith("choice:")]
            if not any(all(d.get(l, x) == x for l, x in here) for d in self.allowed):
                raise PathSkip
        return r

    def branch(self, c, why=None):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        r = self.ctx.cond(c)
        if r is not None:
            return r
        if any(v in c.fv for v, _ in self.ambient):
            raise Unsupported("data dependent branch inside np.vectorize")
        self.nbranch += 1
        if self.nbranch > 60:
            raise PathLimit("too many branches on one path")
        b = self.decide(2, "branch") == 0
        self.ctx.assume(c if b else not_(c))
        if c.op == "exists" and b:
            pass
        return b

    def note(self, s):
        self.notes.add(s)

    def trust(self, s):
        self.trusted.add(s)

    def declare_uninit(self, nm, kind):
        self.uninit.add(nm)
        self.interp[nm] = lambda env, idx: {"b": True, "i": 77, "f": mpf("77.5"), "c": mpc("77.5", "-3.25"), "O": mpf(0)}[kind]

    def eqfact(self, ufname, sh, f, product=None):
        """equation f(i) = 0; used from left (a sum) to right, or from the given product to the sum"""
        amb = list(self.ambient)
        if amb:
            av = {v: n for n, (v, _) in enumerate(amb)}
            n0, f0, p0 = len(sh), f, product
            ren = lambda i: {v: i[n0 + n] for v, n in av.items()}
            f = lambda *i: tm.subst(f0(*i[:n0]), ren(i))
            product = None if p0 is None else (lambda *i: tuple(tm.subst(x, ren(i)) for x in p0(*i[:n0])))
            sh = tuple(sh) + tuple(d for _, d in amb)
        self.eqfacts.append((ufname, sh, f, product))
        self.patterns = None

    # -------------------------------------------------- equational facts of externals
    def _patterns(self, norm):
        if self.patterns is None:
            self.patterns = {}
        if norm.opaque not in self.patterns:
            out = self.patterns[norm.opaque] = []
            for ufname, sh, f, product in self.eqfacts:
                vs = tuple(fresh("P", "I") for _ in sh)
                for p, n in zip(vs, sh):
                    norm.bounds[p] = (ZERO, tm.sub(dim_term(n), ONE))
                t0 = f(*vs)
                if product is not None:
                    pr = product(*vs)
                    rest = tm.add(t0, tm.mul(*pr))
                    out.append((vs, [], list(pr), rest, ()))
                    if rest.sort == "C":
                        out.append((vs, [], [tm.fn("conj", x) for x in pr], tm.fn("conj", rest), ()))
                    continue
                for guard, t1 in self._cases(t0, vs):
                    for t in ((t1, tm.fn("conj", t1)) if t1.sort == "C" else (t1,)):
                        try:
                            p, d = norm.rf(t)
                        except (TooBig, ZeroDivisionError):
                            continue
                        best = None
                        for m, c in p.items():
                            hs = [(i, e) for i, e in m if norm.kind(i) == "sum"]
                            co = tuple((i, e) for i, e in m if norm.kind(i) != "sum")
                            if len(hs) == 1 and hs[0][1] == 1 and all(norm.pos_atom(i) for i, _ in co):
                                st = norm.atom_term(hs[0][0])
                                bv, facs = [], []
                                norm._flatten(bv, facs, st)
                                key = (len(bv), len(facs), st.size)
                                if best is None or key > best[0]:
                                    best = (key, m, c, bv, facs, co)
                        if best is None or d:
                            continue
                        _, m, c, bv, facs, co = best
                        rest = ({k: -v / c for k, v in p.items() if k != m}, {})
                        for i, e in co:
                            rest = norm.rf_mul(rest, norm.rf_atom(i, -e))
                        rest = norm.term_of(rest)
                        out.append((vs, bv, _powers(facs), rest, guard))
        return self.patterns[norm.opaque]

    @staticmethod
    def _cases(t, vs):
        """case distinction on the conditions on the indices of an equation"""
        cs = []
        pv = set(vs)
        for x in tm.subterms(t):
            if x.op == "ite" and x.args[0].op in ("le", "lt", "eq") and x.args[0].fv & pv and x.args[0] not in cs \
                    and not any(v.args[0][0] == "@" for v in x.args[0].fv):
                cs.append(x.args[0])
        cs = [c for c in cs if any(v not in pv or True for v in c.fv)][:2]
        if not cs or t.size > 4000:
            return [((), t)]
        res = []
        for vals in itertools.product((True, False), repeat=len(cs)):
            m = dict(zip(cs, vals))
            r = tm.replace(t, lambda n: (TRUE if m[n] else FALSE) if n in m else None)
            res.append((tuple(c if v else not_(c) for c, v in m.items()), r))
        return res + [((), t)]

    def _sumrule(self, norm, tv, facs):
        """rewrite an instance of a defining equation: the left-hand side (a sum) by the right-hand side"""
        if not self.eqfacts:
            return None
        facs = _powers(facs)
        names = [{x.args[0] for x in tm.subterms(f) if x.op == "app"} for f in facs]
        for vs, bv, pats, rest, guard in self._patterns(norm):
            if len(pats) > len(facs) or len(bv) > len(tv):
                continue
            pn = set().union(*[{x.args[0] for x in tm.subterms(f) if x.op == "app"} for f in pats])
            if not pn <= set().union(*names):
                continue
            tvd = {w: n for w, n in tv}
            pvars = set(vs) | {j for j, _ in bv}
            for b, used in _match_used(pats, list(enumerate(facs)), {}, pvars, ()):
                el = []
                for j, hi in bv:
                    w = b.get(j)
                    if w is None or w not in tvd or w in el or norm.rf(tm.sub(tm.subst(hi, {p: b[p] for p in vs if p in b}), tvd[w]))[0]:
                        break
                    el.append(w)
                else:
                    es = set(el)
                    if not all(p in b for p in vs) or any(b[p].fv & es for p in vs):
                        continue
                    others = [f for i, f in enumerate(facs) if i not in used]
                    if any(f.fv & es for f in others) or any(n.fv & es for w, n in tv if w not in es):
                        continue
                    if not all(norm.cond(tm.subst(g, {p: b[p] for p in vs})) is True for g in guard):
                        continue
                    r = tm.subst(rest, {p: b[p] for p in vs})
                    return [(w, n) for w, n in tv if w not in es], tm.mul(r, *others)
        return None

    # --------------------------------------------------------- sampling
    def sample_env(self, rng, k):
        env = Env(interp=dict(self.interp))
        env.rng = rng
        env.rng_seed = rng.random()
        env.mode = k
        env.sampler = lambda t: self._sample_var(t, rng, env)
        for nm, f in self.samplers.items():
            if nm not in env.vars:
                env.vars[nm] = f(rng, env)
        return env

    def _sample_var(self, t, rng, env):
        nm = t.args[0]
        f = self.samplers.get(nm)
        if f is not None:
            return f(rng, env)
        if t.sort == "I":
            return rng.randint(0, 4)
        if t.sort == "R":
            return mpf(rng.randint(-40, 40)) / 16
        return mpc(mpf(rng.randint(-40, 40)) / 16, mpf(rng.randint(-40, 40)) / 16)


def _powers(facs):
    out = []
    for f in facs:
        if f.op == "pow" and f.args[1].op == "num" and numval(f.args[1]) in (2, 3, 4):
            out += [f.args[0]] * int(numval(f.args[1]))
        else:
            out.append(f)
    return out


def _match_used(pats, facs, b, pvars, used):
    if not pats:
        yield b, set(used)
        return
    for n, (i, f) in enumerate(facs):
        for b2 in _match(pats[0], f, b, pvars):
            yield from _match_used(pats[1:], facs[:n] + facs[n + 1:], b2, pvars, used + (i,))


def _match_multi(pats, facs, b, pvars):
    if not pats:
        yield b
        return
    p = pats[0]
    for i, f in enumerate(facs):
        for b2 in _match(p, f, b, pvars):
            yield from _match_multi(pats[1:], facs[:i] + facs[i + 1:], b2, pvars)


def _match(p, t, b, pvars):
    if p in b:
        if b[p] is t:
            yield b
        return
    if p in pvars:
        if t.sort == p.sort:
            yield {**b, p: t}
        return
    if p is t:
        yield b
        return
    if p.op != t.op or len(p.args) != len(t.args):
        return
    if p.op == "add" or p.op == "mul":
        yield from _match_multi(list(p.args), list(t.args), b, pvars)
        return

    def rec(i, b):
        if i == len(p.args):
            yield b
            return
        x, y = p.args[i], t.args[i]
        if isinstance(x, T):
            if not isinstance(y, T):
                return
            for b2 in _match(x, y, b, pvars):
                yield from rec(i + 1, b2)
        elif x == y:
            yield from rec(i + 1, b)
    yield from rec(0, b)


DICT = []      # constants of a failed obligation: values at which the code may switch its behaviour


def sample_real(rng, lo=None, hi=None, lo_open=False, hi_open=False, special=(), mag=None, true=None):
    for _ in range(60):
        if DICT and rng.random() < 0.35:
            v = mpf(rng.choice(DICT)) * mpf(rng.choice([1, 1, 1, -1])) * mpf(rng.choice([1, 1, 0.5, 0.875, 1.125, 2, 4]))
            a, b, ao, bo = true or (lo, hi, lo_open, hi_open)
            if (a is None or v > a or (v == a and not ao)) and (b is None or v < b or (v == b and not bo)):
                return v
        u = rng.random()
        if special and u < 0.2:
            v = mpf(rng.choice(list(special)))
        elif u < 0.30:
            v = mpf(rng.choice([0, 1, -1, 2]))
        else:
            s = mag if mag is not None else rng.choice([1, 1, 2, 4])
            v = mpf(rng.randint(-32, 32)) / 16 * s
            if lo is not None and hi is not None:
                v = mpf(lo) + (mpf(hi) - mpf(lo)) * mpf(rng.randint(0, 64)) / 64
            elif lo is not None:
                v = mpf(lo) + abs(v)
            elif hi is not None:
                v = mpf(hi) - abs(v)
        if lo is not None and (v < lo or (lo_open and v == lo)):
            continue
        if hi is not None and (v > hi or (hi_open and v == hi)):
            continue
        return v
    raise EvalError("sampling")


class In:
    """a declared input: .v is passed to the code, [..] reads the entry value in specifications"""
    __array_ufunc__ = None

    def __init__(self, k, name, shape, v, get):
        self.k, self.name, self.shape, self.v, self._get = k, name, shape, v, get

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        return self._get(idx)

    @property
    def e(self):
        return self._get(())

    def _o(self, o):
        return o.e if isinstance(o, In) else o

    def __add__(self, o): return self.e + self._o(o)
    def __radd__(self, o): return self._o(o) + self.e
    def __sub__(self, o): return self.e - self._o(o)
    def __rsub__(self, o): return self._o(o) - self.e
    def __mul__(self, o): return self.e * self._o(o)
    def __rmul__(self, o): return self._o(o) * self.e
    def __truediv__(self, o): return self.e / self._o(o)
    def __rtruediv__(self, o): return self._o(o) / self.e
    def __pow__(self, o): return self.e ** self._o(o)
    def __neg__(self): return -self.e
    def __lt__(self, o): return self.e < self._o(o)
    def __le__(self, o): return self.e <= self._o(o)
    def __gt__(self, o): return self.e > self._o(o)
    def __ge__(self, o): return self.e >= self._o(o)


class Kit:
    """API shared by both back ends (documentation); see SymKit / ConKit."""


def _ivar(d):
    """generic index of an axis; 0 for an axis of length 1"""
    d = dim_term(d)
    return ZERO if d.op == "num" and numval(d) == 1 else fresh("i", "I")


def unwrap(x):
    if isinstance(x, In):
        return x.v
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(unwrap(v) for v in x)
    if isinstance(x, dict):
        return {k: unwrap(v) for k, v in x.items()}
    return x


class SymKit(Kit):
    symbolic = True

    def __init__(self, world):
        self.w = world
        self.pi = scalar(PI, "f")
        self.I = scalar(IU, "c")
        self.inf = snp.inf
        self.LinAlgError = ext.LinAlgError

    # ------------------------------------------------------------- inputs
    def choice(self, name, options):
        options = list(options)
        i = self.w.decide(len(options), "choice:" + name)
        v = options[i]
        self.w.inputs[name] = ("choice", v)
        return v

    def dim(self, name, lo=1, hi=None, bounded=(1, 2, 3)):
        """a symbolic size lo <= n (<= hi)"""
        if hi is not None and hi == lo:
            return lo
        if self.w.bounded:
            opts = [b for b in bounded if b >= lo and (hi is None or b <= hi)] or [lo]  # int hi in this mode
            i = self.w.decide(len(opts), "dim:" + name)
            self.w.inputs[name] = ("dim", opts[i])
            return opts[i]
        v = var(name, "I")
        self.w.inputs[name] = ("dim", v)
        self.w.samplers[name] = lambda rng, env: rng.choice([x for x in (lo, lo + 1, lo + 2, lo + 3, lo + 2, lo + 1, lo + 4) if hi is None or x <= hi])
        self.w.ctx.assume(le(num(lo), v))
        if hi is not None:
            self.w.ctx.assume(le(v, num(hi)))
        if lo >= 1:
            self.w.positive.add(name)
        return scalar(v, "i")

    def int(self, name, lo=None, hi=None, bounded=(0, 1, 2, 3)):
        if self.w.bounded and lo is not None:
            opts = [b for b in bounded if b >= lo and (hi is None or b <= hi)] or [lo]  # int hi in this mode
            i = self.w.decide(len(opts), "int:" + name)
            self.w.inputs[name] = ("dim", opts[i])
            return opts[i]
        v = var(name, "I")
        self.w.inputs[name] = ("dim", v)
        a = -3 if lo is None else lo if type(lo) is int else 0
        b = (a + 6) if hi is None else hi if type(hi) is int else a + 3
        def isamp(rng, env):
            if DICT and rng.random() < 0.35:
                v = int(rng.choice(DICT)) + rng.choice([-1, 0, 1])
                if (lo is None or v >= a) and (hi is None or v <= b) and abs(v) <= 4096:
                    return v
            return rng.randint(a, min(b, a + 8))
        self.w.samplers[name] = isamp
        if lo is not None:
            self.w.ctx.assume(le(dim_term(lo), v))
        if hi is not None:
            self.w.ctx.assume(le(v, dim_term(hi)))
        return scalar(v, "i")

    def _declare(self, name, shape, kind, sampler, facts, positive):
        sh = tuple(dim_term(d) for d in shape)
        sort = {"f": "R", "i": "I", "c": "C", "b": "B"}[kind]
        w = self.w
        if not sh:
            t = var(name, sort)
            w.samplers[name] = lambda rng, env: sampler(rng, (), env)
            for f in facts:
                w.ctx.assume(f(t))
            get0 = lambda idx: t
        else:
            def interp(env, idx):
                r = random.Random(f"{env.rng_seed if hasattr(env, 'rng_seed') else id(env)}:{name}:{idx}")
                return sampler(r, idx, env)
            w.interp[name] = interp
            w.elem_facts[name] = [lambda *i, f=f: f(app(name, i, sort)) for f in facts]
            get0 = lambda idx: app(name, idx, sort)
        if positive:
            w.positive.add(name)
        buf = Buf(lambda idx: get0(idx), kind, name=name)
        a = SArr(buf, sh)
        if not sh:
            a.is_scalar = True
        g = lambda idx: scalar(get0(tuple(dim_term(i) for i in idx)), kind)
        r = In(self, name, tuple(shape), a, g)
        r.kind, r.get0, r.sh = kind, get0, sh
        w.inputs[name] = ("arr", r)
        return r

    def real(self, name, shape=(), lo=None, hi=None, lo_open=False, hi_open=False, pos=False, kind="f", special=(), mag=None,
             dtypes=None, layout=True, noint=False, samp=None):
        """lo/hi/pos: preconditions; samp: range of the sampled values only"""
        if pos:
            lo, lo_open = 0, True
        lo_, hi_, lo_open_, hi_open_ = (*samp, False, False) if samp else (lo, hi, lo_open, hi_open)
        facts = []
        if lo is not None:
            lt_ = num(Fraction(lo)) if not isinstance(lo, float) else num(lo)
            facts.append((lambda t: lt(lt_, t)) if lo_open else (lambda t: le(lt_, t)))
        if hi is not None:
            ht = num(Fraction(hi)) if not isinstance(hi, float) else num(hi)
            facts.append((lambda t: lt(t, ht)) if hi_open else (lambda t: le(t, ht)))

        def sampler(rng, idx, env):
            v = sample_real(rng, lo_, hi_, lo_open_, hi_open_, special, mag, (lo, hi, lo_open, hi_open))
            if kind == "i":
                v = int(v)
                if (lo is not None and (v < lo or (lo_open and v == lo))):
                    v += 1
            return v
        return self._declare(name, shape, kind, sampler, facts, bool(lo is not None and (lo > 0 or (lo == 0 and lo_open))))

    def complex(self, name, shape=(), im=None, mag=None, special=(), re=None, layout=True):
        """im: None | 'pos' | 'neg' | 'nonneg'"""
        facts = []
        if im == "pos":
            facts.append(lambda t: lt(ZERO, fn("im", t)))
        elif im == "neg":
            facts.append(lambda t: lt(fn("im", t), ZERO))
        elif im == "nonneg":
            facts.append(lambda t: le(ZERO, fn("im", t)))
        elif im == "nonzero":
            facts.append(lambda t: ne(fn("im", t), ZERO))

        def sampler(rng, idx, env):
            r = sample_real(rng, special=special, mag=mag)
            i = sample_real(rng, mag=mag)
            if im in ("pos", "neg"):
                i = abs(i) + mpf(1) / 16
                if im == "neg":
                    i = -i
            elif im == "nonneg":
                i = abs(i)
            elif im == "nonzero" and i == 0:
                i = mpf(3) / 16
            return mpc(r, i)
        return self._declare(name, shape, "c", sampler, facts, False)

    def const(self, value):
        """a fixed literal input usable in specs"""
        return value

    def assume(self, c):
        c = self._b(c)
        self.w.ctx.assume(c)

    def assume_forall(self, f, *dims):
        vs = [fresh("a", "I") for _ in dims]
        t = self._b(f(*[scalar(v, "i") for v in vs]))
        for v, d in zip(reversed(vs), reversed(dims)):
            t = tm.forall(v, ZERO, tm.sub(dim_term(d), ONE), t)
        self.w.ctx.assume(t)

    # ---------------------------------------------------------- spec functions
    def _b(self, c):
        if isinstance(c, bool):
            return TRUE if c else FALSE
        if isinstance(c, T):
            return c
        t = asarr(c).term()
        return t if t.sort == "B" else ne(t, ZERO)

    def _e(self, x):
        return x.e if isinstance(x, In) else x

    def exp(self, x): return snp.exp(self._e(x))
    def log(self, x): return snp.log(self._e(x))
    def conj(self, x): return snp.conj(self._e(x))
    def re(self, x): return asarr(self._e(x)).real
    def im(self, x): return asarr(self._e(x)).imag
    def abs(self, x): return snp.abs(self._e(x))
    def sqrt(self, x): return snp.em_sqrt(self._e(x))
    def rsqrt(self, x): return snp.sqrt(self._e(x))
    def ellipk(self, m):
        m = asarr(self._e(m))
        return snp._ew(lambda a: fn("cellipk", a) if a.sort == "C" else fn("ellipk", a), lambda k: k, m)

    def jv(self, n, x): return ext.jv(n, self._e(x))
    def pow(self, x, n): return asarr(self._e(x)) ** asarr(n)
    def min(self, a, b): return snp.minimum(a, b)
    def max(self, a, b): return snp.maximum(a, b)
    def sin(self, x): return snp.sin(self._e(x))
    def cos(self, x): return snp.cos(self._e(x))

    def ite(self, c, a, b):
        a = a() if callable(a) else a
        b = b() if callable(b) else b
        return snp.where(scalar(self._b(c), "b"), self._e(a), self._e(b))

    def and_(self, *cs): return scalar(and_(*[self._b(c) for c in cs]), "b")
    def or_(self, *cs): return scalar(or_(*[self._b(c) for c in cs]), "b")
    def not_(self, c): return scalar(not_(self._b(c)), "b")
    def implies(self, a, b):
        a = a() if callable(a) and not isinstance(a, SArr) else a
        b = b() if callable(b) else b
        return scalar(or_(not_(self._b(a)), self._b(b)), "b")

    def eq(self, a, b): return scalar(eq(asarr(self._e(a)).term(), asarr(self._e(b)).term()), "b")

    def sum(self, f, *rng):
        lo, hi = (0, rng[0]) if len(rng) == 1 else rng
        v = fresh("q", "I")
        t = asarr(self._e(f(scalar(v, "i"))))
        return scalar(tm.sum_(v, dim_term(lo), tm.sub(dim_term(hi), ONE), t.term()), t.kind)

    def amax(self, f, n):
        """largest of f(0), ..., f(n-1)"""
        v = fresh("q", "I")
        t = asarr(self._e(f(scalar(v, "i"))))
        return scalar(tm.amax(v, ZERO, tm.sub(dim_term(n), ONE), t.term()), t.kind)

    def prod(self, f, *rng):
        lo, hi = (0, rng[0]) if len(rng) == 1 else rng
        v = fresh("q", "I")
        t = asarr(self._e(f(scalar(v, "i"))))
        return scalar(tm.prod_(v, dim_term(lo), tm.sub(dim_term(hi), ONE), t.term()), t.kind)

    def forall(self, f, *dims):
        vs = [fresh("a", "I") for _ in dims]
        t = self._b(f(*[scalar(v, "i") for v in vs]))
        for v, d in zip(reversed(vs), reversed(dims)):
            t = tm.forall(v, ZERO, tm.sub(dim_term(d), ONE), t)
        return scalar(t, "b")

    def exists(self, f, *dims):
        vs = [fresh("a", "I") for _ in dims]
        t = self._b(f(*[scalar(v, "i") for v in vs]))
        for v, d in zip(reversed(vs), reversed(dims)):
            t = tm.exists(v, ZERO, tm.sub(dim_term(d), ONE), t)
        return scalar(t, "b")

    def frac(self, a, b=1):
        return scalar(tm.real(num(Fraction(a, b))), "f")

    def fdiv(self, a, b):
        return asarr(a) // asarr(b)

    def delta(self, i, j):
        return self.ite(self.eq(i, j), 1, 0)

    def out(self, res):
        """accessor for a result"""
        a = asarr(res)
        g = a.getter()
        return In(self, "result", a.shape, a, lambda idx: scalar(g(tuple(dim_term(i) for i in idx)), a.kind))

    # ------------------------------------------------------------------ calls
    def fn(self, path):
        return self.w.loader.get(path)

    def call(self, f, *args, **kw):
        ok, r = self._call(f, args, kw)
        if not ok:
            self.w.obligations.append(dict(name=f"no-exception:{self._fname(f)}", facts=list(self.w.ctx.facts), goal=FALSE,
                                           ctx=self.w.ctx.copy(), exc=f"{type(r).__name__}: {r} {getattr(r, 'tb', '')[-300:]}"))
            raise PathDone
        return r

    def _fname(self, f):
        return f if isinstance(f, str) else getattr(f, "__name__", str(f))

    def _call(self, f, args, kw):
        import warnings
        self.w.calls.append(self._fname(f))
        try:
            g = self.fn(f) if isinstance(f, str) else f
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return True, g(*unwrap(args), **unwrap(kw))
        except RecursionError:
            raise Unsupported("recursion limit")
        except Exception as e:
            e.tb = traceback.format_exc(limit=-4)
            self._shim_deficiency(e)
            return False, e

    @staticmethod
    def _shim_deficiency(e):
        """an exception that stems from an incomplete model of numpy, not from the code"""
        msg = str(e)
        last = traceback.extract_tb(e.__traceback__)[-1].filename if e.__traceback__ else ""
        if isinstance(e, (AttributeError, TypeError)) and ("SArr" in msg or "'T' object" in msg or "unexpected keyword argument" in msg
                                                            or "Rng" in msg or "s_int" in msg):
            raise Unsupported(f"model: {msg}") from e
        if isinstance(e, TypeError) and "positional argument" in msg:
            raise Unsupported(f"model: {msg}") from e
        if "/dv/" in last and isinstance(e, (AttributeError, NameError, KeyError, AssertionError, RecursionError)):
            raise Unsupported(f"model: {type(e).__name__}: {msg}") from e

    def call_raises(self, exc, when, f, *args, **kw):
        """the call raises `exc` exactly when `when` holds; returns the result otherwise"""
        ok, r = self._call(f, args, kw)
        when = self._b(when)
        nm = self._fname(f)
        if ok:
            self._ob(f"raises-when-required:{nm}", not_(when))
            return r
        if isinstance(r, exc):
            self._ob(f"raises-only-when-allowed:{nm}", when, exc=f"{type(r).__name__}: {r}")
        else:
            self._ob(f"no-exception:{nm}", FALSE, exc=f"{type(r).__name__}: {r}")
        raise PathDone

    def call_or(self, exc, f, *args, **kw):
        """(True, result) or (False, exception) if the call raises `exc`; any other exception is a violation"""
        ok, r = self._call(f, args, kw)
        if not ok and not isinstance(r, exc):
            self._ob(f"no-exception:{self._fname(f)}", FALSE, exc=f"{type(r).__name__}: {r}")
            raise PathDone
        return ok, r

    # ------------------------------------------------------------- obligations
    def _ob(self, name, goal, facts=(), **extra):
        if getattr(self.w, "broken_loop", False):
            raise Unsupported("loop left by break/return")
        ctx = self.w.ctx.copy()
        for f in facts:
            ctx.assume(f)
        self.w.obligations.append(dict(name=name, goal=goal, ctx=ctx, **extra))

    def ensure(self, name, cond, *dims):
        """forall indices in dims: cond(*idx)"""
        if not dims and not callable(cond):
            self._ob(name, self._b(cond))
            return
        vs = [_ivar(d) for d in dims]
        facts = [le(ZERO, v) for v in vs] + [lt(v, dim_term(d)) for v, d in zip(vs, dims)]
        old = self.w.ctx
        self.w.ctx = old.copy()
        for f in facts:
            self.w.ctx.assume(f)
        try:
            t = self._b(cond(*[scalar(v, "i") for v in vs]))
        finally:
            self.w.ctx = old
        for v, d in zip(vs, dims):
            if v.op == "num":
                continue
            self.w.samplers[v.args[0]] = lambda rng, env, d=d: rng.randint(0, max(int(ev(dim_term(d), env)) - 1, 0))
        self._ob(name, t, facts)

    def ensure_shape(self, name, res, shape):
        a = asarr(res)
        if a.mask is not None:
            raise Unsupported("selection returned")
        want = tuple(dim_term(d) for d in shape)
        if len(want) != len(a.sh):
            self._ob(name + ":ndim", FALSE, exc=f"rank {len(a.sh)}, expected {len(want)}")
            return False
        g = and_(*[eq(x, y) for x, y in zip(a.sh, want)])
        if g is not TRUE:
            self._ob(name + ":shape", g)
        return True

    def ensure_eq(self, name, res, spec, shape=None, tol=None, scale=None, atol=None, rel=None):
        if shape is None:
            shape = ()
        if not self.ensure_shape(name, res, shape):
            return
        a = asarr(res)
        g = a.getter()
        vs = [_ivar(d) for d in shape]
        facts = [le(ZERO, v) for v in vs] + [lt(v, dim_term(d)) for v, d in zip(vs, shape)]
        old = self.w.ctx
        self.w.ctx = old.copy()
        for f in facts:
            self.w.ctx.assume(f)
        try:
            got = g(tuple(vs))
            s = spec(*[scalar(v, "i") for v in vs]) if callable(spec) else spec
            want = asarr(self._e(s)).term()
        finally:
            self.w.ctx = old
        for v, d in zip(vs, shape):
            if v.op == "num":
                continue
            self.w.samplers[v.args[0]] = lambda rng, env, d=d: rng.randint(0, max(int(ev(dim_term(d), env)) - 1, 0))
        if got.sort == "B" or want.sort == "B":
            goal = eq(got, want)
        else:
            goal = tm._mk("eq", (got, want), "B") if got is not want else TRUE
        self._ob(name, goal, facts)

    def ensure_real_dtype(self, name, res):
        a = asarr(res)
        self._ob(name, TRUE if a.kind != "c" else FALSE)

    def frame(self):
        """inputs are not modified"""
        for nm, v in self.w.inputs.items():
            if v[0] != "arr":
                continue
            r = v[1]
            if not r.sh:
                continue
            vs = [fresh("i", "I") for _ in r.sh]
            now = r.v.buf.get(tuple(vs))
            facts = [le(ZERO, x) for x in vs] + [lt(x, d) for x, d in zip(vs, r.sh)]
            for x, d in zip(vs, r.sh):
                self.w.samplers[x.args[0]] = lambda rng, env, d=d: rng.randint(0, max(int(ev(d, env)) - 1, 0))
            orig = r.get0(tuple(vs))
            goal = TRUE if now is orig else (tm._mk("eq", (now, orig), "B") if now.sort != "B" else eq(now, orig))
            self._ob(f"frame:{nm}", goal, facts)

    def only_concrete(self):
        """the remainder of this contract has no symbolic counterpart"""
        raise Unsupported("contract clause checked concretely only")

    def concrete(self, f):
        """a clause evaluated only on the real code (bounded)"""
        self.w.notes.add("clause checked on the real code only (bounded)")

    def hook(self, name, f):
        self.w.hooks[name] = f

    def stub(self, path, f):
        """use the contract f of a callee instead of its body"""
        self.w.stubs[path] = f

    # ------------------------------------------------------------------ loops
    def ghost(self, name, rec, kind="f", pos=-1, arity=None):
        """a function defined by recursion on argument `pos`: g(idx) = rec(idx)"""
        from .loops import Ghost
        return Ghost(self, name, kind, pos if pos >= 0 else arity + pos, rec)

    def loop(self, path, at, new=None, ghosts=(), base=None, kinds=None, label=None, inv=None, first=None):
        """invariant of the (next) loop with symbolic trip count in the function `path`;
        at(i) -> {local variable: (shape, contents)} before iteration i; new(i): argument at which the ghosts are unfolded in at(i+1);
        inv(i) -> {name: condition} further facts (while loops); first: number given to the first iteration
        (default: the value of the loop variable)"""
        if not hasattr(self.w, "loops"):
            self.w.loops = []
        self.w.loops.append(dict(code=path.rsplit(".", 1)[-1], at=at, new=new, ghosts=list(ghosts), base=base, kinds=kinds or {}, inv=inv, first=first,
                                 label=label or path.rsplit(".", 1)[-1], kit=self))

    def iteration(self, path):
        """number of the (arbitrary) iteration in which the while loop was left"""
        return next(s for s in self.w.loops if s["code"] == path.rsplit(".", 1)[-1])["iteration"]

    def iterations(self, path, results):
        """the values produced by the iterations of the loop of a generator function: (number, value) of an arbitrary one"""
        sp = next(s for s in self.w.loops if s["code"] == path.rsplit(".", 1)[-1])
        if "range" not in sp:
            return []
        if len(results) != 1:
            raise Unsupported("iterations of a generator")
        i, lo, hi = sp["range"]
        self.w.ctx.assume(le(lo, i))
        self.w.ctx.assume(lt(i, hi))
        return [(scalar(i, "i"), results[0])]

    @property
    def nan(self):
        return scalar(tm.NAN, "f")

    def need_loops(self):
        """the remainder relies on the loop rule (all sizes); small sizes are covered by other contracts"""
        if self.w.bounded:
            raise PathDone

    def stable(self, *a, **kw):
        """conditioning precondition: concrete evaluations only (exact arithmetic here)"""

    def symbolic_only(self):
        """the remainder of this contract is checked by the deductive back end only"""

    def as_array(self, x):
        return asarr(x)

    def ufun(self, name, f_np, kind="c", f_mp=None):
        """an arbitrary function supplied by the caller: uninterpreted in the proof"""
        sort = {"f": "R", "c": "C"}[kind]
        self.w.interp[name] = lambda env, idx: (f_mp or f_np)(idx[0])

        def g(x, *a, **kw):
            x = asarr(self._e(x))
            gg = x.getter()
            coerce = (lambda t: t)
            r = from_fn(lambda idx: app(name, (coerce(gg(idx)),), sort), x.sh, kind)
            if not x.sh:
                r.is_scalar = True
            return r
        g.__name__ = name
        return g

    def derived(self, name, shape, kind, f):
        """an input array defined from other inputs"""
        sh = tuple(dim_term(d) for d in shape)
        fk = lambda idx: asarr(self._e(f(*[scalar(i, "i") for i in idx]))).astype({"f": snp.float64, "c": snp.complex128, "i": snp.int64}[kind]).term()
        a = SArr(Buf(fk, kind, name=name), sh)
        if not sh:
            a.is_scalar = True
        r = In(self, name, tuple(shape), a, lambda idx: scalar(fk(tuple(dim_term(i) for i in idx)), kind))
        r.kind, r.get0, r.sh = kind, fk, sh
        self.w.inputs[name] = ("arr", r)
        return r
