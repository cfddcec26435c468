"""Normal forms: rational functions over algebraically treated atoms.

A polynomial is {monomial: Fraction}; a monomial is a sorted tuple of (atom, exponent).
A rational function is (poly, {factor: exponent}) with factors canonical polynomials.
Every rewrite used here is an identity of C (or, where marked, valid under the
registered positivity / integrality of the atoms involved).
"""
import itertools
from fractions import Fraction
from .term import (T, num, ZERO, ONE, PI, IU, INF, NAN, TRUE, FALSE, add, mul, pow_, neg, sub,
                   fn, ite, real, sum_, subst, fresh, numval, le, lt, eq, and_, or_, not_,
                   BINDERS, _mk, bvar, _bdepth)
from . import term as tm


class TooBig(Exception):
    pass


MAXTERMS = 3000


class Norm:
    """A normalisation context. `cond(c)` decides a boolean term: True / False / None."""

    def __init__(self, cond=None, positive=None, sumrules=(), budget=200000, opaque=False):
        self.opaque = opaque     # real and imaginary parts as atoms (a generalisation)
        self.cond = cond or (lambda c: None)
        self.ispos = positive or (lambda t: False)
        self.atoms = []          # id -> payload
        self.index = {}          # payload key -> id
        self.memo = {}
        self.sqrts = set()
        self.alias = {}          # atom id -> RF replacement (congruence)
        self.sumrules = list(sumrules)
        self.budget = budget
        self.bounds = {}         # range of the bound variable of enclosing sums
        self._cond0 = self.cond
        self.cond = self._dec
        self.I = self.atom(("I",), IU)
        self.PI = self.atom(("pi",), PI)

    def _dec(self, c):
        """decide a condition, using the ranges of bound variables"""
        if c is TRUE or c is FALSE:
            return c is TRUE
        r = self._cond0(c)
        if r is not None or not self.bounds:
            return r
        b = [v for v in c.fv if v in self.bounds]
        if not b or c.size > 60:
            return None
        hyp = and_(*[x for v in b for x in (le(self.bounds[v][0], v), le(v, self.bounds[v][1]))])
        if self._cond0(or_(not_(hyp), c)) is True:
            return True
        if self._cond0(or_(not_(hyp), not_(c))) is True:
            return False
        return None

    # ------------------------------------------------------------ atoms
    def atom(self, key, t):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append((key, t))
            self.index[key] = i
            if key[0] == "sqrt":
                self.sqrts.add(i)
        return i

    def kind(self, i):
        return self.atoms[i][0][0]

    # -------------------------------------------------------- monomials
    def mono_mul(self, a, b):
        """product of monomials -> (sign, monomial)"""
        if not a:
            return 1, b
        if not b:
            return 1, a
        d = dict(a)
        for k, e in b:
            d[k] = d.get(k, 0) + e
        return self._mono(d)

    def _mono(self, d):
        sign = 1
        out = []
        for k, e in d.items():
            if e == 0:
                continue
            if k == self.I:
                e = e % 4
                if e >= 2:
                    sign = -sign
                    e -= 2
                if e == 0:
                    continue
            else:
                kd = self.kind(k)
                if kd == "ind":
                    e = 1
                elif kd == "exp" and self.atoms[k][0][2]:   # exp(i pi n), n integer
                    e = Fraction(e) % 2
                    if e == 0:
                        continue
                    if e.denominator == 1:
                        e = int(e)
            if isinstance(e, Fraction) and e.denominator == 1:
                e = int(e)
            out.append((k, e))
        out.sort(key=lambda p: p[0])
        return sign, tuple(out)

    # ------------------------------------------------------ polynomials
    def p_add(self, p, q):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def p_scale(self, p, c):
        return {m: v * c for m, v in p.items()} if c else {}

    def p_mul(self, p, q):
        if len(p) * len(q) > 40 * MAXTERMS:
            raise TooBig
        self.budget -= len(p) * len(q)
        if self.budget < 0:
            raise TooBig
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                s, m = self.mono_mul(m1, m2)
                v = r.get(m, 0) + s * c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        if len(r) > MAXTERMS:
            raise TooBig
        return r

    def p_pow(self, p, n):
        r = {(): Fraction(1)}
        for _ in range(n):
            r = self.p_mul(r, p)
        return r

    # ------------------------------------------------ rational functions
    ZERO_RF = ({}, {})

    def rf_const(self, c):
        return ({(): Fraction(c)} if c else {}, {})

    def rf_atom(self, i, e=1):
        a = self.alias.get(i)
        if a is not None:
            return self.rf_pow(a, e)
        s, m = self._mono({i: e})
        return ({m: Fraction(s)}, {})

    def rf_add(self, a, b):
        (p, d), (q, f) = a, b
        if not p:
            return b
        if not q:
            return a
        if d == f:
            n = self.p_add(p, q)
            return self.rf_simpl((n, d))
        keys = set(d) | set(f)
        den = {k: max(d.get(k, 0), f.get(k, 0)) for k in keys}
        for k in keys:
            e = den[k] - d.get(k, 0)
            if e:
                p = self.p_mul(p, self.p_pow(dict(k), e))
            e = den[k] - f.get(k, 0)
            if e:
                q = self.p_mul(q, self.p_pow(dict(k), e))
        return self.rf_simpl((self.p_add(p, q), den))

    def rf_simpl(self, a):
        """reduce algebraic atoms and cancel denominators that divide the numerator."""
        p, d = a
        if not p:
            return ({}, {})
        p2 = self.reduce_alg(p)
        if p2 is not None:
            groups = {}
            for q, f in p2:
                k = frozenset(f.items())
                groups[k] = self.p_add(groups[k], q) if k in groups else q
            r = self.ZERO_RF
            for k, q in groups.items():
                r = self.rf_add(r, (q, dict(k)))
            if d:
                r = self.rf_mulden(r, d)
            return r
        if d:
            d2 = dict(d)
            for k in list(d):
                while d2.get(k):
                    q = self.p_divexact(p, dict(k))
                    if q is None:
                        break
                    p = q
                    d2[k] -= 1
                    if not d2[k]:
                        del d2[k]
            d = d2
        return (p, d)

    def rf_mulden(self, a, d):
        p, f = a
        f = dict(f)
        for k, e in d.items():
            f[k] = f.get(k, 0) + e
        p0 = p
        return self.rf_cancel((p0, f))

    def rf_cancel(self, a):
        p, d = a
        if not p:
            return ({}, {})
        d2 = dict(d)
        for k in list(d2):
            while d2.get(k):
                q = self.p_divexact(p, dict(k))
                if q is None:
                    break
                p = q
                d2[k] -= 1
                if not d2[k]:
                    del d2[k]
        return (p, d2)

    def reduce_alg(self, p):
        """sqrt atoms with exponent outside {0,1}: returns list of RFs or None if nothing to do."""
        sq = self.sqrts
        if not sq or not any(e != 1 and k in sq for m in p for k, e in m):
            return None
        out = []
        plain = {}
        for m, c in p.items():
            rest = {}
            extra = None
            for k, e in m:
                if self.kind(k) == "sqrt" and e not in (0, 1):
                    argrf = self.atoms[k][0][3]
                    q, r = divmod(e, 2)
                    f = self.rf_pow(argrf, q)
                    extra = f if extra is None else self.rf_mul(extra, f)
                    if r:
                        rest[k] = 1
                else:
                    rest[k] = e
            if extra is None:
                plain[m] = plain.get(m, 0) + c
            else:
                s, mm = self._mono(rest)
                out.append(self.rf_mul(({mm: c * s}, {}), extra))
        if plain:
            out.append((plain, {}))
        return out

    def rf_mul(self, a, b):
        (p, d), (q, f) = a, b
        if not p or not q:
            return ({}, {})
        n = self.p_mul(p, q)
        den = dict(d)
        for k, e in f.items():
            den[k] = den.get(k, 0) + e
        return self.rf_simpl((n, den))

    def rf_neg(self, a):
        return (self.p_scale(a[0], Fraction(-1)), a[1])

    def rf_inv(self, a):
        p, d = a
        if not p:
            raise ZeroDivisionError
        numer = {(): Fraction(1)}
        for k, e in d.items():
            numer = self.p_mul(numer, self.p_pow(dict(k), e))
        if len(p) == 1:
            (m, c), = p.items()
            s, mi = self._mono({k: -e for k, e in m})
            # I^-1 = -I handled through mod 4
            r = (self.p_mul(numer, {mi: Fraction(s) / c}), {})
            return self.rf_simpl(r)
        lead, mono, fac = self.p_content(p)
        s, mi = self._mono({k: -e for k, e in mono})
        r = (self.p_mul(numer, {mi: Fraction(s) / lead}), {fac: 1})
        return self.rf_simpl(r)

    def p_content(self, p):
        """p = lead * mono * fac, fac canonical (monic w.r.t. the smallest monomial key)."""
        it = iter(p)
        common = dict(next(it))
        allkeys = set(common)
        for m in it:
            dm = dict(m)
            allkeys |= set(dm)
        mono = {}
        for k in allkeys:
            if k == self.I or self.kind(k) in ("ind", "sqrt"):
                continue
            if self.kind(k) == "exp" and self.atoms[k][0][2]:
                continue
            mn = min(dict(m).get(k, 0) for m in p)
            if mn:
                mono[k] = mn
        s, inv = self._mono({k: -e for k, e in mono.items()})
        q = self.p_mul(p, {inv: Fraction(s)}) if mono else p
        # leading coefficient: of the largest monomial in sort order
        lm = max(q, key=lambda m: m)
        lead = q[lm]
        fac = frozenset((m, c / lead) for m, c in q.items())
        return lead, tuple(sorted(mono.items())), fac

    def rf_pow(self, a, n):
        if n == 0:
            return self.rf_const(1)
        if n == 1:
            return a
        if isinstance(n, Fraction) and n.denominator != 1:
            raise TooBig
        n = int(n)
        if n < 0:
            return self.rf_pow(self.rf_inv(a), -n)
        r = a
        for _ in range(n - 1):
            r = self.rf_mul(r, a)
        return r

    # exact division of polynomials (lex order on monomials as dicts)
    def p_divexact(self, p, q):
        if len(p) < 1 or len(q) > len(p) * 4 and len(p) > 1:
            return None
        if len(p) > 400 or len(q) > 60:
            return None
        # any algebraic atoms in q break unique leading terms; skip I-carrying divisors unless equal
        lq = max(q)
        cq = q[lq]
        r = dict(p)
        out = {}
        steps = 0
        atoms_q = {k for m in q for k, _ in m}
        if any(k == self.I or self.kind(k) in ("ind", "sqrt") or (self.kind(k) == "exp" and self.atoms[k][0][2]) for k in atoms_q):
            # only the proportional case
            if len(p) != len(q):
                return None
            m0 = max(p)
            try:
                s, t = self.mono_mul(m0, self._mono({k: -e for k, e in lq})[1])
            except Exception:
                return None
            cand = {t: Fraction(1)}
            pr = self.p_mul(q, cand)
            if set(pr) != set(p):
                return None
            ratio = {p[m] / pr[m] for m in p}
            if len(ratio) == 1:
                return {t: ratio.pop()}
            return None
        while r:
            steps += 1
            if steps > 200:
                return None
            lm = max(r)
            s, t = self.mono_mul(lm, self._mono({k: -e for k, e in lq})[1])
            if any((e < 0) and (k in atoms_q) and not self._neg_ok(p, k) for k, e in t):
                return None
            c = r[lm] / cq * s
            s2, chk = self.mono_mul(t, lq)
            if chk != lm:
                return None
            out[t] = out.get(t, 0) + c
            r = self.p_add(r, self.p_scale(self.p_mul({t: Fraction(1)}, q), -c))
            if len(r) > len(p) + 50:
                return None
        return out

    def _neg_ok(self, p, k):
        return any(e < 0 for m in p for kk, e in m if kk == k)

    # ------------------------------------------------------------- keys
    def key(self, a):
        return (frozenset(a[0].items()), frozenset(a[1].items()))

    # --------------------------------------------------------- translate
    def rf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._rf(t)
            self.memo[t] = r
        return r

    def _rf(self, t):
        op = t.op
        if op == "num":
            return self.rf_const(numval(t))
        if op == "const":
            n = t.args[0]
            if n == "I":
                return self.rf_atom(self.I)
            if n == "pi":
                return self.rf_atom(self.PI)
            return self.rf_atom(self.atom(("const", n), t))
        if op == "toreal":
            return self.rf(t.args[0])
        if op in ("var",):
            return self.rf_atom(self.atom(("var", t), t))
        if op == "app":
            args = []
            for a in t.args[1:]:
                args.append(self.key(self.rf(a)) if a.sort in "IRC" else a)
            return self.rf_atom(self.atom(("app", t.args[0], *args), t))
        if op == "add":
            r = self.ZERO_RF
            # group by denominators to limit blow-up
            for a in t.args:
                r = self.rf_add(r, self.rf(a))
            return r
        if op == "mul":
            r = self.rf_const(1)
            for a in sorted(t.args, key=lambda a: a.size):
                r = self.rf_mul(r, self.rf(a))
                if not r[0]:
                    return r
            return r
        if op == "pow":
            return self.rf_powterm(t.args[0], t.args[1], t)
        if op == "ite":
            c = self.cond(t.args[0])
            if c is True:
                return self.rf(t.args[1])
            if c is False:
                return self.rf(t.args[2])
            ind = self.indicator(t.args[0])
            a, b = self.rf(t.args[1]), self.rf(t.args[2])
            if self.key(a) == self.key(b):
                return a
            return self.rf_add(self.rf_mul(ind, a), self.rf_mul(self.rf_add(self.rf_const(1), self.rf_neg(ind)), b))
        if op == "sum":
            return self.rf_sum(t)
        if op == "fn":
            return self.rf_fn(t)
        return self.rf_opaque(t)

    def rf_opaque(self, t):
        """binder other than sum etc.: atom keyed by normalised children"""
        parts = []
        for a in t.args:
            if isinstance(a, T) and a.sort in "IRC":
                parts.append(self.key(self.rf(a)))
            else:
                parts.append(a)
        return self.rf_atom(self.atom((t.op, *parts), t))

    def indicator(self, c):
        if c is TRUE:
            return self.rf_const(1)
        if c is FALSE:
            return self.rf_const(0)
        d = self.cond(c)
        if d is not None:
            return self.rf_const(1 if d else 0)
        if c.op == "and":
            r = self.rf_const(1)
            for a in c.args:
                r = self.rf_mul(r, self.indicator(a))
            return r
        if c.op == "or":
            r = self.rf_const(1)
            for a in c.args:
                r = self.rf_mul(r, self.rf_add(self.rf_const(1), self.rf_neg(self.indicator(a))))
            return self.rf_add(self.rf_const(1), self.rf_neg(r))
        n = not_(c)
        if n.op == "not" or n.id > c.id or c.op not in ("lt", "le", "eq", "not"):
            pos = c
        else:
            pos = n
        if c.op == "not":
            pos = c.args[0]
        key = ("ind", pos)
        if pos.op in ("lt", "le", "eq"):
            k = self.key(self.rf(sub(pos.args[0], pos.args[1])))
            key = ("ind", pos.op, k)
        a = self.rf_atom(self.atom(key, pos))
        if pos is c:
            return a
        return self.rf_add(self.rf_const(1), self.rf_neg(a))

    # powers with symbolic exponents -------------------------------------
    def rf_powterm(self, b, e, t):
        if e.op == "num":
            ev = numval(e)
            if ev.denominator == 1:
                if abs(ev) > 40:
                    return self.rf_atom(self.atom(("pownum", self.key(self.rf(b)), ev), t))
                return self.rf_pow(self.rf(b), int(ev))
            if ev.denominator == 2:
                s = self.rf(fn("sqrt", b))
                return self.rf_pow(s, int(ev * 2))
            return self.rf_atom(self.atom(("powq", self.key(self.rf(b)), ev), t))
        # integer symbolic exponent: b^(sum c_i m_i) = prod (b^{m_i})^{c_i}
        if e.sort == "I":
            erf = self.rf(e)
            if erf[1]:
                return self.rf_atom(self.atom(("powt", self.key(self.rf(b)), self.key(erf)), t))
            brf = self.rf(b)
            if brf[0] == {(): Fraction(-1)} and not brf[1]:
                return self.rf_fn(fn("exp", mul(IU, PI, e)))
            bases = [(brf, 1)]
            # split products: (xy)^n = x^n y^n
            if len(brf[0]) == 1 and not brf[1]:
                (m, c), = brf[0].items()
                bases = [(self.rf_atom(k), ex) for k, ex in m]
                if c != 1:
                    bases.append((self.rf_const(c), 1))
            r = self.rf_const(1)
            for m, c in erf[0].items():
                if c.denominator != 1:
                    return self.rf_atom(self.atom(("powt", self.key(brf), self.key(erf)), t))
                for bb, ex in bases:
                    if m == ():
                        r = self.rf_mul(r, self.rf_pow(bb, int(c) * ex))
                    else:
                        bt, et = self.term_of(bb), self.term_of(({m: Fraction(1)}, {}))
                        i = self.atom(("powi", self.key(bb), m), _mk("pow", (bt, et), bt.sort if bt.sort != "I" else "R"))
                        r = self.rf_mul(r, self.rf_atom(i, int(c) * ex))
            return r
        return self.rf_atom(self.atom(("powt", self.key(self.rf(b)), self.key(self.rf(e))), t))

    # functions -------------------------------------------------------------
    def rf_fn(self, t):
        name = t.args[0]
        args = t.args[1:]
        a = args[0]
        # resolve / push over ite
        if name in ("exp", "sqrt", "csqrt", "log", "clog", "re", "im", "abs", "conj", "ellipk", "cellipk", "cbrt") and a.op == "ite":
            return self.rf(ite(a.args[0], fn(name, a.args[1], *args[1:]), fn(name, a.args[2], *args[1:])))
        if name == "exp":
            return self.rf_exp(a)
        if name in ("re", "im") and self.opaque and a.op in ("fn", "pow", "app", "var"):
            return self.rf_atom(self.atom(("fn", name, self.key(self.rf(a))), t))
        if name in ("re", "im"):
            c = fn("conj", a)
            if name == "re":
                return self.rf(mul(num(Fraction(1, 2)), add(a, c)))
            return self.rf(mul(num(Fraction(-1, 2)), IU, sub(a, c)))
        if name == "conj":
            return self.rf_conjatom(a, t)
        if name == "abs":
            if a.sort == "C":
                return self.rf(fn("sqrt", fn("re", mul(a, fn("conj", a)))))
        if name in ("sqrt", "csqrt"):
            return self.rf_sqrt(name, a, t)
        if name == "cellipk" and a.sort != "C" and self.cond is not None and self.cond(lt(a, num(1, "R"))) is True:
            return self.rf(fn("ellipk", a))     # the two agree below the branch cut
        if name == "log" or name == "clog":
            if a.sort != "C" and self.cond is not None and (a.op == "mul" or (a.op == "pow" and a.args[1].op == "num")):
                fs = a.args if a.op == "mul" else (a,)
                bs = [(f.args[0], f.args[1]) if f.op == "pow" and f.args[1].op == "num" else (f, ONE) for f in fs]
                if all(self.cond(lt(ZERO, b)) is True for b, _ in bs):
                    return self.rf(add(*[mul(e, fn("log", b)) for b, e in bs]))
            arf = self.rf(a)
            if arf[0] == {(): Fraction(1)} and not arf[1]:
                return self.ZERO_RF
            e = self.as_exp(arf)
            if e is not None and a.sort != "C":
                return e
            return self.rf_atom(self.atom(("fn", "log", a.sort == "C", self.key(arf)), t))
        keys = tuple(self.key(self.rf(x)) if x.sort in "IRC" else x for x in args)
        return self.rf_atom(self.atom(("fn", name, *keys), t))

    def as_exp(self, arf):
        """log of a pure product of real exp atoms"""
        p, d = arf
        if d or len(p) != 1:
            return None
        (m, c), = p.items()
        if c != 1:
            return None
        r = self.ZERO_RF
        for k, e in m:
            if self.kind(k) != "exp" or self.atoms[k][0][2]:
                return None
            r = self.rf_add(r, self.rf_mul(self.rf_const(e), self.atoms[k][0][3]))
        return r

    def rf_conjatom(self, a, t):
        arf = self.rf(a)
        return self.rf_conj(arf)

    def rf_conj(self, arf):
        """conjugate a normal form atom by atom"""
        p, d = arf
        r = self.conj_poly(p)
        for k, e in d.items():
            r = self.rf_mul(r, self.rf_pow(self.rf_inv(self.conj_poly(dict(k))), e))
        return r

    def conj_poly(self, p):
        r = self.ZERO_RF
        for m, c in p.items():
            x = self.rf_const(c)
            for k, e in m:
                x = self.rf_mul(x, self.rf_pow(self.conj_atom(k), e) if not isinstance(e, Fraction) else self.conj_frac(k, e))
            r = self.rf_add(r, x)
        return r

    def conj_frac(self, k, e):
        key = self.atoms[k][0]
        assert key[0] == "exp"
        return self.rf_expo(self.rf_conj(self.rf_mul(self.rf_const(e), key[3])))

    def conj_atom(self, k):
        key, t = self.atoms[k]
        kd = key[0]
        if k == self.I:
            return ({((k, 1),): Fraction(-1)}, {})
        if kd == "exp":
            return self.rf_expo(self.rf_conj(key[3]))
        if kd == "conj":
            return self.rf_atom(key[1])
        if kd == "sum":
            return self.rf(fn("conj", t))
        if kd in ("ind",) or t.sort != "C":
            if kd in ("powi", "powt", "pownum", "powq"):
                if t.sort != "C":
                    return self.rf_atom(k)
            else:
                return self.rf_atom(k)
        if kd == "sqrt" and key[1] == "re":
            return self.rf_atom(k)
        if kd == "powi":
            return self.rf(fn("conj", t)) if fn("conj", t).op != "fn" else self.rf_atom(self.atom(("conj", k), fn("conj", t)))
        r = self.conj_cut(k, key, t)
        if r is not None:
            return r
        return self.rf_atom(self.atom(("conj", k), _mk("fn", ("conj", t), "C")))

    def conj_cut(self, k, key, t):
        """conj f(x) = f(conj x) off the branch cut of f"""
        if key[0] == "sqrt":
            name, x = "sqrt", self.term_of(key[3])
        elif key[0] == "fn" and t.op == "fn" and t.args[0] in ("log", "clog", "cellipk"):
            name, x = t.args[0], t.args[1]
        else:
            return None
        if x.sort != "C" or x.size > 200:
            return None
        re, im = fn("re", x), fn("im", x)
        off = tm.lt(re, num(1, "R")) if name == "cellipk" else tm.lt(num(0, "R"), re)
        if self.cond(tm.or_(tm.ne(im, num(0, "R")), off)) is not True:
            return None
        c = fn("conj", x)
        if c.op == "fn" and c.args[0] == "conj":
            c = self.term_of(self.rf_conj(self.rf(x)))
        return self.rf(fn(name, c))

    def rf_exp(self, a):
        return self.rf_expo(self.rf(a))

    def rf_expo(self, arf):
        """exp of a normal form"""
        r = self.rf_const(1)
        for p, d in self.polydiv(*arf):
            for m, c in p.items():
                r = self.rf_mul(r, self.exp_mono(m, c, d))
        return r

    def polydiv(self, p, d):
        """p/d as quotient + remainder with respect to an integer variable in which a factor of d is linear"""
        if len(d) != 1:
            return [(p, d)]
        (fac, e), = d.items()
        if e != 1:
            return [(p, d)]
        var_ = None
        for m, c in fac:
            if len(m) == 1 and m[0][1] == 1 and self.kind(m[0][0]) == "var" and self.atoms[m[0][0]][1].sort == "I":
                k = m[0][0]
                if all(k not in dict(x) for x, _ in fac if x != m) and (var_ is None or k < var_[0]):
                    var_ = (k, c, m)
        if var_ is None:
            return [(p, d)]
        k, c0, m0 = var_
        rest = {x: c for x, c in fac if x != m0}
        quo, rem = {}, dict(p)
        for _ in range(8):
            top = [(m, c) for m, c in rem.items() if isinstance(dict(m).get(k, 0), int) and dict(m).get(k, 0) >= 1]
            if not top:
                return [(quo, {}), (rem, d)] if quo else [(p, d)]
            for m, c in top:
                dm = dict(m)
                dm[k] -= 1
                s, mm = self._mono(dm)
                t = {mm: c * s / c0}
                quo = self.p_add(quo, t)
                rem = self.p_add({x: y for x, y in rem.items() if x != m}, self.p_mul({mm: -c * s / c0}, rest))
        return [(p, d)]

    def int_mono(self, m):
        return all(self.atoms[k][1].sort == "I" and e > 0 and self.kind(k) in ("var", "app") for k, e in m)

    def exp_mono(self, m, c, d):
        """exp(c * m / d)"""
        if not d:
            dm = dict(m)
            if dm.get(self.I) == 1 and dm.get(self.PI) == 1:
                rest = tuple((k, e) for k, e in m if k not in (self.I, self.PI))
                if rest == ():
                    # exp(i pi c)
                    c = c % 2
                    s = 1
                    if c >= 1:
                        s, c = -1, c - 1
                    if c == 0:
                        return self.rf_const(s)
                    if c == Fraction(1, 2):
                        return ({((self.I, 1),): Fraction(s)}, {})
                    key = ("exp", m, False, ({m: Fraction(1)}, {}))
                    i = self._expatom(key)
                    return ({((i, c),): Fraction(s)}, {})
                if self.int_mono(rest):
                    key = ("exp", m, True, ({m: Fraction(1)}, {}))
                    i = self._expatom(key)
                    s, mm = self._mono({i: c})
                    return ({mm: Fraction(s)}, {})
            if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
                k = m[0][0]
                if self.kind(k) == "fn" and self.atoms[k][0][1] == "log":
                    lt_ = self.atoms[k][1]
                    return self.rf_pow(self.rf(lt_.args[1]), int(c))
        dk = frozenset(d.items())
        key = ("exp", (m, dk) if d else m, False, ({m: Fraction(1)}, dict(d)))
        i = self._expatom(key)
        e = int(c) if c.denominator == 1 else c
        return ({((i, e),): Fraction(1)}, {})

    def _expatom(self, key):
        k2 = (key[0], key[1], key[2])
        i = self.index.get(k2)
        if i is None:
            i = len(self.atoms)
            real_ = all(k != self.I and (self.atoms[k][1].sort != "C") for m in key[3][0] for k, e in m)
            self.atoms.append((key, _mk("const", (f"expatom{i}",), "R" if real_ else "C")))
            self.index[k2] = i
        return i

    def rf_sqrt(self, name, a, t):
        arf = self.rf(a)
        p, d = arf
        if not p:
            return self.ZERO_RF
        real_ = "re" if (name == "sqrt" and (a.sort != "C" or tm.syn_nonneg(a))) else "cx"
        out = self.rf_const(1)
        if not d and len(p) == 1 or True:
            # pull even powers of positive atoms and square rational content out of the root
            keys = None
            for m in p:
                dm = dict(m)
                if keys is None:
                    keys = dict(dm)
                else:
                    keys = {k: min(e, dm.get(k, 0)) for k, e in keys.items()}
                    for k, e in dm.items():
                        if k not in keys and e < 0:
                            keys[k] = e
            # recompute true minima
            keys = {k: min(dict(m).get(k, 0) for m in p) for k in keys}
            pull = {}
            for k, e in keys.items():
                if k == self.I or not isinstance(e, int):
                    continue
                if self.pos_atom(k):
                    h = e // 2
                    if h:
                        pull[k] = h
            cs = [c for c in p.values()]
            import math as _m
            g = Fraction(_m.gcd(*[c.numerator for c in cs]), _m.lcm(*[c.denominator for c in cs]))
            sq = _sqfree(g)
            if pull or sq != 1:
                s, inv = self._mono({k: -2 * e for k, e in pull.items()})
                p = self.p_mul(p, {inv: Fraction(s) / (sq * sq)})
                s2, mm = self._mono(pull)
                out = ({mm: sq * s2}, {})
        arf = (p, d)
        if p == {(): Fraction(1)} and not d:
            return out
        i = self.atom(("sqrt", real_, self.key(arf), arf) if False else ("sqrt", real_, self.key(arf)), t)
        key, tt = self.atoms[i]
        if len(key) == 3:
            self.atoms[i] = (("sqrt", real_, key[2], arf), tt)
        return self.rf_mul(out, self.rf_atom(i))

    def pos_atom(self, k):
        if k == self.PI:
            return True
        key, t = self.atoms[k]
        if key[0] == "exp":
            return t.sort != "C" and not key[2]
        return t.sort != "C" and self.ispos(t)

    # sums --------------------------------------------------------------------
    def rf_sum(self, t):
        j, lo, hi, body = t.args
        v = fresh("s", "I")
        body = subst(body, {j: v})
        return self.sum_over(v, lo, hi, body, t)

    def sum_over(self, v, lo, hi, body, t, depth=0):
        # range splitting on conditions linear in v
        if depth < 6:
            sp = self.split_range(v, lo, hi, body)
            if sp is not None:
                r = self.ZERO_RF
                for l, h, b in sp:
                    r = self.rf_add(r, self.rf_sum_nt(v, l, h, b, depth + 1))
                return r
        # shift to 0
        n = sub(hi, lo)
        if n.op == "num" and numval(n) < 12:
            r = self.ZERO_RF
            for i in range(int(numval(n)) + 1):
                r = self.rf_add(r, self.rf(subst(body, {v: add(lo, num(i))})))
            return r
        if not (lo.op == "num" and numval(lo) == 0):
            body = subst(body, {v: add(v, lo)})
        c = self.cond(lt(n, ZERO))
        if c is True:
            return self.ZERO_RF
        self.bounds[v] = (ZERO, n)
        brf = self.rf(body)
        p, d = brf
        r = self.ZERO_RF
        dv = {k: e for k, e in d.items() if self._dep_poly(dict(k), v)}
        d0 = {k: e for k, e in d.items() if k not in dv}
        nkey = self.key(self.rf(n))
        groups = {}
        for m, c in p.items():
            dep = tuple((k, e) for k, e in m if self._dep(k, v))
            ind = tuple((k, e) for k, e in m if not self._dep(k, v))
            groups.setdefault(dep, []).append((ind, c))
        nn = self.rf(add(n, ONE))
        for dep, lst in groups.items():
            coef = {}
            for ind, c in lst:
                coef[ind] = coef.get(ind, 0) + c
            coef = {k: c for k, c in coef.items() if c}
            if not dep and not dv:
                # empty-range case: n+1 >= 0 is required for sum = n+1
                c0 = self.cond(le(ZERO, add(n, ONE)))
                if c0 is True:
                    r = self.rf_add(r, self.rf_mul((coef, {}), nn))
                    continue
            s = self.sum_atom(v, n, nkey, dep, dv)
            r = self.rf_add(r, self.rf_mul((coef, {}), s))
        if d0:
            r = self.rf_mulden(r, d0)
        return r

    def rf_sum_nt(self, v, l, h, b, depth):
        w = fresh("s", "I")
        return self.sum_over(w, l, h, subst(b, {v: w}), None, depth)

    def _dep(self, k, v):
        key, t = self.atoms[k]
        if key[0] == "exp":
            return any(self._dep(kk, v) for m in key[3][0] for kk, _ in m) or any(self._dep_poly(dict(f), v) for f in key[3][1])
        if key[0] == "conj":
            return self._dep(key[1], v)
        return v in t.fv

    def _dep_poly(self, p, v):
        return any(self._dep(k, v) for m in p for k, _ in m)

    def sum_atom(self, v, n, nkey, dep, dv):
        body = self.term_of(({dep: Fraction(1)}, dv))
        g = self.geometric(v, n, body)
        if g is not None:
            return g
        vs, facs = [(v, n)], []
        try:
            self._flatten(vs, facs, body)
        except TooBig:
            vs, facs = [(v, n)], _facs(body)
        return self.msum(vs, facs)

    def geometric(self, v, n, body):
        """sum_{v=0}^{n} exp(c v + d) = exp(d) (exp(c (n+1)) - 1)/(exp(c) - 1) if c = 2 pi i rho with 0 < |rho| < 1 (so exp(c) != 1)"""
        fs = _facs(body)
        if not fs or not all(f.op == "fn" and f.args[0] == "exp" for f in fs):
            return None
        arg = add(*[f.args[1] for f in fs])
        c = self.term_of(self.rf(sub(subst(arg, {v: add(v, ONE)}), arg)))
        if v in c.fv:
            return None
        rho = self.term_of(self.rf(mul(c, tm.pow_(mul(num(2), tm.PI, tm.IU), num(-1)))))
        if rho.sort == "C":
            return None
        if not (self.cond(and_(lt(ZERO, rho), lt(rho, ONE))) is True or self.cond(and_(lt(rho, ZERO), lt(num(-1), rho))) is True):
            return None
        if self.cond(le(ZERO, add(n, ONE))) is not True:
            return None
        e = lambda x: tm.fn("exp", x)
        return self.rf(mul(e(subst(arg, {v: ZERO})), sub(e(mul(c, add(n, ONE))), ONE), tm.pow_(sub(e(c), ONE), num(-1))))

    def _flatten(self, vs, facs, body):
        """factors of a product of (nested) sums; bound variables are collected in vs"""
        for f in _facs(body):
            rep, g = 1, f
            if f.op == "pow" and f.args[0].op == "sum" and f.args[1].op == "num" and numval(f.args[1]) in (2, 3):
                rep, g = int(numval(f.args[1])), f.args[0]
            if g.op == "sum" and g.args[1].op == "num" and numval(g.args[1]) == 0 and not any(w in g.args[2].fv for w, _ in vs):
                for _ in range(rep):
                    w = fresh("s", "I")
                    vs.append((w, g.args[2]))
                    self.bounds[w] = (ZERO, g.args[2])
                    if len(vs) > 6:
                        raise TooBig
                    self._flatten(vs, facs, subst(g.args[3], {g.args[0]: w}))
            else:
                facs.append(f)

    _rules = 0

    def msum(self, vs, facs):
        """sum over all variables vs (0..n) of the product of facs"""
        if self._rules < 12:     # (an equation need not be oriented towards a normal form)
            for rule in self.sumrules:
                r = rule(self, vs, facs)
                if r is not None:
                    vs2, t = r
                    for w, nw in reversed(vs2):
                        t = tm.sum_(w, ZERO, nw, t)
                    self._rules += 1
                    try:
                        return self.rf(t)
                    finally:
                        self._rules -= 1
        if len(vs) > 1:
            # independent parts
            comp = []
            for w, nw in vs:
                comp.append(([(w, nw)], {w}))
            free = []
            groups = []
            for f in facs:
                dep = [c for c in comp if c[1] & f.fv]
                if not dep:
                    free.append(f)
                elif len(dep) > 1:
                    m = ([x for c in dep for x in c[0]], set().union(*[c[1] for c in dep]))
                    comp = [c for c in comp if c not in dep] + [m]
            if len(comp) > 1 or free:
                r = self.rf_const(1)
                for f in free:
                    r = self.rf_mul(r, self.rf(f))
                for c in comp:
                    r = self.rf_mul(r, self.msum1(c[0], [f for f in facs if c[1] & f.fv]))
                return r
        return self.msum1(vs, facs)

    def msum1(self, vs, facs):
        if not facs:
            r = self.rf_const(1)
            for w, nw in vs:
                r = self.rf_mul(r, self.rf(add(nw, ONE)))
            return r
        body = mul(*facs)
        best = None
        perms = itertools.permutations(vs) if len(vs) <= 4 else [vs]
        for perm in perms:
            t = body
            for w, nw in reversed(perm):
                t = tm._binder("sum", w, ZERO, nw, t, body.sort)
            if best is None or t.id < best.id:
                best = t
        return self.rf_atom(self.atom(("sum", self.key(self.rf(best.args[2])), best.args[3]), best))

    def split_range(self, v, lo, hi, body):
        # residue classes: (k*v + rest)//m with a constant m
        for s in tm.subterms(body):
            if s.op == "fn" and s.args[0] == "fdiv" and s.sort == "I" and v in s.fv and s.args[2].op == "num" and 2 <= numval(s.args[2]) <= 4:
                m = int(numval(s.args[2]))
                lin = linear_in(s.args[1], v)
                if lin is None or any(x.op == "fn" and x.args[0] == "fdiv" for x in tm.subterms(lin[1])):
                    continue
                out = []
                for r in range(m):
                    l, h = tm.fn("fdiv", add(lo, num(m - 1 - r)), num(m)), tm.fn("fdiv", sub(hi, num(r)), num(m))
                    if any(x.op == "fn" and x.args[0] == "fdiv" for y in (l, h) for x in tm.subterms(y)):
                        break
                    out.append((l, h, subst(body, {v: add(mul(num(m), v), num(r))})))
                else:
                    return out
        for s in tm.subterms(body):
            if s.op != "ite":
                continue
            c = s.args[0]
            for a in (c.args if c.op in ("and", "or", "not") else (c,)):
                if a.op == "not":
                    a = a.args[0]
                if a.op not in ("le", "lt", "eq") or v not in a.fv:
                    continue
                if any(x.sort not in ("I",) for x in a.args):
                    continue
                lin = linear_in(sub(a.args[0], a.args[1]), v)
                if lin is None:
                    continue
                k, rest = lin      # k*v + rest (<= | ==) 0
                if abs(k) != 1:
                    continue
                if a.op == "eq":
                    pt = neg(rest) if k == 1 else rest
                    inr = self.cond(and_(le(lo, pt), le(pt, hi)))
                    f = lambda x, a=a: self._assume(body, a, x)
                    if inr is None:
                        o1, o2 = self.cond(lt(pt, lo)), self.cond(lt(hi, pt))
                        if o1 or o2:
                            return [(lo, hi, f(False))]
                        continue
                    if inr is False:
                        return [(lo, hi, f(False))]
                    return [(lo, sub(pt, ONE), f(False)), (pt, pt, f(True)), (add(pt, ONE), hi, f(False))]
                else:
                    strict = a.op == "lt"
                    if k == 1:
                        cut = neg(rest) if not strict else sub(neg(rest), ONE)   # v <= cut true
                        t_, f_ = self._assume(body, a, True), self._assume(body, a, False)
                    else:
                        cut = sub(rest, ONE) if not strict else rest       # v >= rest true ; v <= rest-1 false
                        t_, f_ = self._assume(body, a, False), self._assume(body, a, True)
                    if self.cond(lt(cut, lo)) is True:
                        return [(lo, hi, f_)]
                    if self.cond(le(hi, cut)) is True:
                        return [(lo, hi, t_)]
                    # need lo-1 <= cut <= hi for an exact split
                    if self.cond(and_(le(sub(lo, ONE), cut), le(cut, hi))) is True:
                        return [(lo, cut, t_), (add(cut, ONE), hi, f_)]
        return None

    def _assume(self, body, a, val):
        na = not_(a)

        def f(t):
            if t is a:
                return TRUE if val else FALSE
            if t is na:
                return FALSE if val else TRUE
            return None
        return tm.replace(body, f)

    # ----------------------------------------------------------- back to terms
    def term_of(self, a):
        p, d = a
        t = add(num(0), *[mul(num(c), *[pow_(self.atom_term(k), num(Fraction(e))) if not self._isexp(k) else self._expterm(k, e) for k, e in m]) for m, c in sorted(p.items(), key=lambda x: x[0])])
        for k, e in sorted(d.items(), key=lambda x: sorted(x[0], key=lambda y: y[0])):
            t = mul(t, pow_(self.term_of((dict(k), {})), num(-e)))
        return t

    def _isexp(self, k):
        return self.kind(k) == "exp"

    def _expterm(self, k, e):
        return fn("exp", mul(num(Fraction(e)), self.term_of(self.atoms[k][0][3])))

    def atom_term(self, k):
        if self._isexp(k):
            return self._expterm(k, 1)
        if self.kind(k) == "ind":
            return _mk("ite", (self.atoms[k][1], num(1, "R"), num(0, "R")), "R")
        return self.atoms[k][1]


def _facs(t):
    return list(t.args) if t.op == "mul" else [t]


def _sqfree(g):
    """largest rational s with s^2 | g (small primes only)."""
    def sq(n):
        s = 1
        for pr in (2, 3, 5, 7, 11):
            while n % (pr * pr) == 0:
                n //= pr * pr
                s *= pr
        import math as _m
        r = _m.isqrt(n)
        if r * r == n:
            s *= r
        return s
    return Fraction(sq(g.numerator), sq(g.denominator))


def linear_in(t, v):
    """t = k*v + rest with integer k and v not in rest; or None"""
    if v not in t.fv:
        return 0, t
    if t is v:
        return 1, ZERO
    if t.op == "add":
        k, rest = 0, []
        for a in t.args:
            r = linear_in(a, v)
            if r is None:
                return None
            k += r[0]
            rest.append(r[1])
        return k, add(*rest)
    if t.op == "mul" and t.args[0].op == "num" and len(t.args) == 2 and t.args[1] is v:
        c = numval(t.args[0])
        return (int(c), ZERO) if c.denominator == 1 else None
    if t.op == "toreal":
        return linear_in(t.args[0], v)
    return None
