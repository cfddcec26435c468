"""Discharging obligations: normaliser (equalities) + z3 (conditions, inequalities) + numeric refutation."""
import itertools
import random
import os
import time
from fractions import Fraction
import z3
import mpmath
from mpmath import mpf, mpc
from .term import *
from .term import _mk, BINDERS
from . import term as tm
from .norm import Norm, TooBig, linear_in
from .evalt import Env, ev, EvalError

clock = time.process_time  # CPU time: the outcome must not depend on the load of the machine
SCALE = float(os.environ.get("VERIF_SCALE", "1"))
STATS = {"z3_time": 0.0, "z3_calls": 0, "norm_time": 0.0, "norm_calls": 0, "refute_time": 0.0}


class Z:
    """Translation of terms to z3 (reals/ints; complex terms become pairs)."""

    def __init__(self):
        self.cache = {}
        self.defs = []
        self.cnt = 0
        self.atoms = {}
        self.exps = []

    def fresh(self, sort):
        self.cnt += 1
        return z3.Int(f"zi{self.cnt}") if sort == "I" else z3.Real(f"zr{self.cnt}")

    def r(self, t):
        """real/int z3 expression of a non-complex term"""
        a, b = self.c(t)
        return a

    def c(self, t):
        k = self.cache.get(t)
        if k is None:
            k = self._c(t)
            self.cache[t] = k
        return k

    @staticmethod
    def _mulc(x, y):
        (a, b), (c, d) = x, y
        if b is None and d is None:
            return a * c, None
        if b is None:
            return a * c, a * d
        if d is None:
            return a * c, b * c
        return a * c - b * d, a * d + b * c

    def opaque(self, t):
        if t.sort == "C":
            return self.fresh("R"), self.fresh("R")
        return self.fresh(t.sort), None

    def _c(self, t):
        op = t.op
        if op == "num":
            v = numval(t)
            if t.sort == "I":
                return z3.IntVal(int(v)) if v.denominator == 1 else z3.RealVal(v), None
            return z3.RealVal(str(v)), None
        if op == "const":
            n = t.args[0]
            if n == "I":
                return z3.RealVal(0), z3.RealVal(1)
            x = self.fresh("R")
            if n == "pi":
                self.defs.append(z3.And(x > z3.RealVal("3.14159265"), x < z3.RealVal("3.14159266")))
            return x, None
        if op == "var":
            if t.sort == "C":
                return z3.Real(t.args[0] + ".re"), z3.Real(t.args[0] + ".im")
            return (z3.Int(t.args[0]) if t.sort == "I" else z3.Real(t.args[0])), None
        if op == "app":
            args = t.args[1:]
            if all(a.sort == "I" for a in args):
                zs = [self.r(a) for a in args]
                ran = z3.IntSort() if t.sort == "I" else z3.RealSort()
                if t.sort == "B":
                    ran = z3.BoolSort()
                f = z3.Function(t.args[0], *([z3.IntSort()] * len(zs)), ran) if zs else None
                if t.sort == "C":
                    g = z3.Function(t.args[0] + ".im", *([z3.IntSort()] * len(zs)), ran) if zs else None
                    return (f(*zs), g(*zs)) if zs else (z3.Real(t.args[0]), z3.Real(t.args[0] + ".im"))
                if not zs:
                    return (z3.Int(t.args[0]) if t.sort == "I" else z3.Real(t.args[0]) if t.sort == "R" else z3.Bool(t.args[0])), None
                return f(*zs), None
            return self.opaque(t)
        if op == "toreal":
            a = self.r(t.args[0])
            return (z3.ToReal(a) if a.sort() == z3.IntSort() else a), None
        if op == "add":
            re, im = None, None
            for a in t.args:
                x, y = self.c(a)
                re = x if re is None else re + x
                if y is not None:
                    im = y if im is None else im + y
            return re, im
        if op == "mul":
            acc = None
            for a in t.args:
                x = self.c(a)
                acc = x if acc is None else self._mulc(acc, x)
            return acc
        if op == "pow":
            b, e = t.args
            if e.op == "num" and numval(e).denominator == 1 and abs(numval(e)) <= 8:
                n = int(numval(e))
                x = self.c(b)
                acc = x
                for _ in range(abs(n) - 1):
                    acc = self._mulc(acc, x)
                if n > 0:
                    return acc
                if acc[1] is None:
                    q = self.fresh("R")
                    a0 = acc[0]
                    if a0.sort() == z3.IntSort():
                        a0 = z3.ToReal(a0)
                    self.defs.append(z3.Implies(a0 != 0, q * a0 == 1))
                    return q, None
                q, s = self.fresh("R"), self.fresh("R")
                pr = self._mulc((q, s), acc)
                self.defs.append(z3.Implies(z3.Or(acc[0] != 0, acc[1] != 0), z3.And(pr[0] == 1, pr[1] == 0)))
                return q, s
            return self.opaque(t)
        if op == "ite":
            c = self.b(t.args[0])
            (a, b), (x, y) = self.c(t.args[1]), self.c(t.args[2])
            if a.sort() != x.sort():
                a = z3.ToReal(a) if a.sort() == z3.IntSort() else a
                x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
            if b is None and y is None:
                return z3.If(c, a, x), None
            return z3.If(c, a, x), z3.If(c, b if b is not None else z3.RealVal(0), y if y is not None else z3.RealVal(0))
        if op == "fn":
            return self._fn(t)
        if op in ("amax", "amin", "sum", "prod"):
            return self.opaque(t)
        raise KeyError(op)

    def _fn(self, t):
        n = t.args[0]
        a = t.args[1]
        if n in ("re", "im", "conj"):
            x, y = self.c(a)
            if y is None:
                y = z3.RealVal(0)
            if n == "re":
                return x, None
            if n == "im":
                return y, None
            return x, -y
        if n == "fdiv" and t.sort == "I":
            x, y = self.r(a), self.r(t.args[2])
            if t.args[2].op == "num" and numval(t.args[2]) > 0:
                return x / y, None
        r = self.opaque(t)
        if n == "exp" and t.sort == "R":
            e = r[0]
            z = self.r(a)
            z = z3.ToReal(z) if z.sort() == z3.IntSort() else z
            self.defs += [e > 0, (e < 1) == (z < 0), (e == 1) == (z == 0), e >= z + 1]
            for (z2, e2) in self.exps[:12]:
                self.defs += [(e < e2) == (z < z2), (e == e2) == (z == z2)]
                self.defs.append(z3.Implies(z == -z2, e * e2 == 1))
            self.exps.append((z, e))
        elif n == "sqrt" and a.sort != "C":
            s, z = r[0], self.r(a)
            z = z3.ToReal(z) if z.sort() == z3.IntSort() else z
            self.defs += [s >= 0, z3.Implies(z >= 0, s * s == z)]
        elif n in ("sqrt", "csqrt"):
            s = r
            z = self.c(a)
            z = (z[0], z[1] if z[1] is not None else z3.RealVal(0))
            m = self._mulc(s, s)
            self.defs += [s[0] >= 0, m[0] == z[0], m[1] == z[1], z3.Implies(s[0] == 0, s[1] >= 0)]
        elif n == "abs":
            x, y = self.c(a)
            if y is not None:
                self.defs += [r[0] >= 0, r[0] * r[0] == x * x + y * y]
        elif n in ("floor",):
            z = self.r(a)
            self.defs += [z3.ToReal(r[0]) <= z, z < z3.ToReal(r[0]) + 1]
        elif n == "trunc":
            z = self.r(a)
            zr = z3.ToReal(r[0])
            self.defs += [z3.Implies(z >= 0, z3.And(zr <= z, z < zr + 1)), z3.Implies(z < 0, z3.And(zr >= z, z > zr - 1))]
        elif n == "ellipk" and t.sort == "R":
            z = self.r(a)
            self.defs += [z3.Implies(z < 1, r[0] > 0), z3.Implies(z3.And(z >= 0, z < 1), r[0] >= z3.RealVal("1.5707"))]
        elif n == "log" and t.sort == "R":
            z = self.r(a)
            self.defs += [z3.Implies(z > 0, z3.And((r[0] < 0) == (z < 1), (r[0] == 0) == (z == 1)))]
        return r

    def b(self, t):
        op = t.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "not":
            return z3.Not(self.b(t.args[0]))
        if op == "and":
            return z3.And(*[self.b(a) for a in t.args])
        if op == "or":
            return z3.Or(*[self.b(a) for a in t.args])
        if op in ("le", "lt"):
            x, y = self.r(t.args[0]), self.r(t.args[1])
            return x <= y if op == "le" else x < y
        if op == "eq":
            (a, b), (x, y) = self.c(t.args[0]), self.c(t.args[1])
            if b is None and y is None:
                return a == x
            b = z3.RealVal(0) if b is None else b
            y = z3.RealVal(0) if y is None else y
            return z3.And(a == x, b == y)
        if op in ("forall", "exists"):
            j, lo, hi, body = t.args
            f = fresh("q", "I")
            zj = z3.Int(f.args[0])
            n0 = len(self.defs)
            zb = self.b(subst(body, {j: f}))
            # definitional constraints that mention the bound variable must stay inside
            inner = self.defs[n0:]
            del self.defs[n0:]
            rng = z3.And(self.r(lo) <= zj, zj <= self.r(hi))
            if inner:
                # opaque pieces depending on zj: give up on precision
                self.cnt += 1
                return z3.Bool(f"zb{self.cnt}")
            if op == "forall":
                return z3.ForAll([zj], z3.Implies(rng, zb))
            return z3.Exists([zj], z3.And(rng, zb))
        if op == "var":
            return z3.Bool(t.args[0])
        if op == "app":
            return self.c(t)[0]
        if op == "fn":
            self.cnt += 1
            r = self.cache.get(t)
            if r is None:
                r = (z3.Bool(f"zb{self.cnt}"), None)
                self.cache[t] = r
            return r[0]
        raise KeyError(op)


class Ctx:
    """Facts in force at a program point plus the interpretation of uninterpreted names."""

    def __init__(self, world):
        self.world = world
        self.facts = []
        self._z = None
        self._cond = {}
        self._norm = None
        self._signs = None

    def copy(self):
        c = Ctx(self.world)
        c.facts = list(self.facts)
        c._cond = {k: v for k, v in self._cond.items() if v is not None}   # decided conditions stay decided
        return c

    def assume(self, f):
        if f.op == "and":
            for a in f.args:
                self.assume(a)
            return
        if f is TRUE:
            return
        if f.op == "exists":
            j, lo, hi, body = f.args
            v = fresh("sk", "I")
            self.assume(le(lo, v))
            self.assume(le(v, hi))
            self.assume(subst(body, {j: v}))
            return
        self.facts.append(f)
        self._z = None
        self._cond = {k: v for k, v in self._cond.items() if v is not None}
        self._norm = None
        self._signs = None

    # ------------------------------------------------------------------ z3
    def _instances(self, goal, nested=False):
        """element facts of the uninterpreted arrays and instances of forall-facts."""
        out = []
        seen = set()
        todo = [goal, *self.facts]
        idx = set()
        for t in todo:
            for s in tm.subterms(t):
                if s.op == "app" and s not in seen:
                    seen.add(s)
                    if any(v.args[0][0] == "@" for v in s.fv):
                        continue
                    for g in self.world.elem_facts.get(s.args[0], ()):
                        f = g(*s.args[1:])
                        if f is not None and f is not TRUE:
                            out.append(f)
                    for a in s.args[1:]:
                        if a.sort == "I" and len(idx) < 12:
                            idx.add(a)

        def inst(f, guard):
            j, lo, hi, body = f.args
            for a in idx:
                g, b = and_(guard, and_(le(lo, a), le(a, hi))), subst(body, {j: a})
                if nested and b.op == "forall" and len(idx) <= 4:
                    inst(b, g)
                else:
                    out.append(implies(g, b))
        for f in self.facts:
            if f.op == "forall":
                inst(f, TRUE)
        return out

    def entails(self, goal, timeout=2000):
        if goal is TRUE or goal in self.facts:
            return True
        if FALSE in self.facts:
            return True
        quant = [f for f in self.facts if f.op in ("forall", "exists")]
        if quant and self._entails(goal, timeout, [f for f in self.facts if f.op not in ("forall", "exists")]):
            return True
        if timeout < 1000 and len(quant) > 1:    # quick questions: instances of the quantified facts only
            return False
        return self._entails(goal, timeout, self.facts)

    def _entails(self, goal, timeout, facts):
        t0 = clock()
        try:
            z = Z()
            s = z3.Solver()
            s.set("timeout", int(timeout * SCALE))
            inst = self._instances(goal, timeout >= 1000)
            for f in facts + inst + list(self.world.global_facts):
                try:
                    s.add(z.b(f))
                except (KeyError, z3.Z3Exception):
                    continue
            try:
                s.add(z3.Not(z.b(goal)))
            except (KeyError, z3.Z3Exception):
                return False
            for d in z.defs:
                s.add(d)
            r = s.check()
            return r == z3.unsat
        except z3.Z3Exception:
            return False
        finally:
            STATS["z3_time"] += clock() - t0
            STATS["z3_calls"] += 1

    def cond(self, c):
        """decide a condition: True/False/None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        r = self._cond.get(c, 0)
        if r != 0:
            return r
        r = None
        if not any(v.args[0][0] in "@" for v in c.fv):
            r = self._quick(c)
            if r is not None:
                pass
            elif c.size > 60 and self._hopeless(c):
                r = None
            elif self.entails(c, 400):
                r = True
            elif self.entails(not_(c), 400):
                r = False
        self._cond[c] = r
        return r

    @staticmethod
    def _hopeless(c):
        """conditions z3 cannot decide: open alternatives inside (split first), nested complex roots, elliptic integrals"""
        roots = 0
        for x in tm.subterms(c):
            if x.op == "ite":
                return True
            if x.op == "fn":
                if x.args[0] == "cellipk":
                    return True
                if x.args[0] in ("sqrt", "csqrt") and x.sort == "C":
                    roots += 1
        return roots > 1

    # sign of a polynomial up to positive factors, against the signs known from the path condition
    def _signkey(self, t):
        N = self.norm()
        try:
            p, d = N.rf(t)
        except (TooBig, ZeroDivisionError, RecursionError):
            return None
        if not p:
            return None
        for f in d:
            if not all(c > 0 and all(N.pos_atom(k) for k, _ in m) for m, c in f):
                return None
        lead, mono, fac = N.p_content(p)
        if not all(N.pos_atom(k) for k, _ in mono):
            return (1 if lead > 0 else -1), (mono, fac)
        return (1 if lead > 0 else -1), ((), fac)

    def _quick(self, c):
        """decide a comparison that is (up to positive factors) one of the facts"""
        neg = False
        if c.op == "not":
            c, neg = c.args[0], True
        if c.op not in ("lt", "le", "eq") or c.size > 4000 or c.args[0].sort not in "IRC" or c.args[0].sort == "B":
            return None
        if self._signs is None:
            if self._busy:
                return None
            self._busy = True
            self._signs = {}
            try:
                for f in self.facts:
                    g, ng = (f.args[0], True) if f.op == "not" else (f, False)
                    if g.op not in ("lt", "le", "eq") or g.args[0].sort == "B" or (g.op == "eq" and not ng) or g.size > 4000:
                        continue
                    k = self._signkey(sub(g.args[0], g.args[1]))
                    if k is None:
                        continue
                    s, key = k
                    # allowed signs of key
                    al = {"lt": {-1}, "le": {-1, 0}, "eq": {0}}[g.op]
                    if ng:
                        al = {-1, 0, 1} - al
                    al = {a * s for a in al}
                    self._signs[key] = self._signs.get(key, {-1, 0, 1}) & al
            finally:
                self._busy = False
        if not self._signs:
            return None
        if self._busy:
            return None
        self._busy = True
        try:
            k = self._signkey(sub(c.args[0], c.args[1]))
        finally:
            self._busy = False
        if k is None:
            return None
        s, key = k
        al = self._signs.get(key)
        if al is None:
            return None
        al = {a * s for a in al}
        want = {"lt": {-1}, "le": {-1, 0}, "eq": {0}}[c.op]
        r = True if al <= want else (False if not (al & want) else None)
        return (not r) if (neg and r is not None) else r

    _busy = False

    def ispos(self, t):
        if t.op in ("var", "app"):
            nm = t.args[0]
            if nm in self.world.positive:
                return True
        if t.op == "fn" and t.args[0] == "sqrt" and t.sort == "R":
            return True
        return False

    def norm(self, opaque=False):
        if self._norm is None:
            self._norm = {}
        if opaque not in self._norm:
            self._norm[opaque] = Norm(cond=self.cond, positive=self.ispos, sumrules=self.world.sumrules, opaque=opaque)
        self._norm[opaque].budget = 400000
        return self._norm[opaque]

    # -------------------------------------------------------------- equality
    def eq_subst(self, t):
        """use equalities x = e of the path condition as rewrites"""
        m = {}
        for f in self.facts:
            if f.op == "eq":
                d = sub(f.args[0], f.args[1])
                for v in sorted(d.fv, key=lambda v: v.id):
                    if v in m or v.args[0][0] == "@":
                        continue
                    lin = lin_solve(d, v)
                    if lin is not None and not (lin.fv & set(m)):
                        m[v] = lin
                        break
                else:
                    for it in (d.args if d.op == "add" else (d,)):
                        c, v = tm._lin(it)
                        if v is None or v.op != "app" or v in m or any(x.args[0][0] == "@" for x in v.fv):
                            continue
                        lin = lin_solve(d, v)
                        if lin is not None and not any(x in m for x in tm.subterms(lin)):
                            m[v] = lin
                            break
        return m

    def zero(self, t, deadline):
        """prove t == 0"""
        m = self.eq_subst(t)
        if m:
            t = subst(t, {v: e for v, e in m.items() if v.op == "var"})
            ap = {v: e for v, e in m.items() if v.op == "app"}
            if ap:
                t = tm.replace(t, lambda n: ap.get(n))
        if t.op == "num":
            return numval(t) == 0
        t0 = clock()
        STATS["norm_calls"] += 1
        try:
            if self.world.eqfacts and any(x.op == "fn" and x.args[0] in ("re", "im") for x in tm.subterms(t)):
                try:
                    if not self.norm(True).rf(t)[0]:
                        return True
                except (TooBig, ZeroDivisionError, RecursionError):
                    pass
            N = self.norm()
            try:
                r = N.rf(t)
                if not r[0]:
                    return True
                if self._congruence(N, t, r, deadline):
                    return True
                if self._mergesums(N, r, deadline):
                    return True
                if self._shiftsums(N, r, deadline):
                    return True
            except (TooBig, ZeroDivisionError, RecursionError):
                pass
        finally:
            STATS["norm_time"] += clock() - t0
        return False

    def _congruence(self, N, t, r, deadline):
        """merge function / sum atoms with equal arguments, then renormalise"""
        for _ in range(3):
            if clock() > deadline:
                return False
            ids = {k for m in r[0] for k, _ in m}
            # include atoms hidden in exp arguments
            merged = False
            lst = sorted(ids)
            for x in range(len(lst)):
                for y in range(x + 1, len(lst)):
                    a, b = lst[x], lst[y]
                    if a in N.alias or b in N.alias:
                        continue
                    ka, kb = N.atoms[a], N.atoms[b]
                    rel = self._same_atom(N, ka, kb)
                    if rel is not None:
                        N.alias[b] = rel(a)
                        merged = True
            if not merged:
                return False
            # rewrite numerator
            acc = N.ZERO_RF
            for m, c in r[0].items():
                x = N.rf_const(c)
                for k, e in m:
                    if isinstance(e, Fraction) and e.denominator != 1:
                        x = N.rf_mul(x, ({((k, e),): Fraction(1)}, {}))
                    else:
                        x = N.rf_mul(x, N.rf_atom(k, e))
                acc = N.rf_add(acc, x)
            r = acc
            if not r[0]:
                return True
        return False

    def _mergesums(self, N, r, deadline):
        """a_1 sum_j f_1 + a_2 sum_j f_2 + ... as one sum over j, simplified under the sum"""
        groups = {}
        for m, c in r[0].items():
            ss = [k for k, e in m if N.kind(k) == "sum" and e == 1]
            for k in ss[:2]:
                groups.setdefault(N.atoms[k][0][1], {}).setdefault(k, None)
        for key, atoms in groups.items():
            if len(atoms) < 2 or len(atoms) > 12 or clock() > deadline:
                continue
            rest, parts = {}, []
            v = tm.fresh("s", "I")
            hi = None
            for m, c in r[0].items():
                ss = [k for k, e in m if k in atoms and e == 1]
                if not ss:
                    rest[m] = c
                    continue
                a = N.atom_term(ss[0])
                hi = a.args[2] if hi is None else hi
                body = subst(a.args[3], {a.args[0]: v})
                parts.append(tm.mul(N.term_of(({tuple(x for x in m if x[0] != ss[0]): c}, {})), body))
            t = tm.add(tm.sum_(v, tm.ZERO, hi, tm.add(*parts)), N.term_of((rest, {})))
            r2 = N.rf(t)
            if not r2[0]:
                return True
            if len(r2[0]) < len(r[0]) and self._mergesums(N, r2, deadline):
                return True
        return False

    def _shiftsums(self, N, r, deadline, depth=0):
        """sums over ranges of nearly the same length, e.g. sum_j a[j] b[j+1] and sum_j a[j-1] b[j]: common index origin (lowest offset of the
        arrays) and common range, the terms at the ends are split off"""
        atoms = sorted({k for m in r[0] for k, e in m if N.kind(k) == "sum" and e == 1})
        if len(atoms) < 2 or len(atoms) > 40 or clock() > deadline:
            return False
        groups = []
        H = tm.fresh("H", "I")
        for k in atoms:
            a = N.atom_term(k)
            if a.op != "sum" or a.args[1] is not ZERO:
                continue
            j, _, hi, body = a.args
            offs = set()
            for x in tm.subterms(body):
                if x.op == "app":
                    for ix in x.args[1:]:
                        if isinstance(ix, T) and j in ix.fv:
                            d = sub(ix, j)
                            if d.op == "num":
                                offs.add(int(numval(d)))
            c0 = min(offs) if offs else 0
            v = tm.fresh("s", "I")
            key = frozenset(q for m in N.rf(tm.sum_(v, ZERO, H, subst(body, {j: sub(v, num(c0))})))[0] for q, _ in m if N.kind(q) == "sum")
            for key2, g in groups:
                d = sub(hi, g[0][2])
                if d.op == "num" and abs(numval(d)) <= 4 and key == key2:
                    g.append((k, a, hi, c0))
                    break
            else:
                groups.append((key, [(k, a, hi, c0)]))
        repl = {}
        for _, g in groups:
            h0 = g[0][2]
            rng = [(c0, int(numval(sub(hi, h0))) + c0) for _, _, hi, c0 in g]
            lo, hi = max(x for x, _ in rng), min(y for _, y in rng)
            if all(x == (lo, hi) for x in rng) or max(lo - min(x for x, _ in rng), max(y for _, y in rng) - hi) > 4:
                continue
            top = add(h0, num(hi))
            if not self.entails(le(num(lo), add(top, ONE)), 300):
                # short ranges one by one
                qs = range(-1, lo - hi - 1)
                if depth > 1 or len(qs) > 4 or not self.entails(or_(le(num(lo), add(top, ONE)), *[eq(h0, num(q)) for q in qs]), 500):
                    continue
                ok = True
                for q in qs:
                    x = self.copy()
                    x.assume(eq(h0, num(q)))
                    if not x.entails(FALSE, 300) and not x.zero(N.term_of((r[0], {})), deadline):
                        ok = False
                        break
                if not ok:
                    continue
            for (k, a, _, c0), (l, h) in zip(g, rng):
                j, body = a.args[0], a.args[3]
                at = lambda q: subst(body, {j: sub(q, num(c0))})
                v = tm.fresh("s", "I")
                repl[k] = add(tm.sum_(v, num(lo), top, at(v)), *[at(num(q)) for q in range(l, lo)],
                              *[at(add(h0, num(q))) for q in range(hi + 1, h + 1)])
        if not repl:
            return False
        parts = []
        for m, c in r[0].items():
            rest = tuple(x for x in m if not (x[0] in repl and x[1] == 1))
            parts.append(tm.mul(N.term_of(({rest: c}, {})), *[repl[k] for k, e in m if k in repl and e == 1]))
        r2 = N.rf(self._resolve(add(*parts)))
        return not r2[0] or self._congruence(N, None, r2, deadline) or self._mergesums(N, r2, deadline)

    def _same_atom(self, N, A, B):
        (ka, ta), (kb, tb) = A, B
        if ka[0] != kb[0]:
            return None
        if ka[0] in ("fn",) and ka[1] == kb[1] and ta.op == "fn" and len(ta.args) == len(tb.args):
            for x, y in zip(ta.args[1:], tb.args[1:]):
                if not isinstance(x, T) or x.sort == "B":
                    return None
                if N.rf(sub(x, y))[0]:
                    return None
            return lambda a: N.rf_atom(a)
        if ka[0] == "sqrt" and ka[1] == kb[1]:
            if not N.rf_add(ka[3], N.rf_neg(kb[3]))[0]:
                return lambda a: N.rf_atom(a)
        if ka[0] == "app" and ka[1] == kb[1] and len(ta.args) == len(tb.args):
            if all(isinstance(x, T) and (not N.rf(sub(x, y))[0] or (x.sort == "I" and not any(v.args[0][0] == "@" for v in x.fv | y.fv)
                                                                    and self.entails(eq(x, y), 300))) for x, y in zip(ta.args[1:], tb.args[1:])):
                return lambda a: N.rf_atom(a)
        if ka[0] == "sum":
            na, nb = ta.args[2], tb.args[2]
            if N.rf(sub(na, nb))[0]:
                return None
            f = fresh("s", "I")
            xa = subst(ta.args[3], {ta.args[0]: f})
            for yb in (subst(tb.args[3], {tb.args[0]: f}), subst(tb.args[3], {tb.args[0]: sub(nb, f)})):
                c = self.copy()
                c.assume(le(ZERO, f))
                c.assume(le(f, na))
                N2 = Norm(cond=c.cond, positive=self.ispos, sumrules=self.world.sumrules)
                try:
                    if not N2.rf(sub(xa, yb))[0]:
                        return lambda a: N.rf_atom(a)
                except (TooBig, ZeroDivisionError):
                    return None
        return None

    # ------------------------------------------------------------ top level
    def prove(self, goal, deadline=None, depth=0):
        deadline = deadline or clock() + 20
        if goal is TRUE:
            return True
        if goal is FALSE:
            if self.entails(FALSE, 2000):
                return True
            for f in self.facts:
                if depth < 4 and f.op == "or" and any(a.op in ("exists", "forall") for a in f.args):
                    ok = True
                    for a in f.args:
                        c = self.copy()
                        c.facts.remove(f)
                        c.assume(a)
                        if not c.prove(FALSE, deadline, depth + 1):
                            ok = False
                            break
                    if ok:
                        return True
            return False
        if clock() > deadline:
            return False
        if goal.op == "and":
            return all(self.prove(a, deadline, depth) for a in goal.args)
        if goal.op == "forall":
            j, lo, hi, body = goal.args
            v = fresh("k", "I")
            c = self.copy()
            c.assume(le(lo, v))
            c.assume(le(v, hi))
            return c.prove(subst(body, {j: v}), deadline, depth)
        if goal.op in ("or", "le", "lt") and depth < 2 and any(x.op == "ite" or x.op == "fn" and x.args[0] == "fdiv" for x in tm.subterms(goal)):
            g = self._resolve(goal)
            if g is not goal:
                return self.prove(g, deadline, depth + 1)
        if goal.op == "or":
            if self.entails(goal, 2000):
                return True
            # assume the negations of all but one
            for i, a in enumerate(goal.args):
                c = self.copy()
                for k, b in enumerate(goal.args):
                    if k != i:
                        c.assume(not_(b))
                if a.op in ("eq", "forall", "and", "le", "lt") and c.prove(a, deadline, depth + 1):
                    return True
            return False
        if goal.op == "eq":
            return self.prove_eq(goal.args[0], goal.args[1], deadline, depth)
        if self.entails(goal, 3000):
            return True
        if goal.op in ("le", "lt"):
            g2 = self._simp_ineq(goal)
            if g2 is not None and g2 is not goal and self.entails(g2, 3000):
                return True
            c = self._pick_split(goal)
            if c is not None and depth < 11:
                return self._split(goal, c, deadline, depth)
        return False

    def _simp_ineq(self, goal):
        try:
            N = self.norm()
            r = N.rf(sub(goal.args[0], goal.args[1]))
            t = N.term_of(r)
            if any(x.op == "const" and str(x.args[0]).startswith("expatom") for x in tm.subterms(t)):
                return None
            return (le if goal.op == "le" else lt)(t, num(0, "R"))
        except (TooBig, ZeroDivisionError):
            return None

    def _pick_split(self, t):
        """an undecided ite condition outside binders"""
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "ite" and not any(v.args[0][0] == "@" for v in x.args[0].fv):
                if self.cond(x.args[0]) is None:
                    # innermost first
                    inner = self._pick_split(x.args[0])
                    if inner is not None:
                        return inner
                    c = x.args[0]
                    if c.op in ("and", "or"):
                        return c.args[0]
                    if c.op == "not":
                        return c.args[0]
                    return c
            stack.extend(a for a in x.args if isinstance(a, T))
        return None

    def _split(self, goal, c, deadline, depth):
        for val in (c, not_(c)):
            x = self.copy()
            x.assume(val)
            if x.entails(FALSE, 500):
                continue
            g = tm.replace(goal, lambda t: (TRUE if val is c else FALSE) if t is c else ((FALSE if val is c else TRUE) if t is not_(c) else None))
            if not x.prove(g, deadline, depth + 1):
                return False
        return True

    def prove_eq(self, a, b, deadline, depth=0):
        if a is b:
            return True
        if clock() > deadline:
            return False
        if tm.NAN in tm.subterms(a) and tm.NAN in tm.subterms(b):
            # uninitialised entries: compare case by case, nan against nan
            a, b = self._resolve(a), self._resolve(b)
            if a is b:
                return True
            c = self._pick_split(a) or self._pick_split(b)
            for val in (c, not_(c)) if c is not None and depth < 11 else ():
                x = self.copy()
                x.assume(val)
                if x.entails(FALSE, 500):
                    continue
                y, n = (TRUE, FALSE) if val is c else (FALSE, TRUE)
                f = lambda t: y if t is c else (n if t is not_(c) else None)
                if not x.prove_eq(tm.replace(a, f), tm.replace(b, f), deadline, depth + 1):
                    return False
            if c is not None or a is tm.NAN or b is tm.NAN:
                return c is not None and depth < 11
        t = sub(a, b)
        t = self._resolve(t)
        if self.zero(t, deadline):
            return True
        if a.sort != "C" and b.sort != "C" and t.size < 60 and self.entails(eq(t, ZERO), 1500):
            return True
        if depth < 11 and self._pointwise(t, deadline, depth):
            return True
        if depth < 3 and self.world.eqfacts and not self._nofact and self._byfact(t, deadline, depth):
            return True
        if depth < 11:
            c = self._pick_split(t)
            if c is not None:
                return self._split(_mk("eq", (t, ZERO), "B"), c, deadline, depth)
        if FALSE in self.facts or self.entails(FALSE, 500):
            return True
        return False

    _nofact = False

    def _byfact(self, t, deadline, depth):
        """t = 0 because it agrees, summand by summand, with an instance of an equation guaranteed by an external function"""
        apps = {}
        for x in tm.subterms(t):
            if x.op == "app":
                apps.setdefault(x.args[0], set()).add(x)
        free = sorted((v for v in t.fv if v.sort == "I" and v.args[0].startswith("i!")), key=lambda v: v.id)
        tries = 0
        for ufname, sh, f, product in self.world.eqfacts:
            if product is not None or ufname not in apps:
                continue
            bound = {s.args[0] for s in tm.subterms(t) if s.op == "sum"}
            cand = []
            for a in sorted(apps[ufname], key=lambda a: a.id):
                for x in a.args[1:]:
                    if not (x.fv & bound) and x not in cand:
                        cand.append(x)
            cand += [v for v in free if v not in cand]
            for idx in itertools.product(cand, repeat=len(sh)):
                tries += 1
                if tries > 24 or clock() > deadline:
                    return False
                if not all(self.entails(and_(le(ZERO, i), lt(i, d)), 300) for i, d in zip(idx, sh)):
                    continue
                inst = self._resolve(f(*idx))
                if not set(apps) <= {x.args[0] for x in tm.subterms(inst) if x.op == "app"}:
                    continue
                for e in ((inst, tm.fn("conj", inst)) if inst.sort == "C" else (inst,)):
                    for s in (ONE, num(-1)):
                        d = self._resolve(sub(t, mul(s, e)))
                        c = self.copy()
                        c._nofact = True
                        if c._pointwise(d, min(deadline, clock() + 4), depth + 6):
                            return True
        return False

    def _pointwise(self, t, deadline, depth):
        """sum_j f(j) - sum_j g(j) = 0 follows from f(j) = g(j) for every j in range"""
        items = t.args if t.op == "add" else (t,)
        groups, rest = {}, []
        for it in items:
            fs = list(it.args) if it.op == "mul" else [it]
            ss = [f for f in fs if f.op == "sum"]
            if not ss:
                rest.append(it)
                continue
            sm = ss[0]
            fs.remove(sm)
            coeff = mul(*fs) if fs else ONE
            groups.setdefault((sm.args[1], sm.args[2]), []).append((coeff, sm))
        if not groups:
            return False
        if len(groups) > 1:
            # sums that differ by the last term
            for (lo, hi), (lo2, hi2) in itertools.permutations(list(groups), 2):
                if (lo, hi) in groups and (lo2, hi2) in groups and lo is lo2 and sub(hi, hi2) is ONE and self.entails(le(lo, hi), 300):
                    for c, sm in groups.pop((lo, hi)):
                        rest.append(self._resolve(mul(c, subst(sm.args[3], {sm.args[0]: hi}))))
                        groups[lo2, hi2].append((c, tm._mk("sum", (sm.args[0], lo, hi2, sm.args[3]), sm.sort)))
            if rest and self._nofact and not self.copy().prove_eq(add(*rest), ZERO, deadline, depth + 1):
                return False
            rest = [] if self._nofact else rest
        if rest and not self.zero(add(*rest), deadline):
            return False
        for (lo, hi), g in groups.items():
            v = fresh("j", "I")
            body = add(*[mul(c, subst(sm.args[3], {sm.args[0]: v})) for c, sm in g])
            x = self.copy()
            x.assume(le(lo, v))
            x.assume(le(v, hi))
            if not x.prove_eq(body, ZERO, deadline, depth + 1):
                return False
        return True

    def _resolve(self, t):
        def f(n):
            if n.op == "ite":
                c = self.cond(n.args[0])
                if c is True:
                    return n.args[1]
                if c is False:
                    return n.args[2]
            return None
        if any(s.op == "fn" and s.args[0] == "fdiv" for s in tm.subterms(t)):
            t = tm.replace(t, self._fdiv)
        if any(s.op == "ite" for s in tm.subterms(t)):
            return tm.replace(t, f)
        return t

    def _fdiv(self, n):
        """(m*q + r) // m = q for 0 <= r < m (index arithmetic of reshape)"""
        if n.op != "fn" or n.args[0] != "fdiv" or n.sort != "I":
            return None
        if any(v.args[0][0] == "@" for v in n.fv):
            return None
        if n.args[2].op == "num":
            return ZERO if numval(n.args[2]) > 0 and self.entails(and_(le(ZERO, n.args[1]), lt(n.args[1], n.args[2])), 300) else None
        m = n.args[2]
        ms = sorted(m.args, key=lambda x: x.id) if m.op == "mul" else [m]
        q, r = [], []
        for it in (n.args[1].args if n.args[1].op == "add" else (n.args[1],)):
            fs = list(it.args) if it.op == "mul" else [it]
            try:
                for x in ms:
                    fs.remove(x)
                q.append(mul(*fs) if fs else ONE)
            except ValueError:
                r.append(it)
        if not q:
            return None
        rest = add(*r) if r else ZERO
        if self.entails(and_(le(ZERO, rest), lt(rest, m)), 1000):
            return add(*q)
        return None


def generalise(ctx, goal):
    """a stronger goal: the values Re/Im exp(..) (Chebyshev nodes and the like) become arbitrary numbers, one per index"""
    names = {}
    hole = var("hole!", "I")

    def f(t):
        if t.op != "fn" or t.args[0] not in ("re", "im") or not (isinstance(t.args[1], T) and t.args[1].op == "fn" and t.args[1].args[0] == "exp"):
            return None
        idx = [v for v in t.fv if v.sort == "I" and "!" in v.args[0]]
        if len(idx) > 1:
            return None
        key = subst(t, {idx[0]: hole}) if idx else t
        if key not in names:            # the same value in another form
            same = next((k for k in names if k.args[0] == key.args[0] and ctx.prove_eq(k.args[1].args[1], key.args[1].args[1], clock() + 1, 10)), None)
            names[key] = names[same] if same is not None else f"gen${len(names)}"
        nm = names[key]
        return tm.app(nm, tuple(idx), "R")
    g = tm.replace(goal, f)
    if not names:
        return None
    c = Ctx(ctx.world)
    for x in ctx.facts:
        c.assume(tm.replace(x, f))
    return c, g


def lin_solve(d, v):
    """solve d == 0 for v when d is linear in v with numeric coefficient"""
    if v.sort == "C":
        pass
    items = d.args if d.op == "add" else (d,)
    k = Fraction(0)
    rest = []
    for it in items:
        c, r = tm._lin(it)
        if r is v or (r is not None and r.op == "toreal" and r.args[0] is v):
            k += c
        elif (v in it.fv) if v.op == "var" else any(x is v for x in tm.subterms(it)):
            return None
        else:
            rest.append(it)
    if k == 0:
        return None
    e = mul(num(-1 / k), add(*rest)) if rest else num(0)
    if v.sort == "I" and e.sort != "I":
        return None
    if v.sort == "R" and e.sort == "C":
        return None
    return e


# ------------------------------------------------------------------ refutation
def close(a, b, scale=0):
    try:
        na, nb = bool(mpmath.isnan(a)), bool(mpmath.isnan(b))
        ia, ib = bool(mpmath.isinf(a)), bool(mpmath.isinf(b))
    except TypeError:
        return a == b
    if nb or ib:
        return None     # the specification itself is undefined at this point
    if na or ia:
        return False
    return abs(a - b) <= mpf("1e-12") * (abs(a) + abs(b)) + mpf("1e-15") * (1 + scale)


def refute(world, ctx, goal, seed=0, tries=24, deadline=None):
    """search a point with all facts true and goal false. Returns (env, text) | None, number of valid points"""
    t0 = clock()
    valid = 0
    deadline = deadline or t0 + 6
    try:
        for k in range(tries):
            if clock() > deadline:
                break
            env = world.sample_env(random.Random(f"{seed}:{k}"), k)
            try:
                if not all(_true(f, env) for f in list(world.global_facts) + ctx.facts):
                    continue
                ok = _holds(goal, env)
            except (EvalError, ArithmeticError, ValueError, TypeError, OverflowError, mpmath.libmp.NoConvergence) as e:
                continue
            if ok is None:
                continue
            valid += 1
            if ok is False:
                return env, valid
        return None, valid
    finally:
        STATS["refute_time"] += clock() - t0


def _true(f, env):
    if f.op == "eq":
        a, b = ev(f.args[0], env), ev(f.args[1], env)
        return abs(a - b) <= mpf("1e-20") * (1 + abs(a) + abs(b))
    return bool(ev(f, env))


def _holds(goal, env):
    if goal.op == "eq":
        a, b = goal.args
        if b.op == "num" and not b.args[0] and a.op == "add":
            # scale by the magnitude of the parts
            vals = [ev(p, env) for p in a.args]
            s = sum(vals, mpf(0))
            sc = max([abs(v) for v in vals] + [mpf(0)])
            if mpmath.isnan(s) or mpmath.isinf(s) or mpmath.isinf(sc):
                return None
            return bool(abs(s) <= mpf("1e-11") * sc + mpf("1e-18"))
        spec = ev(b, env)          # undefined specification: the point is skipped
        if isinstance(spec, (bool, int)):
            spec = mpf(int(spec))
        if mpmath.isnan(spec):
            return None
        code = ev(a, env)
        if isinstance(code, (bool, int)):
            code = mpf(int(code))
        if mpmath.isinf(spec) or mpmath.isinf(code):
            if mpmath.isinf(spec) and mpmath.isinf(code):
                return None
            return None if mpmath.isinf(spec) else False
        if mpmath.isnan(code):
            return False
        return bool(abs(code - spec) <= mpf("1e-11") * (abs(spec) + abs(code)) + mpf("1e-15"))
    if goal.op in ("le", "lt"):
        a, b = ev(goal.args[0], env), ev(goal.args[1], env)
        a, b = mpmath.re(a), mpmath.re(b)
        if mpmath.isnan(a) or mpmath.isnan(b):
            return None
        return bool(a <= b + mpf("1e-12") * (abs(a) + abs(b)) + mpf("1e-18")) if goal.op == "le" else bool(a < b + mpf("1e-12") * (abs(a) + abs(b)) + mpf("1e-18"))
    if goal.op == "and":
        rs = [_holds(a, env) for a in goal.args]
        if any(r is False for r in rs):
            return False
        return None if any(r is None for r in rs) else True
    if goal.op == "or":
        rs = [_holds(a, env) for a in goal.args]
        if any(r is True for r in rs):
            return True
        return None if any(r is None for r in rs) else False
    return bool(ev(goal, env))
