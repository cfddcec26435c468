"""Loop rule: a loop with a symbolic trip count is verified against an invariant given by the contract.

The invariant describes the complete state of the loop: at(i) gives, for every local variable the loop modifies, its
contents before iteration i (in terms of the inputs and of recursively defined ghost functions).  The generator below is what
`for x in range(..)` / `for row in array` of the unmodified code iterates over.  It
  1. emits the obligation that the state before the loop is at(start),
  2. replaces the variables by at(i) for an arbitrary start <= i < stop and lets the body run once,
  3. emits the obligation that the state after the body is at(i+1),
  4. replaces the variables by at(stop) and leaves the loop.
Variables that the body binds and the invariant does not mention become unusable after the loop; a body that modifies
anything else is outside the fragment."""
import ctypes
import sys
from . import term as tm
from .term import ZERO, ONE, fresh, le, lt, eq, ite, num
from .arr import SArr, Buf, asarr, scalar, from_fn, dim_term, dim_out, Unsupported, W, same_dim


class Poison:
    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise Unsupported(f"loop variable {self._n} used after the loop")
    __getattr__ = __call__ = __getitem__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = _bad
    __bool__ = __iter__ = __len__ = __array__ = __eq__ = __lt__ = __neg__ = _bad
    __hash__ = None


class Ghost:
    """a function defined by recursion on its argument number `pos`"""

    def __init__(self, k, name, kind, pos, rec):
        self.k, self.name, self.kind, self.pos, self.rec = k, name, kind, pos, rec
        self.sort = {"f": "R", "c": "C", "i": "I"}[kind]
        from .evalt import ev
        w = k.w

        def interp(env, idx):
            key = ("ghost", name, idx)
            if key not in env.cache:
                env.cache[key] = ev(self.definition(tuple(num(int(i)) for i in idx)), env)
            return env.cache[key]
        w.interp[name] = interp

    def __call__(self, *idx):
        return scalar(tm.app(self.name, tuple(dim_term(i) for i in idx), self.sort), self.kind)

    def definition(self, idx):
        r = asarr(self.k._e(self.rec(*[scalar(i, "i") for i in idx])))
        t = r.term()
        return tm.complex_(t) if self.kind == "c" and t.sort != "C" and hasattr(tm, "complex_") else (tm.real(t) if self.kind == "f" else t)

    def unfold(self, t, where):
        """replace applications whose recursion argument satisfies `where` by the definition"""
        def f(n):
            if n.op == "app" and n.args[0] == self.name:
                c = where(n.args[1 + self.pos])
                if c is tm.FALSE:
                    return None
                d = W().cond(c)
                if d is False:
                    return None
                b = self.definition(n.args[1:])
                if d is True:
                    return b
                return ite(c, b, n)
            return None
        return tm.replace(t, f)


def find(frame):
    w = W()
    for sp in getattr(w, "loops", ()):
        if sp["code"] == frame.f_code.co_name and not sp.get("used"):
            return sp
    return None


def _set(frame, vals):
    frame.f_locals.update(vals)
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


def _mk(v, kind):
    sh, f = v
    sh = tuple(dim_term(d) for d in sh)
    from .arr import cast_term

    def get(idx):
        a = asarr(f(*[scalar(i, "i") for i in idx]))
        return cast_term(a.term(), a.kind, kind)
    return SArr(Buf(get, kind), sh)


def iterate(frame, start, stop, item):
    """generator used in place of the iteration of a loop with symbolic trip count"""
    w = W()
    sp = find(frame)
    if sp is None:
        raise Unsupported("loop with symbolic trip count")
    sp["used"] = True
    if w.branch(le(stop, start), why="empty loop"):
        return
    if sp.get("first") is not None:
        # the contract counts the iterations from `first`, whatever values the loop variable takes
        first = dim_term(sp["first"])
        off = tm.sub(start, first)
        if off is not ZERO:
            value = item
            item = lambda i: value(tm.add(i, off))
            start, stop = first, tm.sub(stop, off)
    before = dict(frame.f_locals)
    names = list(sp["at"](scalar(start, "i")))
    for n in names:
        if not isinstance(before.get(n), SArr):
            raise Unsupported(f"loop invariant: no array {n}")
    # variables that share memory with something else may be rebound by the loop, but not modified in place
    shared = {x for x in names for n, v in before.items()
              if n != x and isinstance(v, SArr) and v.buf is before[x].buf}
    kinds = {n: ("c" if before[n].kind == "c" else sp["kinds"].get(n, before[n].kind)) for n in names}
    label = sp["label"]

    def oblige(tag, i, actual, unf):
        st = sp["at"](scalar(i, "i"))
        for n in names:
            a = actual[n]
            if not isinstance(a, SArr) or a.mask is not None:
                raise Unsupported(f"loop invariant: {n}")
            want = _mk(st[n], kinds[n])
            if tag == "init":
                from . import snp
                a = snp.broadcast_to(a, tuple(dim_out(d) for d in want.sh))
            if len(a.sh) != len(want.sh):
                raise Unsupported(f"loop invariant: rank of {n}")
            if a.kind != kinds[n] and tag != "init":
                raise Unsupported(f"loop invariant: dtype of {n}")
            vs = [fresh("i", "I") for _ in want.sh]
            facts = [le(ZERO, v) for v in vs] + [lt(v, d) for v, d in zip(vs, want.sh)]
            for v, d in zip(vs, want.sh):
                w.samplers[v.args[0]] = _sampler(d)
            old = w.ctx
            w.ctx = old.copy()
            for f in facts:
                w.ctx.assume(f)
            try:
                shp = [eq(x, y) for x, y in zip(a.sh, want.sh)]
                got = a.getter()(tuple(vs))
                wt = want.getter()(tuple(vs))
                for g in sp["ghosts"]:
                    wt = g.unfold(wt, lambda t: unf(t))
            finally:
                w.ctx = old
            sp["kit"]._ob(f"loop {label}: {n} {tag}:shape", tm.and_(*shp) if shp else tm.TRUE)
            sp["kit"]._ob(f"loop {label}: {n} {tag}", tm.TRUE if got is wt else tm._mk("eq", (got, wt), "B"), facts)

    oblige("init", start, before, lambda t: eq(t, dim_term(sp["base"])) if sp["base"] is not None and t.op != "num" else tm.TRUE if t.op == "num" else tm.FALSE)
    i = fresh("it", "I")
    sp["range"] = (i, start, stop)
    w.samplers[i.args[0]] = _range_sampler(start, stop)
    outer = w.ctx
    w.ctx = outer.copy()
    w.ctx.assume(le(start, i))
    w.ctx.assume(lt(i, stop))
    st = sp["at"](scalar(i, "i"))
    cur = {n: _mk(st[n], kinds[n]) for n in names}
    curget = {n: v.buf.get for n, v in cur.items()}
    _set(frame, cur)
    ver = {n: (v, v.buf.get) for n, v in before.items() if isinstance(v, SArr) and n not in names}
    done = False
    w.in_loop = True
    try:
        yield item(i)
        done = True
    finally:
        if not done:
            w.broken_loop = True      # break / return / exception inside the body
    w.in_loop = False
    after = dict(frame.f_locals)
    for n, (v, g) in ver.items():
        if n in after and after[n] is v and v.buf.get is not g:
            raise Unsupported(f"loop modifies {n}")
    for n in shared:
        if cur[n].buf.get is not curget[n]:
            raise Unsupported(f"loop modifies {n}, which shares memory with another variable")
    new = dim_term(sp["new"](scalar(i, "i")))
    oblige("preserved", tm.add(i, ONE), after, lambda t: eq(t, new))
    target = frame.f_locals
    rebind = {}
    for n, v in after.items():
        if n in names:
            continue
        if n not in before or (before[n] is not v):
            rebind[n] = Poison(n)
    w.ctx = outer
    st = sp["at"](scalar(stop, "i"))
    rebind.update({n: _mk(st[n], kinds[n]) for n in names})
    _set(frame, rebind)
    w.note(f"loop invariant of {label}: init, preserved, exit")


def iterate_while(frame):
    """the loop rule for `while`: an arbitrary iteration i >= 0 from a state at(i) that satisfies inv(i); the path on which the
    body completes ends with the obligation for i + 1, the path on which the loop is left goes on from there"""
    w = W()
    sp = find(frame)
    sp["used"] = True
    before = dict(frame.f_locals)
    names = list(sp["at"](scalar(ZERO, "i")))
    for n in names:
        if not isinstance(before.get(n), (SArr, int, float)) or isinstance(before.get(n), bool):
            raise Unsupported(f"loop invariant: no variable {n}")
    others = {n: v for n, v in before.items() if n not in names and isinstance(v, SArr)}
    if any(v.sh for v in others.values()) or any(asarr(before[n]).sh for n in names):
        raise Unsupported("while loop with arrays")
    kinds = {n: asarr(before[n]).kind for n in names}
    label = sp["label"]

    def oblige(tag, i, actual):
        st = sp["at"](scalar(i, "i"))
        for n in names:
            a = asarr(actual[n])
            if a.sh or a.kind != kinds[n]:
                raise Unsupported(f"loop invariant: {n}")
            sp["kit"]._ob(f"loop {label}: {n} {tag}", eq(a.term(), _mk(st[n], kinds[n]).term()))
        for n, c in (sp["inv"](scalar(i, "i")) if sp["inv"] else {}).items():
            sp["kit"]._ob(f"loop {label}: {n} {tag}", sp["kit"]._b(c))

    oblige("init", ZERO, before)
    i = fresh("it", "I")
    w.samplers[i.args[0]] = lambda rng, env: rng.randint(0, 4)
    w.ctx.assume(le(ZERO, i))
    st = sp["at"](scalar(i, "i"))
    for n, c in (sp["inv"](scalar(i, "i")) if sp["inv"] else {}).items():
        w.ctx.assume(sp["kit"]._b(c))
    _set(frame, {n: _mk(st[n], kinds[n]) for n in names})
    sp["iteration"] = scalar(i, "i")
    w.note(f"loop invariant of {label}: init, preserved, exit")
    yield None
    after = dict(frame.f_locals)
    for n, v in others.items():
        if after.get(n) is not v:
            raise Unsupported(f"loop modifies {n}")
    oblige("preserved", tm.add(i, ONE), after)
    from .kit import PathDone
    raise PathDone


def _sampler(d):
    from .evalt import ev
    return lambda rng, env: rng.randint(0, max(int(ev(d, env)) - 1, 0))


def _range_sampler(lo, hi):
    from .evalt import ev

    def f(rng, env):
        a, b = int(ev(lo, env)), int(ev(hi, env))
        return rng.randint(a, max(b - 1, a))
    return f
