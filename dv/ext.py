"""Assumed contracts of scipy / numpy.linalg / mpmath / numexpr functions.

Each external result is an uninterpreted array constrained by the equations that define it
(`eqfact`) and, for refutation, computed numerically from its arguments (`interp`)."""
import contextlib
import itertools
import math
from fractions import Fraction
import types
import mpmath
from mpmath import mpf, mpc
from . import snp
from . import term as tm
from .term import T, num, ZERO, ONE, PI, IU, INF, NAN, TRUE, FALSE, fn, ite, fresh, numval
from .arr import (SArr, Buf, asarr, scalar, from_fn, bshapes, bget, same_dim, is_one, dim_term, dim_out, kjoin,
                  Unsupported, W, cast_term)
from .evalt import ev, EvalError

_cnt = [0]


def _name(base):
    _cnt[0] += 1
    return f"{base}${_cnt[0]}"


def sortof(kind):
    return {"b": "B", "i": "I", "f": "R", "c": "C"}[kind]


def uf_array(base, sh, kind, interp):
    nm = _name(base)
    W().interp[nm] = interp
    s = sortof(kind)
    amb = tuple(v for v, _ in W().ambient)
    if amb:      # inside np.vectorize: the result depends on the loop index
        def interp_amb(env, idx):
            core, vals = idx[:len(sh)], idx[len(sh):]
            sub_ = env.cache.get(("ambient", amb, vals))
            if sub_ is None:
                from .evalt import Env
                sub_ = Env(env.vars, env.interp, env.sampler)
                sub_.apps = env.apps
                for a in ("rng", "rng_seed", "mode"):
                    if hasattr(env, a):
                        setattr(sub_, a, getattr(env, a))
                for v, x in zip(amb, vals):
                    sub_.vars[v.args[0]] = x
                env.cache[("ambient", amb, vals)] = sub_
            return interp(sub_, core)
        W().interp[nm] = interp_amb
    a = SArr(Buf(lambda idx: tm.app(nm, tuple(idx) + amb, s), kind), tuple(sh))
    a.ufname = nm
    return a


def snapshot(a):
    a = asarr(a)
    return from_fn(a.getter(), a.sh, a.kind)


def nd(a, env, batch):
    """numeric core matrix/vector of a (last dims beyond len(batch)) at the given batch index"""
    core = a.sh[len(batch):]
    dims = [int(ev(d, env)) for d in core]
    g = a.getter()
    b = tuple(num(i) for i in batch)
    if len(dims) == 1:
        return [ev(g(b + (num(i),)), env) for i in range(dims[0])], dims
    m = mpmath.matrix(dims[0], dims[1])
    for i in range(dims[0]):
        for j in range(dims[1]):
            m[i, j] = ev(g(b + (num(i), num(j))), env)
    return m, dims


def cached(env, key, f):
    if key not in env.cache:
        env.cache[key] = f()
    v = env.cache[key]
    if isinstance(v, Exception):
        raise EvalError(str(v))
    return v


def _try(f):
    try:
        return f()
    except (ZeroDivisionError, ValueError, ArithmeticError) as e:
        return EvalError(f"linear algebra: {e}")


def bto(a, sh):
    g = bget(a, sh)
    return from_fn(g, sh, a.kind)


def square(a):
    if len(a.sh) < 2:
        raise LinAlgError("0/1-dimensional array given. Array must be at least two-dimensional")
    if not same_dim(a.sh[-1], a.sh[-2]):
        raise LinAlgError("Last 2 dimensions of the array must be square")


def _numkey(t):
    return ("num", t.args[0]) if t.op == "num" else t


def deterministic(f):
    """the external function is a function: equal arguments give the same result"""
    import functools

    @functools.wraps(f)
    def g(*args, **kw):
        key = [f.__name__]
        for a in list(args) + sorted(kw.items()):
            if isinstance(a, SArr):
                try:
                    if all(d.op == "num" for d in a.sh) and math.prod(int(numval(d)) for d in a.sh) <= 64:
                        gg = a.getter()
                        key.append((a.kind, a.sh, tuple(_numkey(gg(tuple(num(i) for i in ix))) for ix in itertools.product(*[range(int(numval(d))) for d in a.sh]))))
                        continue
                    ix = tuple(tm.var(f"gen!{n}", "I") for n in range(len(a.sh)))
                    key.append((a.kind, a.sh, a.getter()(ix)))
                except Exception:
                    return f(*args, **kw)
            else:
                try:
                    hash(a)
                except TypeError:
                    return f(*args, **kw)
                key.append(a)
        key.append(tuple(v for v, _ in W().ambient))
        memo = W().__dict__.setdefault("ext_memo", {})
        key = tuple(key)
        if key not in memo:
            memo[key] = f(*args, **kw)
        r = memo[key]
        fresh_ = lambda x: snapshot(x) if isinstance(x, SArr) else x
        if isinstance(r, _EigResult):
            return _EigResult(map(fresh_, r))
        return tuple(map(fresh_, r)) if isinstance(r, tuple) else fresh_(r)
    return g


class LinAlgError(ValueError):
    pass


@deterministic
def solve(a, b):
    a, b = snapshot(a), snapshot(b)
    square(a)
    vec = len(b.sh) == 1
    if vec:
        b = b[:, None]
    if not same_dim(a.sh[-1], b.sh[-2]):
        raise ValueError("solve: Input operand 1 has a mismatch in its core dimension 0")
    bs = bshapes(a.sh[:-2], b.sh[:-2])
    A, B = bto(a, bs + a.sh[-2:]), bto(b, bs + b.sh[-2:])
    n = a.sh[-1]
    if n is ONE:        # a single equation
        r = B / A
        return r[..., 0] if vec else r
    nb = len(bs)
    key = _name("solve")

    def interp(env, idx):
        bi = idx[:nb]

        def f():
            M, _ = nd(A, env, bi)
            R, d = nd(B, env, bi)
            return _try(lambda: mpmath.lu_solve(M, R) if R.cols == 1 else mpmath.inverse(M) * R)
        return cached(env, (key, bi), f)[idx[-2], idx[-1]]
    x = uf_array("x", bs + b.sh[-2:], kjoin("f", a.kind, b.kind), interp)
    ag, bg, xg = A.getter(), B.getter(), x.getter()

    def fact(*i):
        bi, r, c = i[:nb], i[nb], i[nb + 1]
        v = fresh("k", "I")
        return tm.sub(tm.sum_(v, ZERO, tm.sub(n, ONE), tm.mul(ag(bi + (r, v)), xg(bi + (v, c)))), bg(bi + (r, c)))
    W().eqfact(x.ufname, bs + b.sh[-2:], fact)
    W().trust("numpy.linalg.solve(a, b): a @ x == b (a invertible)")
    return x[..., 0] if vec else x


@deterministic
def inv(a):
    a = snapshot(a)
    square(a)
    n, nb = a.sh[-1], len(a.sh) - 2
    key = _name("inv")

    def interp(env, idx):
        bi = idx[:nb]
        return cached(env, (key, bi), lambda: _try(lambda: mpmath.inverse(nd(a, env, bi)[0])))[idx[-2], idx[-1]]
    x = uf_array("inv", a.sh, kjoin("f", a.kind), interp)
    ag, xg = a.getter(), x.getter()

    def fact(left):
        def f(*i):
            bi, r, c = i[:nb], i[nb], i[nb + 1]
            v = fresh("k", "I")
            p = (tm.mul(ag(bi + (r, v)), xg(bi + (v, c))) if not left else tm.mul(xg(bi + (r, v)), ag(bi + (v, c))))
            return tm.sub(tm.sum_(v, ZERO, tm.sub(n, ONE), p), ite(tm.eq(r, c), num(1, "R"), num(0, "R")))
        return f
    W().eqfact(x.ufname, a.sh, fact(False))
    W().eqfact(x.ufname, a.sh, fact(True))
    W().trust("numpy.linalg.inv(a): a @ inv(a) == inv(a) @ a == 1 (a invertible)")
    return x


def _delta(r, c):
    return ite(tm.eq(r, c), num(1, "R"), num(0, "R"))


class _EigResult(tuple):
    eigenvalues = property(lambda s: s[0])
    eigenvectors = property(lambda s: s[1])


@deterministic
def eigh(a, UPLO="L", **kw):
    a = snapshot(a)
    square(a)
    n, nb = a.sh[-1], len(a.sh) - 2
    key = _name("eigh")

    def comp(env, bi):
        def f():
            M = nd(a, env, bi)[0]
            # numpy uses the lower triangle
            L = M.copy()
            for i in range(M.rows):
                for j in range(i + 1, M.rows):
                    L[i, j] = mpmath.conj(M[j, i])
                L[i, i] = mpmath.re(M[i, i])
            return _try(lambda: mpmath.mp.eighe(L) if a.kind == "c" else mpmath.mp.eigsy(L))
        return cached(env, (key, bi), f)
    eig = uf_array("eig", a.sh[:-1], "f", lambda env, idx: comp(env, idx[:nb])[0][idx[-1]])
    rv = uf_array("rv", a.sh, kjoin("f", a.kind), lambda env, idx: comp(env, idx[:nb])[1][idx[-2], idx[-1]])
    ag, eg, vg = a.getter(), eig.getter(), rv.getter()
    hi = tm.sub(n, ONE)

    def s(f):
        v = fresh("k", "I")
        return tm.sum_(v, ZERO, hi, f(v))
    cj = lambda t: fn("conj", t)
    W().eqfact(rv.ufname, a.sh, lambda *i: tm.sub(s(lambda k: tm.mul(cj(vg(i[:nb] + (k, i[nb]))), vg(i[:nb] + (k, i[nb + 1])))), _delta(i[nb], i[nb + 1])))
    W().eqfact(rv.ufname, a.sh, lambda *i: tm.sub(s(lambda k: tm.mul(vg(i[:nb] + (i[nb], k)), cj(vg(i[:nb] + (i[nb + 1], k))))), _delta(i[nb], i[nb + 1])))
    W().eqfact(rv.ufname, a.sh, lambda *i: tm.sub(s(lambda k: tm.mul(vg(i[:nb] + (i[nb], k)), eg(i[:nb] + (k,)), cj(vg(i[:nb] + (i[nb + 1], k))))), ag(i)))
    W().trust("numpy.linalg.eigh(a) for Hermitian a: unitary rv, real eig, rv @ diag(eig) @ rv^+ == a")
    return _EigResult((eig, rv))


@deterministic
def eig(a):
    a = snapshot(a)
    square(a)
    n, nb = a.sh[-1], len(a.sh) - 2
    key = _name("eig")

    def comp(env, bi):
        def f():
            M = nd(a, env, bi)[0]

            def g():
                E, R = mpmath.mp.eig(M)
                return E, R
            return _try(g)
        return cached(env, (key, bi), f)
    # numpy returns complex for general complex input, real if all eigenvalues happen to be real
    e = uf_array("eig", a.sh[:-1], "c", lambda env, idx: comp(env, idx[:nb])[0][idx[-1]])
    rv = uf_array("rv", a.sh, "c", lambda env, idx: comp(env, idx[:nb])[1][idx[-2], idx[-1]])
    ag, eg, vg = a.getter(), e.getter(), rv.getter()
    hi = tm.sub(n, ONE)

    def fact(*i):
        bi, r, c = i[:nb], i[nb], i[nb + 1]
        v = fresh("k", "I")
        return tm.sub(tm.sum_(v, ZERO, hi, tm.mul(ag(bi + (r, v)), vg(bi + (v, c)))), tm.mul(eg(bi + (c,)), vg(bi + (r, c))))
    W().eqfact(rv.ufname, a.sh, fact, product=lambda *i: (eg(i[:nb] + (i[nb + 1],)), vg(i)))
    W().trust("numpy.linalg.eig(a): a @ rv == rv @ diag(eig), rv invertible")
    return _EigResult((e, rv))


def eigvals(a):
    return eig(a)[0]


def eigvalsh(a, UPLO="L"):
    return eigh(a)[0]


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x)
    if axis is None and len(x.sh) == 2 and ord not in (None, "fro"):
        raise Unsupported("matrix norm")
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm ord")
    a2 = (x * x.conj()).real if x.kind == "c" else x * x
    return snp.sqrt(snp.sum(a2, axis=axis, keepdims=keepdims))


@deterministic
def qr(a, mode="reduced"):
    a = snapshot(a)
    if len(a.sh) != 2 and mode == "raw":
        raise Unsupported("qr")
    m, n = a.sh[-2:]
    nb = len(a.sh) - 2
    key = _name("qr")
    if mode not in ("complete", "reduced"):
        raise Unsupported("qr mode")
    if mode == "complete":
        k = m
    else:
        k = fn("min", m, n)
        if k.op == "ite":
            k = m if W().branch(tm.le(m, n), why="qr") else n

    def comp(env, bi):
        def f():
            import numpy as np
            M, d = nd(a, env, bi)
            if d[0] >= d[1]:
                q, r = mpmath.qr(M, mode="full" if mode == "complete" else "skinny")
                return q, r
            A = np.array([[complex(M[i, j]) for j in range(d[1])] for i in range(d[0])]).reshape(d)
            Q, R = np.linalg.qr(A, mode=mode)
            return Q, R
        return cached(env, (key, bi), f)
    kk = kjoin("f", a.kind)
    conv = (lambda v: mpc(v)) if kk == "c" else (lambda v: mpmath.re(mpc(v)))
    Q = uf_array("Q", a.sh[:-2] + (m, k), kk, lambda env, idx: conv(comp(env, idx[:nb])[0][idx[-2], idx[-1]]))
    R = uf_array("R", a.sh[:-2] + (k, n), kk, lambda env, idx: conv(comp(env, idx[:nb])[1][idx[-2], idx[-1]]))
    ag, qg, rg0 = a.getter(), Q.getter(), R.getter()
    zero = num(0, "R")
    rg = lambda i: ite(tm.gt(i[-2], i[-1]), zero, rg0(i))
    Rz = SArr(Buf(rg, kk), R.sh)
    cj = lambda t: fn("conj", t)

    def s(hi, f):
        v = fresh("k", "I")
        return tm.sum_(v, ZERO, tm.sub(hi, ONE), f(v))
    W().eqfact(Q.ufname, a.sh[:-2] + (k, k), lambda *i: tm.sub(s(m, lambda v: tm.mul(cj(qg(i[:nb] + (v, i[nb]))), qg(i[:nb] + (v, i[nb + 1])))), _delta(i[nb], i[nb + 1])))
    if mode == "complete":
        W().eqfact(Q.ufname, a.sh[:-2] + (m, m), lambda *i: tm.sub(s(m, lambda v: tm.mul(qg(i[:nb] + (i[nb], v)), cj(qg(i[:nb] + (i[nb + 1], v))))), _delta(i[nb], i[nb + 1])))
    W().eqfact(R.ufname, a.sh, lambda *i: tm.sub(s(k, lambda v: tm.mul(qg(i[:nb] + (i[nb], v)), rg(i[:nb] + (v, i[nb + 1])))), ag(i)))
    # consequence of the two equations above: Q^+ a = R (upper triangular)
    W().eqfact(Q.ufname, a.sh[:-2] + (k, n), lambda *i: tm.sub(s(m, lambda v: tm.mul(cj(qg(i[:nb] + (v, i[nb]))), ag(i[:nb] + (v, i[nb + 1])))), rg(i)))
    W().trust("numpy.linalg.qr(a): a == Q @ R, Q^+ Q == 1, R upper triangular")
    W().numeric_only = True
    return Q, Rz


@deterministic
def lstsq(a, b, rcond=None, **kw):
    a, b = snapshot(a), snapshot(b)
    h = W().hooks.get("lstsq")
    if h is not None:
        return h(a, b, rcond)
    if len(a.sh) != 2:
        raise LinAlgError(f"{len(a.sh)}-dimensional array given. Array must be two-dimensional")
    if not same_dim(a.sh[0], b.sh[0]):
        raise LinAlgError("Incompatible dimensions")
    vec = len(b.sh) == 1
    B = b[:, None] if vec else b
    m, n = a.sh
    key = _name("lstsq")

    def comp(env):
        def f():
            M, d = nd(a, env, ())
            R, e = nd(B, env, ())
            if d[0] < d[1]:
                return EvalError("underdetermined lstsq")
            MH = M.transpose_conj()
            return _try(lambda: mpmath.inverse(MH * M) * (MH * R))
        return cached(env, key, f)
    kk = kjoin("f", a.kind, b.kind)
    fix = (lambda v: v) if kk == "c" else (lambda v: mpmath.re(v))
    x = uf_array("lsq", (n, B.sh[1]), kk, lambda env, idx: fix(comp(env)[idx[0], idx[1]]))
    ag, bg, xg = a.getter(), B.getter(), x.getter()

    def fact(r, c):
        p, v = fresh("p", "I"), fresh("k", "I")
        inner = tm.sub(tm.sum_(v, ZERO, tm.sub(n, ONE), tm.mul(ag((p, v)), xg((v, c)))), bg((p, c)))
        return tm.sum_(p, ZERO, tm.sub(m, ONE), tm.mul(fn("conj", ag((p, r))), inner))
    W().eqfact(x.ufname, (n, B.sh[1]), fact)
    W().trust("numpy.linalg.lstsq(a, b): normal equations a^+ (a x - b) == 0")
    res = snp.sum(snp.abs(snp.matmul(a, x) - B)**2, axis=0)
    return (x[:, 0] if vec else x), res, dim_out(n), None


@deterministic
def svd(a, full_matrices=True, compute_uv=True, **kw):
    a = snapshot(a)
    if len(a.sh) < 2 or kw.get("hermitian"):
        raise Unsupported("svd")
    m, n = a.sh[-2:]
    nb = len(a.sh) - 2
    k = fn("min", m, n)
    if k.op == "ite":
        k = m if W().branch(tm.le(m, n), why="svd") else n
    key = _name("svd")

    def comp(env, bi):
        def f():
            M, d = nd(a, env, bi)
            return _try(lambda: mpmath.svd(M, full_matrices=bool(full_matrices)) if d[0] >= d[1] else
                        (lambda u, s, v: (v.transpose_conj(), s, u.transpose_conj()))(*mpmath.svd(M.transpose_conj(), full_matrices=bool(full_matrices))))
        return cached(env, (key, bi), f)
    kk = kjoin("f", a.kind)
    conv = (lambda v: mpc(v)) if kk == "c" else (lambda v: mpmath.re(mpc(v)))
    S = uf_array("s", a.sh[:-2] + (k,), "f", lambda env, idx: mpmath.re(comp(env, idx[:nb])[1][idx[-1]]))
    if not W().ambient:
        W().elem_facts[S.ufname] = [lambda *i: tm.le(ZERO, tm.app(S.ufname, i, "R"))]
    W().trust("numpy.linalg.svd(a): a == U diag(s) V^+, U and V unitary, s >= 0 descending")
    W().numeric_only = True
    if not compute_uv:
        return S
    ku, kv = (m, n) if full_matrices else (k, k)
    U = uf_array("U", a.sh[:-2] + (m, ku), kk, lambda env, idx: conv(comp(env, idx[:nb])[0][idx[-2], idx[-1]]))
    V = uf_array("Vh", a.sh[:-2] + (kv, n), kk, lambda env, idx: conv(comp(env, idx[:nb])[2][idx[-2], idx[-1]]))
    ag, ug, sg, vg = a.getter(), U.getter(), S.getter(), V.getter()
    cj = lambda t: fn("conj", t)

    def s(hi, f):
        v = fresh("k", "I")
        return tm.sum_(v, ZERO, tm.sub(hi, ONE), f(v))
    W().eqfact(U.ufname, a.sh[:-2] + (ku, ku), lambda *i: tm.sub(s(m, lambda v: tm.mul(cj(ug(i[:nb] + (v, i[nb]))), ug(i[:nb] + (v, i[nb + 1])))), _delta(i[nb], i[nb + 1])))
    W().eqfact(V.ufname, a.sh[:-2] + (kv, kv), lambda *i: tm.sub(s(n, lambda v: tm.mul(vg(i[:nb] + (i[nb], v)), cj(vg(i[:nb] + (i[nb + 1], v))))), _delta(i[nb], i[nb + 1])))
    W().eqfact(V.ufname, a.sh, lambda *i: tm.sub(s(k, lambda v: tm.mul(ug(i[:nb] + (i[nb], v)), sg(i[:nb] + (v,)), vg(i[:nb] + (v, i[nb + 1])))), ag(i)))
    return U, S, V


def pinv(a, **kw):
    raise Unsupported("pinv")


def cond(a, p=None):
    raise Unsupported("cond")


def det(a):
    a = asarr(a)
    n = a.sh[-1]
    if n.op == "num" and numval(n) <= 3:
        k = int(numval(n))
        r = 0
        for perm in itertools.permutations(range(k)):
            s = 1
            for i in range(k):
                for j in range(i):
                    if perm[j] > perm[i]:
                        s = -s
            p = s
            for i in range(k):
                p = p * a[..., i, perm[i]]
            r = r + p
        return r
    raise Unsupported("det")


def matrix_power(a, n):
    raise Unsupported("matrix_power")


def unsup(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


NP_LINALG = dict(solve=solve, inv=inv, eigh=eigh, eig=eig, eigvals=eigvals, eigvalsh=eigvalsh, norm=norm, qr=qr,
                 lstsq=lstsq, svd=svd, pinv=pinv, cond=cond, det=det, LinAlgError=LinAlgError, matrix_power=matrix_power,
                 multi_dot=lambda ms: __import__("functools").reduce(snp.matmul, ms))


# -------------------------------------------------------------- scipy.linalg
def toeplitz(c, r=None):
    c = asarr(c)
    if len(c.sh) > 1:
        raise Unsupported("toeplitz nd")
    cg = snapshot(c).getter()
    r = c.conj() if r is None else asarr(r)
    rg = snapshot(r).getter()
    k = kjoin(c.kind, r.kind)
    return SArr(Buf(lambda i: ite(tm.ge(i[0], i[1]), cg((tm.sub(i[0], i[1]),)), rg((tm.sub(i[1], i[0]),))), k), (c.sh[0], r.sh[0]))


def matmul_toeplitz(c_or_cr, x, **kw):
    if isinstance(c_or_cr, tuple):
        m = toeplitz(*c_or_cr)
    else:
        m = toeplitz(c_or_cr)
    return snp.matmul(m, x)


def solve_toeplitz(c_or_cr, b, **kw):
    m = toeplitz(*c_or_cr) if isinstance(c_or_cr, tuple) else toeplitz(c_or_cr)
    return solve(m, b)


def sp_eig(a, b=None, right=True, left=False, **kw):
    if b is not None or left:
        raise Unsupported("generalised eig")
    r = eig(a)
    return r if right else r[0]


def sp_qr(a, overwrite_a=False, lwork=None, mode="full", pivoting=False, check_finite=True):
    m = {"full": "complete", "economic": "reduced"}.get(mode)
    if pivoting or (m is None and mode != "r"):
        raise Unsupported("scipy.linalg.qr mode")
    if mode == "r":
        return (qr(a, mode="complete")[1],)
    return qr(a, mode=m)


SP_LINALG = dict(toeplitz=toeplitz, matmul_toeplitz=matmul_toeplitz, solve_toeplitz=solve_toeplitz, eig=sp_eig,
                 qr=sp_qr, solve=lambda a, b, **k: solve(a, b), inv=lambda a, **k: inv(a),
                 lstsq=lambda a, b, **k: lstsq(a, b), eigh=lambda a, **k: eigh(a), norm=norm, LinAlgError=LinAlgError,
                 solve_triangular=None, svd=svd)


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **kw):
    a = asarr(a)
    m = (snp.tril if lower else snp.triu)(a)
    if trans in (1, "T"):
        m = m.T
    elif trans in (2, "C"):
        m = m.T.conj()
    return solve(m, b)


SP_LINALG["solve_triangular"] = solve_triangular


# ------------------------------------------------------------- scipy.special
def expit(x, out=None, **kw):
    x = asarr(x)
    if x.kind == "c":
        raise TypeError("ufunc 'expit' not supported for the input types")
    return snp._ew(lambda a: tm.div(num(1, "R"), tm.add(num(1, "R"), fn("exp", tm.neg(tm.real(snp._n(a)))))), snp._kfloat, x, out=out)


def logit(x, **kw):
    x = asarr(x)
    if x.kind == "c":
        raise TypeError("ufunc 'logit' not supported for the input types")

    def f(a):
        a = tm.real(snp._n(a))
        return fn("log", tm.div(a, tm.sub(num(1, "R"), a)))
    return snp._ew(f, snp._kfloat, x)


def ellipk(x):
    x = asarr(x)
    if x.kind == "c":
        raise TypeError("ufunc 'ellipk' not supported for the input types")
    return snp._ew(lambda a: fn("ellipk", tm.real(snp._n(a))), snp._kfloat, x)


def ellipkm1(x):
    x = asarr(x)
    if x.kind == "c":
        raise TypeError("ufunc 'ellipkm1' not supported for the input types")
    return snp._ew(lambda a: fn("ellipk", tm.sub(num(1, "R"), tm.real(snp._n(a)))), snp._kfloat, x)


def jv(n, x):
    return snp._ew(lambda a, b: fn("jv", tm.real(a), tm.real(b)), snp._kfloat, n, x)


def hyp2f1(*a):
    return snp._ew(lambda *t: fn("hyp2f1", *[tm.real(x) for x in t]), snp._kfloat, *a)


SP_SPECIAL = dict(expit=expit, logit=logit, ellipk=ellipk, ellipkm1=ellipkm1, jv=jv, hyp2f1=hyp2f1,
                  j0=lambda x: jv(0, x), j1=lambda x: jv(1, x),
                  exp1=unsup("exp1"), digamma=unsup("digamma"), comb=unsup("comb"), binom=unsup("binom"),
                  factorial=unsup("factorial"), log_expit=unsup("log_expit"))


# ------------------------------------------------------------ scipy.optimize
class OptimizeResult(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError as e:
            raise AttributeError(k) from e


def root_scalar(f, args=(), method=None, bracket=None, **kw):
    h = W().hooks.get("root_scalar")
    if h is None:
        raise Unsupported("root_scalar")
    return h(f, args=args, method=method, bracket=bracket, **kw)


def root(fun, x0, **kw):
    h = W().hooks.get("root")
    if h is None:
        raise Unsupported("optimize.root")
    return h(fun, x0, **kw)


def minimize_scalar(fun, **kw):
    h = W().hooks.get("minimize_scalar")
    if h is None:
        raise Unsupported("optimize.minimize_scalar")
    return h(fun, **kw)


SP_OPTIMIZE = dict(root_scalar=root_scalar, root=root, minimize_scalar=minimize_scalar, OptimizeResult=OptimizeResult,
                   brentq=unsup("brentq"), minimize=unsup("minimize"), newton=unsup("newton"))


def simpson(*a, **k):
    raise Unsupported("simpson")


# -------------------------------------------------------------- polynomial
class Polynomial:
    def __init__(self, coef, domain=None, window=None, symbol="x"):
        self.coef = snp.array(coef)

    def __call__(self, x):
        return snp.polyval(x, self.coef)

    def __mul__(self, o):
        if isinstance(o, Polynomial):
            return Polynomial(polymul(self.coef, o.coef))
        return Polynomial(self.coef * o)
    __rmul__ = __mul__

    def __add__(self, o):
        raise Unsupported("Polynomial add")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"Polynomial.{name}")

    def degree(self):
        return len(self.coef.sh) and dim_out(tm.sub(self.coef.sh[0], ONE))

    @classmethod
    def fromroots(cls, roots, **kw):
        r = asarr(roots)
        n = r.sh[0]
        if n.op != "num":
            raise Unsupported("fromroots of symbolic size")
        c = [asarr(1.0)]
        for k in range(int(numval(n))):
            new = [asarr(0.0)] * (len(c) + 1)
            for i, x in enumerate(c):
                new[i + 1] = new[i + 1] + x
                new[i] = new[i] - x * r[k]
            c = new
        return cls(snp.stack(c))


def polymul(a, b):
    a, b = asarr(a), asarr(b)
    n, m = a.sh[0], b.sh[0]
    ag, bg = a.getter(), b.getter()
    z = num(0, "R")

    def get(i):
        v = fresh("k", "I")
        d = tm.sub(i[0], v)
        return tm.sum_(v, ZERO, tm.sub(n, ONE), ite(tm.and_(tm.le(ZERO, d), tm.lt(d, m)), tm.mul(ag((v,)), bg((d,))), z))
    return from_fn(get, (tm.sub(tm.add(n, m), ONE),), kjoin(a.kind, b.kind))


NP_POLY = dict(Polynomial=Polynomial, polymul=polymul, polyroots=unsup("polyroots"), polyfromroots=lambda r: Polynomial.fromroots(r).coef,
               polyfit=unsup("polyfit"))


# ------------------------------------------------------------------ numexpr
def ne_evaluate(expr, local_dict=None, global_dict=None, **kw):
    if local_dict is None:
        raise Unsupported("numexpr frame lookup")
    env = {k: asarr(v) for k, v in local_dict.items()}
    env.update(exp=snp.exp, sqrt=snp.sqrt, sin=snp.sin, cos=snp.cos, log=snp.log, abs=snp.abs, where=snp.where,
               real=snp.real, imag=snp.imag, conj=snp.conj, expm1=snp.expm1)
    W().trust("numexpr.evaluate(expr) evaluates the expression elementwise")
    return eval(expr, {"__builtins__": {}}, env)


# ------------------------------------------------------------------- mpmath
def _half_pi(x):
    t = asarr(x).term()
    d = tm.sub(t, tm.mul(num(Fraction(1, 2)), PI))
    return d.op == "num" and numval(d) == 0


def fp_ellipf(phi, m):
    if not _half_pi(phi):
        raise Unsupported("ellipf with phi != pi/2")
    if isinstance(m, T):
        return fn("cellipk", m)
    return snp._ew(lambda a: fn("cellipk", a), lambda k: "c", m)


def _mpf(x):
    if isinstance(x, str):
        if x in ("inf", "+inf"):
            return snp.inf
        return scalar(tm.real(num(Fraction(x))), "f")
    a = asarr(x)
    if a.kind == "c":
        raise TypeError("cannot create mpf from complex")
    return a.astype(float).as_scalar()


def _mpc(re, im=0):
    r, i = _arg(re), _arg(im)
    return r + 1j * i


def _arg(x):
    return _mpf(x) if isinstance(x, str) else asarr(x)


def mp_shims(_mod):
    def ell(m):
        return snp._ew(lambda a: fn("cellipk", a) if a.sort == "C" else (fn("ellipk", a)), lambda k: "c", m)

    @contextlib.contextmanager
    def workdps(*a, **k):
        yield

    def polyval(coeffs, x):
        r = asarr(0)
        for c in coeffs:
            r = r * x + c
        return r

    def mp_sqrt(x):
        return snp.em_sqrt(_arg(x))
    names = dict(mpf=_mpf, mpc=_mpc, sqrt=mp_sqrt, pi=snp.pi, inf=snp.inf, fabs=lambda x: snp.abs(_arg(x)), ellipk=ell,
                 powm1=lambda x, y: snp.em_power(asarr(x), asarr(y)) - 1, workdps=workdps, polyval=polyval,
                 im=lambda z: asarr(z).imag, re=lambda z: asarr(z).real, exp=snp.exp, log=snp.log, dps=15, prec=53,
                 ellipf=fp_ellipf, sin=snp.sin, cos=snp.cos, mpmathify=_arg)
    mp = _mod("mpmath.mp", **names)
    fp = _mod("mpmath.fp", ellipf=fp_ellipf, ellipk=ell, mpf=_mpf, mpc=_mpc)
    top = _mod("mpmath", mp=mp, fp=fp, **names)
    return {"mpmath": top, "mpmath.mp": mp, "mpmath.fp": fp}
