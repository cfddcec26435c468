"""C18 Pade and quadratic Hermite-Pade approximants of Taylor series"""


def _an(k, name="an", lmin=None, cplx=None, **kw):
    """Taylor coefficients, at least lmin"""
    n = k.dim("n") if lmin is None else k.dim("more", lo=0, bounded=(0, 1, 3)) + lmin
    cplx = k.choice("dtype", ["real", "complex"]) if cplx is None else cplx
    return n, (k.complex(name, (n,), **kw) if cplx == "complex" else k.real(name, (n,), **kw))


def _coef(k, x):
    return k.out(x.coef)


def _conv(k, c, a, n, deg):
    """n-th Taylor coefficient of (sum_j c_j x^j)(sum_j a_j x^j), c of degree deg"""
    return k.sum(lambda j: k.ite(j <= n, lambda: c[j] * a[n - j], 0), deg + 1)


def _small(k, x, *scale):
    if k.symbolic:
        return k.eq(x, 0)
    return k.abs(x) <= k.frac(1, 10**9) * (k.frac(1, 10**6) + sum(scale, 0))


def _norm(k, a, n):
    return 0 if k.symbolic else k.sum(lambda j: k.abs(a[j]), n)


def c_pade(k):
    """q f - p = O(x^(num_deg+den_deg+1)); p and q of the requested degree, q != 0"""
    which = k.choice("function", ["pade", "fast", "lstsq"])
    M, N = k.int("num_deg", 0, bounded=(0, 1, 2, 4)), k.int("den_deg", 1, bounded=(1, 2, 3, 5))
    n, a = _an(k, lmin=M + N + 1)
    f = "gftool.hermpade.pade_lstsq" if which == "lstsq" else "gftool.hermpade.pade"
    if which == "lstsq":
        # fitted if more coefficients are given
        k.assume(k.eq(n, M + N + 1))
    if which != "pade" and not k.symbolic:
        import numpy as np
        b = np.concatenate([np.zeros(N + 1), a.snap])
        t = np.array([[b[N + 1 + M + 1 + i - j] for j in range(N + 1)] for i in range(N)])
        k.assume(all(np.linalg.cond(t[:l, :l]) < 1e5 for l in range(1, N + 1)) if which == "fast" else bool(np.linalg.cond(t[:, 1:]) < 1e5))
    r = k.call(f, a, num_deg=M, den_deg=N, **({"fast": True} if which == "fast" else {}))
    p, q = r.numer, r.denom
    k.ensure_shape("numerator", p.coef, (M + 1,))
    k.ensure_shape("denominator", q.coef, (N + 1,))
    p, q = _coef(k, p), _coef(k, q)
    s = _norm(k, a, n) * _norm(k, q, N + 1) if not k.symbolic else 0
    k.ensure("order of p", lambda i: _small(k, _conv(k, q, a, i, N) - p[i], s), M + 1)
    if which != "lstsq" or not k.symbolic:
        k.ensure("vanishing orders", lambda i: _small(k, _conv(k, q, a, M + 1 + i, N), s), N)
    if which == "pade":
        k.ensure("q normalised", _small(k, k.sum(lambda j: q[j] * k.conj(q[j]), N + 1) - 1, 1))
    elif which == "fast":
        k.ensure("q[-1] = 1", _small(k, q[N] - 1, 1))
    else:
        k.ensure("q[0] = 1", _small(k, q[0] - 1, 1))
    k.frame()


def c_pade_taylor(k):
    """without denominator the approximant is the Taylor polynomial of the requested degree"""
    which = k.choice("function", ["pade", "pader"])
    M = k.int("num_deg", 0)
    n, a = _an(k, lmin=M + 1)
    if which == "pader":
        k.assume(k.exists(lambda j: k.abs(a[j]) > k.frac(1, 1000), M + 1))
        if not k.symbolic:
            k.assume(bool(a.snap[M] != 0))
        else:
            k.only_concrete()
    r = k.call("gftool.hermpade." + which, a, num_deg=M, den_deg=0)
    k.ensure_eq("numerator", r.numer.coef, lambda i: a[i], (M + 1,))
    k.ensure_eq("denominator", r.denom.coef, lambda i: 1, (1,))
    k.frame()


def c_too_short(k):
    """fewer Taylor coefficients than the order needs: ValueError"""
    which = k.choice("function", ["pade", "pade_lstsq", "pader", "hermite2", "hermite2_lstsq"])
    M, N = k.int("m", 0), k.int("n", 0)
    if which.startswith("herm"):
        K = k.int("k", 0)
        need = M + N + K + 2
        kw = dict(p_deg=M, q_deg=N, r_deg=K)
    else:
        need = M + N + 1
        kw = dict(num_deg=M, den_deg=N)
    L = k.dim("L")
    a = k.real("an", (L,))
    k.assume(L < need)
    k.call_raises(ValueError, True, "gftool.hermpade." + which, a, **kw)


def c_hermite2(k):
    """p + q f + r f^2 = O(x^(p_deg+q_deg+r_deg+2))"""
    which = k.choice("function", ["hermite2", "hermite2_lstsq"])
    P, Q, R = (k.int(x + "_deg", 0, bounded=(0, 1, 2, 3)) for x in "pqr")
    L = P + Q + R + 2
    n, a = _an(k, lmin=L)
    if which == "hermite2_lstsq":
        if k.symbolic:
            k.only_concrete()
        k.assume(k.eq(n, L))
        # one coefficient is fixed: generic data, i.e. every minor of the order conditions is regular
        import numpy as np
        full = np.array([[a.snap[i - j] if i >= j else 0 for j in range(L)] for i in range(L)])
        low = np.concatenate([full[P + 1:, :Q + 1], (full @ full[:, :R + 1])[P + 1:]], axis=-1)
        k.assume(all(np.linalg.cond(np.delete(low, j, axis=-1)) < 1e5 for j in range(low.shape[-1])))
    p, q, r = k.call("gftool.hermpade." + which, a, p_deg=P, q_deg=Q, r_deg=R)
    k.ensure_shape("p", p.coef, (P + 1,))
    k.ensure_shape("q", q.coef, (Q + 1,))
    k.ensure_shape("r", r.coef, (R + 1,))
    p, q, r = (_coef(k, x) for x in (p, q, r))
    # i-th Taylor coefficient of q f + r f^2
    ff = lambda i, j: k.sum(lambda m: k.ite(k.and_(j <= m, m <= i), lambda: a[i - m] * a[m - j], 0), L)
    qr = lambda i: k.sum(lambda j: k.ite(j <= Q, lambda: q[j] * k.ite(j <= i, lambda: a[i - j], 0), lambda: r[j - Q - 1] * ff(i, j - Q - 1)), Q + R + 2)
    if k.symbolic:
        s = 0
    else:
        na = _norm(k, a, n)
        s = _norm(k, q, Q + 1) * na + _norm(k, r, R + 1) * na * na
        if which == "hermite2_lstsq":
            s = s * 1000
    if which == "hermite2_lstsq":
        import numpy as np
        k.assume(bool(np.linalg.norm(np.r_[q.v, r.v]) < 1e4))
    k.ensure("p", lambda i: _small(k, p[i] + qr(i), s), P + 1)
    k.ensure("vanishing orders", lambda i: _small(k, qr(P + 1 + i), s), L - P - 1)
    if which == "hermite2":
        k.ensure("normalised", _small(k, k.sum(lambda j: k.ite(j <= Q, lambda: q[j] * k.conj(q[j]), lambda: r[j - Q - 1] * k.conj(r[j - Q - 1])), Q + R + 2) - 1, 1))
    k.frame()


def c_pade_lstsq(k):
    """all coefficients enter: q[0] = 1 and q minimises the norm of the orders num_deg+1.. of q f (normal equations)"""
    M, N = k.int("num_deg", 0, bounded=(0, 1, 2)), k.int("den_deg", 1, bounded=(1, 2, 3))
    n, a = _an(k, lmin=M + N + 1, cplx="real" if k.symbolic else None)
    r = k.call("gftool.hermpade.pade_lstsq", a, num_deg=M, den_deg=N)
    k.ensure_shape("numerator", r.numer.coef, (M + 1,))
    k.ensure_shape("denominator", r.denom.coef, (N + 1,))
    p, q = _coef(k, r.numer), _coef(k, r.denom)
    s = 0 if k.symbolic else _norm(k, a, n) * _norm(k, q, N + 1)
    k.ensure("q[0] = 1", _small(k, q[0] - 1, 1))
    k.ensure("p", lambda i: _small(k, _conv(k, q, a, i, N) - p[i], s), M + 1)
    mat = lambda i, j: k.ite(j <= M + 1 + i, lambda: a[M + 1 + i - j], 0)
    if not k.symbolic:
        k.ensure("least squares", lambda l: _small(k, k.sum(lambda i: k.conj(mat(i, l + 1)) * k.sum(lambda j: mat(i, j) * q[j], N + 1), n - M - 1), s, s * s), N)
    k.frame()


def c_hermite2_lstsq(k):
    """the fixed coefficient is 1 and (q, r) minimises the norm of the orders p_deg+1.. of q f + r f^2 (normal equations)"""
    fixed = k.choice("fixed", ["given", "default"])
    P, Q, R = (k.int(x + "_deg", 0, bounded=(0, 1, 2)) for x in "pqr")
    L = P + Q + R + 2
    n, a = _an(k, lmin=L)
    k.assume(k.exists(lambda j: k.not_(k.eq(a[j], 0)), n))
    kw = {}
    if fixed == "given":
        fix = k.int("fix_qr", 0, Q + R + 1)
        kw = dict(fix_qr=fix - (Q + R + 2) if k.choice("negative index", [False, True]) else fix)
    p, q, r = k.call("gftool.hermpade.hermite2_lstsq", a, p_deg=P, q_deg=Q, r_deg=R, **kw)
    k.ensure_shape("p", p.coef, (P + 1,))
    k.ensure_shape("q", q.coef, (Q + 1,))
    k.ensure_shape("r", r.coef, (R + 1,))
    p, q, r = (_coef(k, x) for x in (p, q, r))
    ff = lambda i, j: k.sum(lambda m: k.ite(k.and_(j <= m, m <= i), lambda: a[i - m] * a[m - j], 0), n)
    mat = lambda i, j: k.ite(j <= Q, lambda: k.ite(j <= i, lambda: a[i - j], 0), lambda: ff(i, j - Q - 1))
    qr = lambda j: k.ite(j <= Q, lambda: q[j], lambda: r[j - Q - 1])
    row = lambda i: k.sum(lambda j: mat(i, j) * qr(j), Q + R + 2)
    s = 0
    if not k.symbolic:
        na = 1 + _norm(k, a, n)
        s = na * na * (_norm(k, q, Q + 1) + _norm(k, r, R + 1))
    if not k.symbolic:
        k.ensure("p", lambda i: _small(k, p[i] + row(i), s), P + 1)
    if fixed == "given":
        k.ensure("fixed coefficient", _small(k, qr(fix) - 1, 1))
        if not k.symbolic:
            k.ensure("least squares", lambda l: k.implies(k.not_(k.eq(l, fix)),
                     lambda: _small(k, k.sum(lambda i: k.conj(mat(P + 1 + i, l)) * row(P + 1 + i), n - P - 1), s * na * na if s else 0)), Q + R + 2)
    elif not k.symbolic:
        k.ensure("a coefficient is 1", k.exists(lambda j: _small(k, qr(j) - 1, 1), Q + R + 2))
    k.frame()


def c_zero(k):
    """the zero function: hermite2_lstsq and pader return approximants that vanish identically"""
    P, Q, R = (k.int(x + "_deg", 0, bounded=(0, 1, 2)) for x in "pqr")
    n = k.dim("more", lo=0, bounded=(0, 1, 3)) + P + Q + R + 2
    a = k.derived("an", (n,), "f", lambda j: 0)
    p, q, r = k.call("gftool.hermpade.hermite2_lstsq", a, p_deg=P, q_deg=Q, r_deg=R)
    k.ensure_eq("p", p.coef, lambda i: 0, (P + 1,))
    k.ensure_eq("q", q.coef, lambda i: 0, (Q + 1,))
    k.ensure_eq("r", r.coef, lambda i: k.delta(i, 0), (R + 1,))
    x = k.call("gftool.hermpade.pader", a, num_deg=P, den_deg=Q)
    k.ensure_eq("pader numerator", x.numer.coef, lambda i: 0, (1,))
    k.ensure_eq("pader denominator", x.denom.coef, lambda i: 1, (1,))


def _poly(k, name, deg):
    """a polynomial of the given degree as numpy.polynomial.Polynomial"""
    c = k.complex(name, (deg + 1,))
    if k.symbolic:
        from dv.ext import Polynomial
    else:
        from numpy.polynomial import Polynomial
    return c, Polynomial(c.v)


def _val(k, c, x, deg):
    return k.sum(lambda j: c[j] * k.pow(x, j), deg + 1)


def _branches(k):
    P, Q, R = k.choice("degrees", [(1, 1, 1), (2, 1, 0)])
    p, pp = _poly(k, "p", P)
    q, qq = _poly(k, "q", Q)
    r, rr = _poly(k, "r", R)
    shape = (k.dim("m"),)
    z = k.complex("z", shape)
    vals = tuple((lambda c, D: lambda *i: _val(k, c, z[i], D))(c, D) for c, D in ((p, P), (q, Q), (r, R)))
    return (pp, qq, rr), vals, z, shape


def c_branches(k):
    """both branches solve p + q F + r F^2 = 0, and they are the two different solutions"""
    (p, q, r), (pz, qz, rz), z, sh = _branches(k)
    cls = k.choice("class", ["_Hermite2Base", "_Hermite2Ret"])
    ap = k.fn("gftool.hermpade." + cls)(p=p, q=q, r=r)
    if k.symbolic:
        k.assume_forall(lambda *i: k.not_(k.eq(rz(*i), 0)), *sh)
        k.assume_forall(lambda *i: k.not_(k.eq(pz(*i), 0)), *sh)
    else:
        import numpy as np
        zs = z.snap
        k.assume(bool(np.all(abs(r(zs)) > 0.05) and np.all(abs(p(zs)) > 0.05) and np.all(abs(q(zs)**2 - 4 * p(zs) * r(zs)) > 0.05)))
    b = k.call(ap.eval_branches, z)
    k.ensure("two branches", len(b) == 2)
    for nm, x in zip("+-", b):
        k.ensure_shape("branch " + nm, x, sh)
    f, g = (k.out(x) for x in b)
    tiny = lambda x, s: k.eq(x, 0) if k.symbolic else k.abs(x) <= k.frac(1, 10**8) * s
    sc = lambda *i: 0 if k.symbolic else k.abs(pz(*i)) + k.abs(qz(*i)) + k.abs(rz(*i)) + 1
    k.ensure("sum of the branches", lambda *i: tiny(rz(*i) * (f[i] + g[i]) + qz(*i), sc(*i) * (1 + k.abs(f[i]) + k.abs(g[i])) if not k.symbolic else 0), *sh)
    k.ensure("product of the branches", lambda *i: tiny(rz(*i) * f[i] * g[i] - pz(*i), sc(*i) * (1 + k.abs(f[i] * g[i])) if not k.symbolic else 0), *sh)
    k.frame()


def c_eval(k):
    """Hermite2.eval is one of the branches, the one closest to the Pade approximant; _Hermite2Ret.eval prefers positive spectral weight"""
    cls = k.choice("class", ["Hermite2", "_Hermite2Ret"])
    same = lambda a, b: k.eq(a, b) if k.symbolic else k.abs(a - b) <= k.frac(1, 10**9) * (1 + k.abs(b))
    C = k.fn("gftool.hermpade." + cls)
    if k.symbolic:
        # arbitrary branches and an arbitrary approximant in place of the bodies of the callees
        from types import SimpleNamespace
        sh = tuple(k.dim(d) for d in {"1": ("m",), "2": ("m", "l")}[k.choice("shape", ["1", "2"])])
        z = k.complex("z", sh)
        f, g, pd = k.complex("F", sh), k.complex("G", sh), k.complex("P", sh)
        ap = C(p=None, q=None, r=None, **({"pade": SimpleNamespace(eval=lambda x: pd.v)} if cls == "Hermite2" else {}))
        ap.eval_branches = lambda x: (k.as_array(f.v), k.as_array(g.v))
    else:
        import numpy as np
        (p, q, r), (pz, qz, rz), z, sh = _branches(k)
        zs = z.snap
        k.assume(bool(np.all(abs(r(zs)) > 0.05) and np.all(abs(p(zs)) > 0.05) and np.all(abs(q(zs)**2 - 4 * p(zs) * r(zs)) > 0.05)))
        num, np_ = _poly(k, "num", 1)
        den, dp_ = _poly(k, "den", 1)
        k.assume(bool(np.all(abs(dp_(zs)) > 0.05)))
        ap = C(p=p, q=q, r=r, **({"pade": k.fn("gftool.basis.RatPol")(np_, dp_)} if cls == "Hermite2" else {}))
        f, g = (k.out(x) for x in k.call(ap.eval_branches, z))
        if cls == "Hermite2":
            pv = k.call(ap.pade.eval, z)
            k.ensure_eq("Pade approximant", pv, lambda *i: _val(k, num, z[i], 1) / _val(k, den, z[i], 1), sh, tol=1e-7)
            pd = k.out(pv)
    res = k.call(ap.eval, z)
    if not k.ensure_shape("value", res, sh) and k.symbolic:
        return
    o = k.out(res)
    k.ensure("a branch", lambda *i: k.or_(same(o[i], f[i]), same(o[i], g[i])), *sh)
    if cls == "Hermite2":
        sl = lambda *i: 0 if k.symbolic else k.frac(1, 10**9) * (1 + k.abs(pd[i]) + k.abs(o[i]))
        for nm, x in (("p", f), ("m", g)):
            k.ensure("closest to the Pade approximant: " + nm, lambda *i: k.abs(o[i] - pd[i]) <= k.abs(x[i] - pd[i]) + sl(*i), *sh)
    else:
        neg = lambda x: k.im(x) <= 0
        # (the exact signs of the computed branches decide)
        k.ensure("positive spectral weight if a branch has it", lambda *i: k.implies(lambda: k.or_(neg(f[i]), neg(g[i])), lambda: neg(o[i])), *sh)
        k.ensure("smallest spectral weight otherwise", lambda *i: k.implies(lambda: k.and_(neg(f[i]), neg(g[i])), lambda: k.and_(k.im(o[i]) >= k.im(f[i]), k.im(o[i]) >= k.im(g[i]))), *sh)
        k.ensure("smallest violation otherwise", lambda *i: k.implies(lambda: k.and_(k.im(f[i]) > 0, k.im(g[i]) > 0), lambda: k.and_(k.im(o[i]) <= k.im(f[i]), k.im(o[i]) <= k.im(g[i]))), *sh)
    k.frame()


def c_hermite2_eval(k):
    """Hermite2.eval returns the branch closest to the Pade approximant"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    (p, q, r), _, z, sh = _branches(k)
    num, np_ = _poly(k, "num", 1)
    den, dp_ = _poly(k, "den", 1)
    from gftool.basis import RatPol
    zs = z.snap
    k.assume(bool(np.all(abs(r(zs)) > 0.05) and np.all(abs(p(zs)) > 0.05) and np.all(abs(q(zs)**2 - 4 * p(zs) * r(zs)) > 0.05) and np.all(abs(dp_(zs)) > 0.05)))
    ap = k.fn("gftool.hermpade.Hermite2")(p=p, q=q, r=r, pade=RatPol(np_, dp_))
    d = np.emath.sqrt(q(zs)**2 - 4 * p(zs) * r(zs) + 0j)
    f = (-q(zs) + np.array([d, -d])) / (2 * r(zs))
    pd = np_(zs) / dp_(zs)
    k.assume(bool(np.all(abs(abs(f[0] - pd) - abs(f[1] - pd)) > 1e-6)))
    want = np.where(abs(f[0] - pd) < abs(f[1] - pd), f[0], f[1])
    res = k.call(ap.eval, zs)
    k.ensure("closest branch", bool(np.shape(res) == np.shape(zs) and np.allclose(res, want, rtol=1e-7, atol=1e-9)))
    ret = k.fn("gftool.hermpade._Hermite2Ret")(p=p, q=q, r=r)
    res = k.call(ret.eval, zs)
    im = f.imag
    k.assume(bool(np.all(abs(im) > 1e-9)) and bool(np.all(abs(im[0] - im[1]) > 1e-9)))
    n_ret = (im <= 0).sum(0)
    want = np.where(n_ret == 1, np.where(im[0] <= 0, f[0], f[1]),            # the only one with positive spectral weight
                    np.where(n_ret == 2, np.where(im[0] >= im[1], f[0], f[1]),   # both: the smaller spectral weight
                             np.where(im[0] <= im[1], f[0], f[1])))              # none: the least violation
    k.ensure("retarded branch", bool(np.allclose(res, want, rtol=1e-7, atol=1e-9)))


def c_rational(k):
    """a rational function is reproduced by every approximant of sufficient degree; a quadratic irrationality by the Hermite-Pade approximant"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    hp = k.fn("gftool.hermpade")
    nd, dd = k.choice("degrees", [(0, 1), (1, 1), (1, 2), (2, 2), (2, 0)])
    num = k.real("num", (nd + 1,)).snap
    roots = k.complex("roots", (dd,)).snap if dd else np.zeros(0)
    k.assume(bool(np.all(abs(roots) < 3)))
    roots = np.exp(1j * roots.imag * 3) * (1.5 + abs(roots.real))
    k.assume(bool(abs(num).max() > 0.1 and abs(num[-1]) > 0.05))
    k.assume(all(abs(a - b) > 0.2 for i, a in enumerate(roots) for b in roots[:i]))
    zeros = np.roots(num[::-1]) if nd else np.zeros(0)
    k.assume(all(abs(a - b) > 0.2 for a in roots for b in zeros))
    den = np.polynomial.polynomial.polyfromroots(roots) if dd else np.ones(1)
    den = den / den[0]
    L = 12
    an = np.zeros(L, dtype=complex)
    for i in range(L):
        an[i] = ((num[i] if i <= nd else 0) - sum(den[j] * an[i - j] for j in range(1, min(i, dd) + 1))) / den[0]
    x = k.complex("x", (4,)).snap * 0.125
    ref = np.polynomial.polynomial.polyval(x, num) / np.polynomial.polynomial.polyval(x, den)
    ok = lambda y: bool(np.allclose(y, ref, rtol=1e-6, atol=1e-7))
    k.ensure("pade", ok(k.call("gftool.hermpade.pade", an, num_deg=nd, den_deg=dd).eval(x)))
    if dd:
        k.ensure("pade fast", ok(k.call("gftool.hermpade.pade", an, num_deg=nd, den_deg=dd, fast=True).eval(x)))
        k.ensure("pade_lstsq", ok(k.call("gftool.hermpade.pade_lstsq", an, num_deg=nd, den_deg=dd).eval(x)))
    rob = k.call("gftool.hermpade.pader", an, num_deg=nd, den_deg=dd)
    k.ensure("pader", ok(rob.eval(x)))
    more = k.choice("more", [1, 2])
    if dd:
        rob = k.call("gftool.hermpade.pader", an, num_deg=nd + more, den_deg=dd + more, rcond=1e-9)
        k.ensure("pader removes superfluous degrees", rob.denom.degree() <= dd)
        k.ensure("pader of larger degree", ok(rob.eval(x)))


def c_algebraic(k):
    """an algebraic function with p + q f + r f^2 = 0 is recovered from its Taylor series"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    which = k.choice("function", ["from_taylor", "from_taylor_lstsq"])
    a = k.real("a", (), lo=0.25, hi=1).snap
    b = k.real("b", (), lo=0.25, hi=1).snap
    k.assume(bool(abs(a - b) > 0.1))
    # f = sqrt((1 + a x)(1 + b x)) + 2: (f-2)^2 = (1 + a x)(1 + b x)
    L = 12
    s2 = np.zeros(L)
    s2[:3] = [1, a + b, a * b]
    s = np.zeros(L)
    s[0] = 1
    for n in range(1, L):
        s[n] = (s2[n] - sum(s[j] * s[n - j] for j in range(1, n))) / 2
    an = s.copy()
    an[0] += 2
    x = 0.25 * k.complex("x", (5,)).snap
    k.assume(bool(np.all(abs(x) < 0.45)))
    f = np.sqrt((1 + a * x) * (1 + b * x)) + 2
    ap = getattr(k.fn("gftool.hermpade.Hermite2"), which)(an[:L if which == "from_taylor_lstsq" else None], 2, 0, 0)
    k.ensure("recovered", bool(np.allclose(ap.eval(x), f, rtol=1e-5, atol=1e-5)))


def c_from_taylor(k):
    """the class methods build p, q, r with hermite2 / hermite2_lstsq of the given degrees, and a Pade approximant of the same series"""
    cls = k.choice("class", ["Hermite2", "_Hermite2Ret"])
    which = k.choice("function", ["from_taylor", "from_taylor_lstsq"])
    P, Q, R = (k.int(x + "_deg", 0, 3, bounded=(0, 1, 2)) for x in "pqr")
    n, a = _an(k, lmin=P + Q + R + 2)
    kw = {}
    lst = which == "from_taylor_lstsq"
    if lst:
        k.assume(k.exists(lambda j: k.not_(k.eq(a[j], 0)), n))
        fix = k.int("fix_qr", 0, Q + R + 1)
        kw = dict(fix_qr=fix, rcond=1e-13) if k.choice("fixed", [False, True]) else {}
    hp = k.fn("gftool.hermpade")
    if k.symbolic:
        # the callees by their contracts: arbitrary polynomials for the arguments they are given
        from types import SimpleNamespace
        C = {x: k.complex("c" + x, (D + 1,)) for x, D in zip("pqr", (P, Q, R))}
        polys = tuple(SimpleNamespace(coef=C[x].v) for x in "pqr")
        seen = {}

        def hermite(an, p_deg, q_deg, r_deg, rcond=None, fix_qr=None):
            seen["h"] = dict(an=an, deg=(p_deg, q_deg, r_deg), rcond=rcond, fix_qr=fix_qr)
            return polys

        def pade(an, num_deg, den_deg, rcond=None, **kw_):
            seen["p"] = dict(an=an, deg=(num_deg, den_deg))
            return SimpleNamespace(tag=1)
        k.stub("gftool.hermpade.hermite2" + ("_lstsq" if lst else ""), hermite)
        k.stub("gftool.hermpade.pade" + ("_lstsq" if lst else ""), pade)
        ap = k.call(getattr(getattr(hp, cls), which), a, deg_p=P, deg_q=Q, deg_r=R, **kw)
        k.ensure("p, q and r handed on", ap.p is polys[0] and ap.q is polys[1] and ap.r is polys[2])
        h = seen["h"]
        k.ensure("degrees handed on", k.and_(*(k.eq(x, y) for x, y in zip(h["deg"], (P, Q, R)))))
        k.ensure_eq("series handed on", h["an"], lambda i: a[i], (n,))
        if lst:
            k.ensure("options handed on", k.and_(h["rcond"] == kw.get("rcond"), k.eq(h["fix_qr"], fix) if kw else h["fix_qr"] is None))
        if cls == "Hermite2":
            k.ensure("branch chosen with the Pade approximant", getattr(ap.pade, "tag", 0) == 1)
            k.ensure_eq("series of the Pade approximant", seen["p"]["an"], lambda i: a[i], (n,))
            M, N = seen["p"]["deg"]
            k.ensure("order of the Pade approximant", k.and_(0 <= N, M + N <= n - 1, P + Q + R - 1 <= M + N))
        k.frame()
        return
    ap = k.call(getattr(getattr(hp, cls), which), a, deg_p=P, deg_q=Q, deg_r=R, **kw)
    want = k.call("gftool.hermpade.hermite2" + ("_lstsq" if lst else ""), a, p_deg=P, q_deg=Q, r_deg=R, **kw)
    for nm, x, y, D in zip("pqr", (ap.p, ap.q, ap.r), want, (P, Q, R)):
        c = _coef(k, y)
        k.ensure_eq(nm, x.coef, lambda i, c=c: c[i], (D + 1,))
    if cls == "Hermite2" and not k.symbolic and not lst:
        pn, qn = _coef(k, ap.pade.numer), _coef(k, ap.pade.denom)
        M, N = len(ap.pade.numer.coef) - 1, len(ap.pade.denom.coef) - 1
        k.ensure("order of the Pade approximant", bool(P + Q + R - 1 <= M + N <= n - 1))
        sc = _norm(k, a, n) * _norm(k, qn, N + 1)
        k.ensure("Pade approximant", lambda i: _small(k, _conv(k, qn, a, i, N) - (pn[i] if i <= M else 0), sc), M + N + 1)
    k.frame()
