"""C19 linear prediction"""


def _close(k, a, b, tol=8):
    return k.eq(a, b) if k.symbolic else k.abs(a - b) <= k.frac(1, 10**tol) * (1 + k.abs(b))


def _arr(k, name, shape, cplx, **kw):
    if cplx == "int":
        kw["kind"] = "i"
    return k.complex(name, shape, **kw) if cplx == "complex" else k.real(name, shape, **kw)


def c_companion(k):
    """first row -a[1:]/a[0], ones below the diagonal, zero elsewhere"""
    n = k.dim("n", lo=2, bounded=(2, 3, 4))
    bs = tuple(k.dim(d) for d in {"0": (), "1": ("b",), "2": ("b", "c")}[k.choice("layout", ["0", "1", "2"])])
    t = k.choice("dtype", ["real", "complex", "int"])
    a = k.complex("a", bs + (n,), im="nonzero") if t == "complex" else k.real("a", bs + (n,), pos=True, kind="i" if t == "int" else "f")
    r = k.call("gftool.linearprediction.companion", a)
    k.ensure_eq("companion matrix", r, lambda *i: k.ite(k.eq(i[-2], 0), lambda: -a[i[:-2] + (i[-1] + 1,)] / a[i[:-2] + (0,)],
                                                        lambda: k.ite(k.eq(i[-2], i[-1] + 1), 1, 0)), bs + (n - 1, n - 1))
    k.frame()


def c_companion_error(k):
    """a vanishing leading coefficient or less than two coefficients: ValueError"""
    which = k.choice("error", ["zero", "short", "zero in batch"])
    n = k.dim("n", lo=2, bounded=(2, 3))
    if which == "zero":
        a = k.real("a", (n,))
        k.assume(k.eq(a[0], 0)) if k.symbolic else None
        if not k.symbolic:
            a = k.derived("a0", (n,), "f", lambda j: k.ite(k.eq(j, 0), 0, lambda: a[j]))
        k.call_raises(ValueError, True, "gftool.linearprediction.companion", a)
    elif which == "short":
        a = k.real("a", (1,), pos=True)
        k.call_raises(ValueError, True, "gftool.linearprediction.companion", a)
    else:
        b = k.dim("b")
        a = k.real("a", (b, n))
        l = k.int("l", 0, bounded=(0, 1))
        k.assume(l < b)
        if k.symbolic:
            k.assume(k.eq(a[l, 0], 0))
        else:
            a = k.derived("a0", (b, n), "f", lambda i, j: k.ite(k.and_(k.eq(j, 0), k.eq(i, l)), 0, lambda: a[i, j]))
        k.call_raises(ValueError, True, "gftool.linearprediction.companion", a)


def c_predict(k):
    """the data are kept and extended by x_n = -sum_k a_k x_(n-1-k) for every order, length and number of steps"""
    k.need_loops()
    t, ta = k.choice("dtypes", [("real", "real"), ("complex", "complex"), ("int", "real"), ("real", "complex"), ("int", "int")])
    bs = {"0": (), "1": (k.dim("b"),)}[k.choice("layout", ["0", "1"])]
    K = k.dim("order", bounded=(1, 2, 3))
    N = K + k.int("more", 0, bounded=(0, 1, 3))
    num = k.int("num", 0, bounded=(0, 1, 2, 5))
    x = _arr(k, "x", bs + (N,), t)
    a = _arr(k, "a", bs + (K,), ta)
    t = "complex" if "complex" in (t, ta) else "real"
    kind = "c" if t == "complex" else "f"
    XX = lambda *i: k.ite(i[-1] < N, lambda: x[i], lambda: X(*i))
    # written like the sum over the reversed coefficients: a_(K-1-m) x_(n-K+m)
    rec = lambda *i: -k.sum(lambda m: a[i[:-1] + (K - 1 - m,)] * XX(*i[:-1], i[-1] - K + m), K)
    X = k.ghost("X", rec, kind=kind, arity=len(bs) + 1)
    k.loop("gftool.linearprediction.predict",
           lambda i: {"xtended": (bs + (N + num,), lambda *j: k.ite(j[-1] < i, lambda: XX(*j), k.nan))},
           new=lambda i: i, ghosts=[X], first=N)
    r = k.call("gftool.linearprediction.predict", x, a, num)
    if not k.ensure_shape("predicted", r, bs + (N + num,)) and k.symbolic:
        return
    o = k.out(r)
    k.ensure("data kept, prediction x_n = -sum_k a_k x_(n-1-k)", lambda *i: _close(k, o[i], XX(*i), 7), *bs, N + num)
    k.frame()


def c_predict_error(k):
    """a negative number of steps: ValueError"""
    x, a = k.real("x", (k.dim("n", lo=2),)), k.real("a", (1,))
    num = k.int("num", -3, bounded=(-2, -1, 0, 1)) if not k.symbolic else k.int("num", -10**6)
    stable = k.choice("stable", [False, True])
    if k.symbolic:
        k.assume(num < 0)
        k.call_raises(ValueError, True, "gftool.linearprediction.predict", x, a, num, stable)
    else:
        k.call_raises(ValueError, num < 0, "gftool.linearprediction.predict", x, a, int(num), stable)


def c_predict_stable(k):
    """stable=True: the modes of the recursion with modulus above 1 are dropped, the others are kept"""
    t, ta = k.choice("dtypes", [("complex", "complex"), ("real", "real"), ("int", "real"), ("real", "complex")])
    bs = {"0": (), "1": (k.dim("b"),)}[k.choice("layout", ["0", "1"])]
    K = k.dim("order", bounded=(1, 2, 3))
    N = K + k.int("more", 0, bounded=(0, 1, 3))
    num = k.int("num", 0, bounded=(0, 1, 2, 5))
    x = _arr(k, "x", bs + (N,), t)
    a = _arr(k, "a", bs + (K,), ta)
    t = "complex" if "complex" in (t, ta) else "real"
    if k.symbolic:
        k.need_loops()
        rv, rvi, eig = (k.complex(n, bs + s) for n, s in (("rv", (K, K)), ("rv_inv", (K, K)), ("eig", (K,))))

        def dec(mat):
            k.ensure_eq("decomposed matrix is the companion matrix", mat,
                        lambda *i: k.ite(k.eq(i[-2], 0), lambda: -a[i[:-2] + (i[-1],)], lambda: k.ite(k.eq(i[-2], i[-1] + 1), 1, 0)), bs + (K, K))
            return k.fn("gftool.matrix.Decomposition")(rv=rv.v, eig=eig.v, rv_inv=rvi.v)
        k.stub("gftool.matrix.decompose_mat", dec)
        res = lambda *i: k.ite(k.abs(eig[i]) > 1, 0, lambda: rv[i[:-1] + (0, i[-1])] * k.sum(lambda m: rvi[i + (m,)] * x[i[:-1] + (N - 1 - m,)], K))
        val = lambda *j: k.sum(lambda m: res(*j[:-1], m) * k.pow(eig[j[:-1] + (m,)], j[-1] - N + 1), K)
        cast = (lambda v: v) if t == "complex" else k.re
        k.loop("gftool.linearprediction._predict_stable",
               lambda i: {"xtended": (bs + (N + num,), lambda *j: k.ite(j[-1] < N, lambda: x[j], lambda: k.ite(j[-1] < i, lambda: cast(val(*j)), k.nan))),
                          "residues": (bs + (K,), lambda *j: res(*j) * k.pow(eig[j], i - N))},
               new=lambda i: i, ghosts=[], first=N)
        r = k.call("gftool.linearprediction.predict", x, a, num, stable=True)
        k.ensure_eq("data and damped modes", r, lambda *j: k.ite(j[-1] < N, lambda: x[j], lambda: cast(val(*j))), bs + (N + num,))
        k.frame()
        return
    import numpy as np
    xs, as_ = x.snap, a.snap
    comp = lambda q: np.vstack([-q[None, :], np.eye(len(q))[:-1]])
    flat = [(xs, as_)] if not bs else list(zip(xs, as_))
    want = []
    for xx, aa in flat:
        e, v = np.linalg.eig(comp(aa))
        k.assume(bool(np.linalg.cond(v) < 1e3 and np.all(abs(abs(e) - 1) > 1e-6)))
        c = np.linalg.solve(v, xx[::-1][:len(aa)])
        m = abs(e) <= 1
        want.append([*xx, *((v[0, m] * c[m] * e[m]**(l + 1)).sum() for l in range(int(num)))])
    want = np.array(want) if bs else np.array(want[0])
    r = np.asarray(k.call("gftool.linearprediction.predict", x, a, int(num), stable=True))
    ok = r.shape == want.shape and r.dtype == (complex if t == "complex" else float)
    k.ensure("data and damped modes", bool(ok and np.allclose(r, want if t == "complex" else want.real, rtol=1e-6, atol=1e-6 * (1 + abs(want).max(initial=0)))))
    k.frame()


def c_covar(k):
    """covariance method: the coefficients minimise sum_n |x_n + sum_k a_k x_(n-1-k)|^2 (normal equations), the error is that norm"""
    t = k.choice("dtype", ["real", "complex"])
    bs = {"0": (), "1": (k.dim("b"),)}[k.choice("layout", ["0", "1"])]
    K = k.dim("order", lo=1, bounded=(1, 2, 3))
    N = 2 * K + k.int("more", 0, bounded=(0, 1, 2))
    x = _arr(k, "x", bs + (N,), t)
    r = k.call("gftool.linearprediction.pcoeff_covar", x, K if k.symbolic else int(K))
    a, err = r
    k.ensure_shape("coefficients", a, bs + (K,))
    k.ensure_shape("error", err, bs)
    a, err = k.out(a), k.out(err)
    e = lambda i, n: x[i + (n + K,)] + k.sum(lambda l: a[i + (l,)] * x[i + (n + K - 1 - l,)], K)
    k.ensure("normal equations", lambda *i: _zero(k, k.sum(lambda n: k.conj(x[i[:-1] + (n + K - 1 - i[-1],)]) * e(i[:-1], n), N - K)), *bs, K)
    k.ensure("error", lambda *i: _close(k, err[i]**2, k.sum(lambda n: k.abs(e(i, n))**2, N - K), 7), *bs)
    k.ensure("error >= 0", lambda *i: err[i] >= 0, *bs)
    k.frame()


def _zero(k, v, tol=7):
    return k.eq(v, 0) if k.symbolic else k.abs(v) <= k.frac(1, 10**tol)


def c_covar_error(k):
    """the order has to be smaller than the number of data points"""
    N = k.dim("n", lo=1, bounded=(1, 2, 3, 4))
    K = k.dim("order", lo=1, bounded=(1, 2, 3, 4, 5))
    x = k.real("x", (N,))
    if k.symbolic:
        k.assume(K >= N)
        k.call_raises(ValueError, True, "gftool.linearprediction.pcoeff_covar", x, K)
    else:
        k.call_raises(ValueError, K >= N, "gftool.linearprediction.pcoeff_covar", x, int(K))


def c_burg(k):
    """Burg's method: Levinson recursion with the reflection coefficients that minimise forward plus backward error"""
    k.need_loops()
    t = k.choice("dtype", ["real", "complex"] if k.symbolic else ["real", "complex", "int"])
    bs = {"0": (), "1": (k.dim("b"),)}[k.choice("layout", ["0", "1"])]
    K = k.dim("order", lo=1, bounded=(1, 2, 3))
    N = K + 1 + k.int("more", 0, bounded=(0, 1, 2))
    x = _arr(k, "x", bs + (N,), t)
    kind = "c" if t == "complex" else "f"
    nb = len(bs)
    cj = k.conj if t == "complex" else (lambda v: v)
    # forward and backward errors (batch..., j, order), order counted from 1
    FF = lambda *i: k.ite(k.eq(i[-1], 1), lambda: x[i[:-2] + (i[-2] + 1,)], lambda: F(*i))
    BB = lambda *i: k.ite(k.eq(i[-1], 1), lambda: x[i[:-2] + (i[-2],)], lambda: B(*i))
    kap = lambda b, q: -2 * k.sum(lambda j: FF(*b, j, q) * cj(BB(*b, j, q)), N - q) / (k.sum(lambda j: k.abs(FF(*b, j, q))**2, N - q) + k.sum(lambda j: k.abs(BB(*b, j, q))**2, N - q))
    F = k.ghost("F", lambda *i: FF(*i[:-2], i[-2] + 1, i[-1] - 1) + kap(i[:-2], i[-1] - 1) * BB(*i[:-2], i[-2] + 1, i[-1] - 1), kind=kind, arity=nb + 2)
    B = k.ghost("B", lambda *i: BB(*i[:-1], i[-1] - 1) + cj(kap(i[:-2], i[-1] - 1)) * FF(*i[:-1], i[-1] - 1), kind=kind, arity=nb + 2)
    # coefficients (batch..., l, order + 1)
    A = k.ghost("A", lambda *i: k.ite(k.eq(i[-2], i[-1] - 2), lambda: kap(i[:-2], i[-1] - 1),
                                      lambda: A(*i[:-1], i[-1] - 1) + kap(i[:-2], i[-1] - 1) * cj(A(*i[:-2], i[-1] - 3 - i[-2], i[-1] - 1))), kind=kind, arity=nb + 2)
    RR = lambda *i: k.ite(k.eq(i[-1], 1), lambda: k.sum(lambda j: k.abs(x[i[:-1] + (j,)])**2, N) / N, lambda: R(*i))
    R = k.ghost("R", lambda *i: (1 - k.abs(kap(i[:-1], i[-1] - 1))**2) * RR(*i[:-1], i[-1] - 1), kind="f", arity=nb + 1)
    k.loop("gftool.linearprediction.pcoeff_burg",
           lambda i: {"eforw": (bs + (N - i,), lambda *j: FF(*j, i)), "eback": (bs + (N - i,), lambda *j: BB(*j, i)),
                      "a": (bs + (K, K), lambda *j: k.ite(k.and_(j[-2] < i - 1, j[-1] <= j[-2]), lambda: A(*j[:-2], j[-1], j[-2] + 2), k.nan)),
                      "rho": (bs + (K + 1,), lambda *j: k.ite(j[-1] < i, lambda: RR(*j[:-1], j[-1] + 1), k.nan))},
           new=lambda i: i + 1, ghosts=[F, B, A, R], first=1)
    a, sig2 = k.call("gftool.linearprediction.pcoeff_burg", x, K if k.symbolic else int(K))
    k.ensure_shape("coefficients", a, bs + (K,))
    k.ensure_shape("variance", sig2, bs)
    a, sig2 = k.out(a), k.out(sig2)
    k.ensure("coefficients", lambda *i: _close(k, a[i], A(*i, K + 1), 6), *bs, K)
    k.ensure("variance", lambda *i: _close(k, sig2[i], RR(*i, K + 1), 6), *bs)
    k.frame()


def c_burg_stable(k):
    """Burg's coefficients are stable: all roots inside the unit circle, and the error variance lies between 0 and the power of the signal"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    N = k.choice("N", [4, 6, 9])
    K = k.choice("K", [1, 2, 3])
    t = k.choice("dtype", ["real", "complex"])
    x = _arr(k, "x", (N,), t).snap
    k.assume(bool(np.max(abs(x)) > 0.1))
    a, s = k.call("gftool.linearprediction.pcoeff_burg", x, K)
    k.assume(bool(s > 1e-8 * np.mean(abs(x)**2)))
    k.ensure("stable", bool(np.all(abs(np.roots([1, *a])) <= 1 + 1e-6)))
    k.ensure("variance", bool(0 <= s <= np.mean(abs(x)**2) * (1 + 1e-12)))
    kk = a[-1]
    k.ensure("reflection coefficient", bool(abs(kk) <= 1 + 1e-9))


def c_exponentials(k):
    """sums of `order` damped exponentials are predicted exactly by the covariance method, with or without stable=True"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    K = k.choice("K", [1, 2, 3])
    N = 2 * K + k.choice("more", [0, 1, 4])
    num = k.choice("num", [0, 1, 7])
    b = k.dim("b", bounded=(1, 2, 3))
    mod = k.real("mod", (b, K), lo=0.5, hi=0.95).snap
    ph = k.real("phase", (b, K), lo=-3, hi=3).snap
    w = k.complex("w", (b, K)).snap
    z = mod * np.exp(1j * ph)
    k.assume(bool(np.all(abs(w) > 0.2)))
    for q in z:
        k.assume(bool(all(abs(q[i] - q[j]) > 0.3 for i in range(K) for j in range(i))))
    full = (w[..., None] * z[..., None]**np.arange(N + num)).sum(1)
    x = np.ascontiguousarray(full[:, :N])
    a, err = k.call("gftool.linearprediction.pcoeff_covar", x, K)
    k.ensure("no error", bool(np.all(err < 1e-7)))
    for st in (False, True):
        r = k.call("gftool.linearprediction.predict", x, a, num, stable=st)
        k.ensure("continued", bool(r.shape == full.shape and np.allclose(r, full, rtol=1e-4, atol=1e-5)))
