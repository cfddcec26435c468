"""C17 Pade analytic continuation: Thiele interpolation, selection, filters and averages"""


def _recip(k, f, z, n):
    """g_0(j) = f_j, g_(i+1)(j) = (g_i(i)/g_i(j) - 1)/(z_j - z_i); returns the g_i(i)"""
    g = [f(j) for j in range(n)]
    out = []
    for i in range(n):
        out.append(g[i])
        g = [None if j <= i else (g[i] / g[j] - 1) / (z(j) - z(i)) for j in range(n)]
    return out


def _cf(k, a, x, z, n):
    """a_0/(1 + a_1 (x-z_0)/(1 + a_2 (x-z_1)/(1 + ...))) with n coefficients"""
    r = 1
    for i in range(n - 1, 0, -1):
        r = 1 + a(i) * (x - z(i - 1)) / r
    return a(0) / r


def _conc(x):
    import numpy as np
    return np.asarray(x)


def _tame(k, arr, lim=1e4):
    """discard nearly singular examples in concrete evaluations"""
    if not k.symbolic:
        import numpy as np
        k.assume(bool(np.all(np.isfinite(arr)) and np.all(abs(arr) < lim)))


def _points(k, n, name="z_in"):
    """distinct interpolation points"""
    z = k.complex(name, (n,), im="pos")
    if not k.symbolic:
        z = k.derived(name + "_", (n,), "c", lambda j: k.re(z[j]) / 4 + 1j * (k.im(z[j]) / 4 + 1 + 2 * j))
    return z


def c_coefficients(k):
    """coefficients are the inverse differences of the data"""
    n = k.choice("n", [1, 2, 3, 4])
    lay = k.choice("layout", ["1", "2", "3"])
    bs = tuple(k.dim(d) for d in {"1": (), "2": ("b",), "3": ("b", "c")}[lay])
    z = _points(k, n)
    f = k.complex("fct_z", bs + (n,), im="nonzero")
    r = k.call("gftool.pade.coefficients", z, f)
    if not k.symbolic:
        _tame(k, _conc(r))
        k.stable("gftool.pade.coefficients", z, f, at=1)
    k.ensure_shape("coefficients", r, bs + (n,))
    o = k.out(r)
    for j in range(n):
        k.ensure(f"a_{j}", lambda *i: _same(k, o[i + (j,)], _recip(k, lambda l: f[i + (l,)], lambda l: z[l], n)[j]), *bs)
    k.frame()


c_coefficients.bounded = "label"


def _same(k, a, b, tol=6):
    return k.eq(a, b) if k.symbolic else k.abs(a - b) <= k.frac(1, 10**tol) * (1 + k.abs(b))


def c_coefficients_shape(k):
    n, m = k.dim("n"), k.dim("m")
    z = k.complex("z", (n,), im="pos")
    f = k.complex("f", (m,), im="nonzero")
    k.assume(n + 1 <= m)
    k.call_raises(ValueError, True, "gftool.pade.coefficients", z, f)


def c_values(k):
    """calc_iterator yields the continued fractions with 2, 3, ... coefficients, at points of any shape"""
    n = k.choice("n", [2, 3, 4])
    lay = k.choice("layout", ["1", "2"])
    zl = k.choice("z_out", ["0", "1", "2"])
    bs = (k.dim("b"),) if lay == "2" else ()
    zs = tuple(k.dim(d) for d in {"0": (), "1": ("m",), "2": ("m", "l")}[zl])
    z = _points(k, n)
    a = k.complex("coeff", bs + (n,), im="nonzero")
    x = k.complex("z_out", zs, im="neg", layout="array")
    r = list(k.call("gftool.pade.calc_iterator", x, z, a))
    k.ensure("number of approximants", len(r) == n - 1)
    for m, p in enumerate(r[:n - 1]):
        if not k.symbolic:
            _tame(k, _conc(p), 1e3)
        nb = len(bs)
        k.ensure_eq(f"approximant of {m + 2} points", p, lambda *i: _cf(k, lambda l: a[i[:nb] + (l,)], x[i[nb:]], lambda l: z[l], m + 2), bs + zs, tol=1e-6)
    k.frame()


c_values.bounded = "label"


def c_interpolate(k):
    """the approximant of m points reproduces the function at the first m points"""
    n = k.choice("n", [2, 3] if k.symbolic else [2, 3, 4])
    lay = k.choice("layout", ["1", "2"])
    bs = (k.dim("b"),) if lay == "2" else ()
    nb = len(bs)
    z = _points(k, n)
    f = k.complex("fct_z", bs + (n,), im="nonzero")
    a = k.call("gftool.pade.coefficients", z, f)
    if not k.symbolic:
        _tame(k, _conc(a), 50)
        _tame(k, 1 / _conc(a), 1e3)
        k.stable("gftool.pade.coefficients", z, f, at=1)
        import numpy as np
        zz, aa = np.array([complex(z[j].v) for j in range(n)]), _conc(a)
        for x in range(n):        # no denominator of the continued fraction nearly vanishes at the points
            b = np.ones(aa.shape[:-1], complex)
            for l in range(1, n):
                b = 1 + (zz[x] - zz[l - 1]) * aa[..., l] / b
                k.assume(bool(np.all(abs(b) > 1e-2)))
    r = list(k.call("gftool.pade.calc_iterator", z, z, a))
    for m, p in enumerate(r):
        k.ensure_shape("approximant", p, bs + (n,))
        o = k.out(p)
        for j in range(m + 2):
            k.ensure(f"{m + 2} points: value {j}", lambda *i: _same(k, o[i + (j,)], f[i + (j,)], 5), *bs)
    k.frame()


c_interpolate.bounded = "label"


def c_rational(k):
    """a function of the form w1/(z-p1) + w2/(z-p2) is continued exactly from 4 points"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    n = 4
    p = k.real("p", (2,)).snap
    w = k.real("w", (2,), lo=0.25, hi=1).snap
    k.assume(bool(abs(p[0] - p[1]) > 0.125))
    z = 1j * np.array([0.5, 1.5, 2.5, 4.0])
    x = k.complex("x", (3,), im="nonneg").snap + 0.25j
    g = lambda s: (w / (s[..., None] - p)).sum(-1)
    pade = k.fn("gftool.pade")
    r = list(pade.calc_iterator(x, z, pade.coefficients(z, g(z))))[-1]
    k.ensure("exact", bool(np.allclose(r, g(x), rtol=1e-5, atol=1e-7)))
    # masked coefficients: redundant points are eliminated, the function stays exact
    k.assume(bool(abs(p[0] - p[1]) > 0.5 and np.max(abs(p)) < 3))     # the cut-off 1e-4 of the elimination
    z6 = 1j * np.array([0.5, 1.5, 2.5, 4.0, 5.5, 7.0, 8.5])
    c = pade.masked_coefficients(z6, g(z6))
    r = list(pade.calc_iterator(x, z6, c))[-1]
    k.ensure("masked: finite", bool(np.all(np.isfinite(r))))
    k.ensure("masked", bool(np.allclose(r, g(x), rtol=1e-2, atol=1e-2)))


def c_kind(k):
    """KindGf/KindSelf select every second approximant: even (1/z tail) or odd (constant tail) number of points between n_min and n_max"""
    kind = k.choice("kind", ["KindGf", "KindSelf"])
    if not k.symbolic:
        n1, n2 = k.int("n_min", -2, 12), k.int("n_max", 0, 24)
    else:
        n1, n2 = k.choice("nmin", list(range(-1, 5))), k.choice("nmax", list(range(0, 9)))
    n1, n2 = int(n1), int(n2)
    odd = n1 % 2 == 1
    first = n1 + (0 if odd == (kind == "KindGf") else 1)
    s = k.call_raises(ValueError, first < 1 or n2 <= first, "gftool.pade." + kind, n1, n2)
    want = [i for i in range(max(n2, 0)) if first - 1 <= i < n2 - 1 and (i - first + 1) % 2 == 0]
    k.ensure("selected", list(s.islice(iter(range(n2 + 5)))) == want)
    k.ensure("slice", list(range(n2 + 5))[s.slice] == want)
    k.ensure("length", len(s) == len(want))
    k.ensure("index", all(s[i] == want[i] for i in range(len(want))))
    k.ensure("number of points", all((i + 2) % 2 == (0 if kind == "KindGf" else 1) for i in want))


c_kind.bounded = True


def c_kind_slice(k):
    """for all integers n_min, n_max: the slice of KindGf/KindSelf starts at the first approximant with the right tail, ends before n_max and has stride 2"""
    kind = k.choice("kind", ["KindGf", "KindSelf"])
    n1, n2 = k.int("n_min", -3, 30), k.int("n_max", -3, 60)
    odd = n1 % 2
    first = n1 + (1 - odd if kind == "KindGf" else odd)
    s = k.call_raises(ValueError, k.or_(first < 1, n2 <= first), "gftool.pade." + kind, n1, n2)
    sl = s.slice
    k.ensure("start", k.eq(sl.start, first - 1))
    k.ensure("stop", k.eq(sl.stop, n2 - 1))
    k.ensure("stride", k.eq(sl.step, 2))


def c_tail(k):
    """even number of points: approximant decays like 1/z; odd: tends to a constant"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    n = k.choice("n", [4, 5, 6])
    z = _points(k, n).snap
    p = k.real("poles", (4,)).snap
    w = k.real("w", (4,), lo=0.25, hi=1).snap
    k.assume(bool(np.min(abs(np.diff(np.sort(p)))) > 0.125))
    f = (w / (z[:, None] - p)).sum(-1) + 0.3
    pade = k.fn("gftool.pade")
    c = pade.coefficients(z, f)
    k.assume(bool(np.all(np.isfinite(c)) and np.all(abs(c) < 1e3) and np.all(abs(c) > 1e-3)))
    x = np.array([1e7j, 2e7j])
    its = list(pade.calc_iterator(x, z, c))
    for i, r in enumerate(its):
        if not np.all(np.isfinite(r)):
            continue
        scale = abs(r[1] / r[0])
        if abs(r[0]) > 1e-9 or True:
            want = 0.5 if i % 2 == 0 else 1.0
            k.ensure(f"tail of approximant {i}", bool(abs(scale - want) < 0.05))


def c_filter_neg_imag(k):
    """an approximant is valid exactly if its imaginary part is below the threshold at all points"""
    P = k.choice("P", [1, 2, 3])
    lay = k.choice("layout", ["1", "2"])
    bs = (k.dim("b"),) if lay == "2" else ()
    m = k.dim("m")
    ps = [k.complex(f"pade{i}", bs + (m,), special=(0, -1)) for i in range(P)]
    th = k.choice("threshold", ["default", "given"])
    t = k.real("t", lo=-0.5, hi=0.5) if th == "given" else None
    flt = k.call("gftool.pade.FilterNegImag", *(() if t is None else (t,)))
    r = k.call(flt, iter([p.v if k.symbolic else p.snap for p in ps]))
    k.ensure_shape("valid", r, (P,) + bs)
    o = k.out(r)
    tv = t.e if t is not None else k.frac(1, 10**8)
    for i in range(P):
        def cond(*j):
            ok = k.forall(lambda l: k.im(ps[i][j + (l,)]) < tv, m)
            return k.eq(o[(i,) + j], ok) if k.symbolic else bool(_conc(r)[(i,) + tuple(int(x) for x in j)]) == bool((ps[i].snap[tuple(int(x) for x in j)].imag < (float(t.snap) if t is not None else 1e-8)).all())
        k.ensure(f"valid {i}", cond, *bs)
    k.frame()


c_filter_neg_imag.bounded = "label"


def c_filter_num(k):
    """FilterNegImagNum keeps the abs_num best and all without positive imaginary part; FilterHighVariance keeps abs_num and drops outliers"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    P, m = k.choice("P", [1, 2, 3, 5, 8]), k.dim("m")
    num = k.choice("num", [1, 2, 4])
    rel = k.choice("rel", [False, True])
    pade = k.fn("gftool.pade")
    kw = dict(rel_num=num / 5) if rel else dict(abs_num=num)
    N = int(num / 5 * P) if rel else num
    if k.choice("layout", ["1", "2"]) == "2":       # every Green's function of the stack has its own best approximants
        B = k.dim("b")
        p = k.complex("stacked", (P, B, m)).snap
        r = k.call(k.call("gftool.pade.FilterNegImagNum", **kw), iter(p.copy()))
        bad = p.imag.max(-1)
        k.assume(all(len(set(bad[:, j])) == P for j in range(B)))
        want = np.array([[N >= P or bad[i, j] <= 0 or int(np.sum(bad[:, j] < bad[i, j])) < N for j in range(B)] for i in range(P)])
        k.ensure("best are kept", bool(np.array_equal(r, want)))
        return
    p = k.complex("pades", (P, m)).snap
    r = k.call(k.call("gftool.pade.FilterNegImagNum", **kw), iter(p.copy()))
    bad = p.imag.max(-1)
    if N >= P:
        want = np.ones(P, bool)
    else:
        want = bad <= 0
        want[sorted(range(P), key=lambda i: bad[i])[:N]] = True
    distinct = len(set(bad)) == P
    if distinct:
        k.ensure("best are kept", bool(np.array_equal(r, want)))
    if N >= 1:
        q = p * 0.01
        out = k.choice("outlier", [0, -1])
        q[out] += 100
        r = k.call(k.call("gftool.pade.FilterHighVariance", **kw), iter(q.copy()))
        k.ensure("number kept", bool(np.count_nonzero(r) == min(N, P)))
        k.ensure("shape", r.shape == (P,) and r.dtype == bool)
        if N < P and P > 2:
            k.ensure("outlier dropped", not bool(r[out]))


def _valid(k, P, bs):
    import numpy as np
    v = k.real("valid", (P,) + bs, lo=0, hi=1).snap > 0.4
    return v


def c_average(k):
    """Averager: mean and standard deviation over the valid selected approximants; errors for wrong types and if nothing is valid"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    n = k.choice("n", [5, 6, 8])
    lay = k.choice("layout", ["1", "2"])
    bs = (k.dim("b", bounded=(1, 2, 3)),) if lay == "2" else ()
    zl = k.choice("z", ["1", "2"])
    z = _points(k, n).snap
    f = k.complex("fct_z", bs + (n,), im="neg").snap
    x = k.complex("x", (k.dim("m"),) + ((2,) if zl == "2" else ()), im="pos").snap
    pade = k.fn("gftool.pade")
    kn = k.choice("kind", ["KindGf", "KindSelf"])
    kind = getattr(pade, kn)(1 if kn == "KindGf" else 2, n)
    c = pade.coefficients(z, f)
    k.assume(bool(np.all(np.isfinite(c)) and np.all(abs(c) < 1e3)))
    its = list(pade.calc_iterator(x, z, c))
    sel = [its[i] for i in range(kind.start, n - 1, 2) if i < n - 1]
    P = len(sel)
    v = _valid(k, P, bs)
    sel = np.array(sel)
    k.assume(bool(np.all(np.isfinite(sel)) and np.all(abs(sel) < 1e4)))
    mod = k.choice("mod", ["no", "vec", "loop"])
    make = lambda c_, v_: (("gftool.pade.Averager", z, c_) if mod == "no" else ("gftool.pade.Mod_Averager", z, c_, lambda z_, p_: p_), dict(valid_pades=v_, kind=kind))
    (a_, kw_) = make(c, v)
    if not v.any(axis=0).all():
        k.call_raises(RuntimeError, True, *a_, **kw_)
        return
    (a_, kw_) = make(c, np.ones(v.shape))
    k.call_raises(TypeError, True, *a_, **kw_)
    if k.choice("nan", [False, True]):
        cn = c.copy()
        cn[(0,) * len(bs) + (1,)] = np.nan
        (a_, kw_) = make(cn, v)
        k.call_raises(RuntimeError, True, k.call(*a_, **kw_), x)
        return
    if mod == "no":
        av = k.call("gftool.pade.Averager", z, c, valid_pades=v, kind=kind)
        vals = sel
        r = k.call(av, x)
    else:
        real = k.choice("values", ["complex", "real"]) == "real"
        fct = (lambda z_, p_, a=0: abs(p_) + a) if real else lambda z_, p_, a=0: p_**2 + z_ + a
        av = k.call("gftool.pade.Mod_Averager", z, c, fct, valid_pades=v, kind=kind, vectorized=mod == "vec")
        arg = k.choice("argument", ["none", "args", "kwds"])
        vals = fct(x, sel, 0 if arg == "none" else 0.5)
        r = k.call(av, x, *([0.5] if arg == "args" else []), **({"a": 0.5} if arg == "kwds" else {}))
    m = v.reshape(v.shape + (1,) * (vals.ndim - v.ndim))
    cnt = m.sum(0)
    mean = np.where(m, vals, 0).sum(0) / cnt
    k.ensure("mean", bool(r.x.shape == mean.shape and np.allclose(r.x, mean, rtol=1e-6, atol=1e-9)))
    if np.all(cnt > 1):
        d = np.where(m, vals - mean, 0)
        err = np.sqrt((d.real**2).sum(0) / (cnt - 1)) + (1j * np.sqrt((d.imag**2).sum(0) / (cnt - 1)) if np.iscomplexobj(vals) else 0)
        k.ensure("standard deviation", bool(np.allclose(r.err, err, rtol=1e-5, atol=1e-8)))


def c_averaged(k):
    """averaged: selection, filter and average combined; stacked functions are continued independently of each other"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    n = k.choice("n", [6, 7, 9])
    nmax = k.choice("n_max", [4, 5, 6])
    b = k.dim("b", bounded=(1, 2, 3))
    z = 1j * np.pi * (2 * np.arange(n) + 1) / 5
    p = k.real("poles", (b, 6), lo=-2, hi=2).snap
    w = k.real("w", (b, 6), lo=0.25, hi=1).snap
    f = (w[:, None, :] / (z[:, None] - p[:, None, :])).sum(-1)
    x = k.complex("x", (k.dim("m"),), im="nonneg").snap + 0.5j
    pade = k.fn("gftool.pade")
    kn = k.choice("kind", ["KindGf", "KindSelf"])
    kind = getattr(pade, kn)(1 if kn == "KindGf" else 2, nmax)
    fl = k.choice("filter", ["none", "neg", "list", "avg_no_neg_imag"])
    flt = {"none": None, "neg": pade.FilterNegImag(1e-8), "list": [pade.FilterNegImag(1e-8), pade.FilterNegImag(1e-6)], "avg_no_neg_imag": None}[fl]
    c = pade.coefficients(z, f)
    k.assume(bool(np.all(np.isfinite(c)) and np.all(abs(c) < 1e3)))
    its = np.array(list(pade.calc_iterator(x, z, c)))[kind.start:nmax - 1:2]
    k.assume(bool(np.all(np.isfinite(its)) and np.all(abs(its) < 1e3)))
    v = np.ones(its.shape[:2], bool) if fl == "none" else (its.imag < 1e-8).all(-1)
    k.assume(bool(v.any(axis=0).all()))
    k.assume(bool(fl == "none" or np.min(abs(its.imag - 1e-8)) > 1e-10))
    give = k.choice("give", ["fct_z", "coeff"])
    kw = dict(fct_z=f) if give == "fct_z" else dict(coeff=c)
    f0 = f.copy()
    stacked = k.choice("stacked", [True, False])
    run = lambda kw_: (k.call("gftool.pade.avg_no_neg_imag", x, z, kind=kind, **kw_) if fl == "avg_no_neg_imag" else
                       k.call("gftool.pade.averaged", x, z, filter_valid=flt, kind=kind, **kw_))
    if stacked:
        r = run(kw)
        got = r.x
    else:
        got = np.array([run({q: t[i] for q, t in kw.items()}).x for i in range(b)])
    m = v[..., None]
    mean = np.where(m, its, 0).sum(0) / m.sum(0)
    k.ensure("average", bool(got.shape == mean.shape and np.allclose(got, mean, rtol=1e-6, atol=1e-8)))
    k.ensure("frame", bool(np.array_equal(f, f0)))


def c_coefficients_loop(k):
    """all numbers of points: coefficients[j] = g(j, j) with the inverse differences g(0, j) = f_j, g(i, j) = (g(i-1, i-1)/g(i-1, j) - 1)/(z_j - z_(i-1))"""
    k.need_loops()
    n = k.dim("n", lo=1, bounded=(1, 2, 3, 5))
    bs = {"1": (), "2": (k.dim("b"),)}[k.choice("layout", ["1", "2"])]
    z = _points(k, n)
    f = k.complex("fct_z", bs + (n,), im="nonzero")
    gg = lambda *a: k.ite(k.eq(a[-2], 0), lambda: f[a[:-2] + (a[-1],)], lambda: g(*a))
    g = k.ghost("g", lambda *a: (gg(*a[:-2], a[-2] - 1, a[-2] - 1) / gg(*a[:-2], a[-2] - 1, a[-1]) - 1) / (z[a[-1]] - z[a[-2] - 1]),
                kind="c", pos=-2, arity=len(bs) + 2)
    k.loop("gftool.pade.coefficients", lambda i: {"res": (bs + (n,), lambda *a: k.ite(i <= a[-1], lambda: gg(*a[:-1], i, a[-1]), lambda: gg(*a[:-1], a[-1], a[-1])))},
           new=lambda i: i + 1, ghosts=[g], first=0)
    r = k.call("gftool.pade.coefficients", z, f)
    if not k.symbolic:
        _tame(k, _conc(r))
        k.stable("gftool.pade.coefficients", z, f, at=1)
    k.ensure_shape("coefficients", r, bs + (n,))
    o = k.out(r)
    k.ensure("inverse differences", lambda *a: _same(k, o[a], gg(*a[:-1], a[-1], a[-1])), *bs, n)
    k.frame()


def c_values_loop(k):
    """all numbers of points: approximant l is the convergent A_(l+2)/B_(l+2) of the continued fraction (recurrence of Wallis)"""
    k.need_loops()
    n = k.dim("n", lo=1, bounded=(1, 2, 3, 5))
    lay = k.choice("layout", ["1", "2"])
    zl = k.choice("z_out", ["0", "1", "2"])
    bs = (k.dim("b"),) if lay == "2" else ()
    zs = tuple(k.dim(d) for d in {"0": (), "1": ("m",), "2": ("m", "l")}[zl])
    z = _points(k, n)
    a = k.complex("coeff", bs + (n,), im="nonzero")
    x = k.complex("z_out", zs, im="neg", layout="array")
    nb = len(bs)
    if zl == "2":       # the code works on the flattened array
        m1 = zs[1]
        flat = lambda j: x[k.fdiv(j, m1), j - m1 * k.fdiv(j, m1)]
        size = zs[0] * zs[1]
    else:
        flat = (lambda j: x[()]) if zl == "0" else (lambda j: x[j])
        size = zs[0] if zs else 1
    # indices (batch..., point, recursion)
    mult = lambda *i: (flat(i[nb]) - z[i[-1]]) * a[i[:nb] + (i[-1] + 1,)]
    AA = lambda *i: k.ite(k.eq(i[-1], 0), 0, lambda: k.ite(k.eq(i[-1], 1), lambda: a[i[:nb] + (0,)], lambda: A(*i)))
    BB = lambda *i: k.ite(k.or_(k.eq(i[-1], 0), k.eq(i[-1], 1)), 1, lambda: B(*i))
    rec = lambda F: lambda *i: F(*i[:-1], i[-1] - 1) + mult(*i[:-1], i[-1] - 2) * F(*i[:-1], i[-1] - 2)
    A = k.ghost("A", rec(AA), kind="c", arity=nb + 2)
    B = k.ghost("B", rec(BB), kind="c", arity=nb + 2)
    sh = bs + (size,)
    k.loop("gftool.pade.calc_iterator",
           lambda i: {"pade": (sh, lambda *j: AA(*j, i + 1) / BB(*j, i + 1)),
                      "pade_prev": (sh, lambda *j: AA(*j, i) / BB(*j, i)),
                      "B2": (sh, lambda *j: BB(*j, i + 1) / BB(*j, i))},
           new=lambda i: i + 2, ghosts=[A, B], first=0)
    r = list(k.call("gftool.pade.calc_iterator", x, z, a))
    if not k.symbolic:
        k.ensure("number of approximants", len(r) == n - 1)
    pos = {"0": lambda i: (0,), "1": lambda i: i, "2": lambda i: (i[0] * zs[1] + i[1],)}[zl] if zl != "2" or k.symbolic else (lambda i: (i[0] * zs[1] + i[1],))
    for l, p in k.iterations("gftool.pade.calc_iterator", r):
        if not k.symbolic:
            _tame(k, _conc(p), 1e3)
        # one more step of the recurrence, so that the statement is about B_(l+1), B_l, ...
        num = lambda *j: rec(AA)(*j, l + 2)
        den = lambda *j: rec(BB)(*j, l + 2)
        k.ensure_eq("convergent", p, lambda *i: num(*i[:nb], *pos(i[nb:])) / den(*i[:nb], *pos(i[nb:])), bs + zs, tol=1e-5)
    k.frame()


def c_interpolation_lemma(k):
    """induction of Thiele's theorem over the contracts above: with s_i = (z_k - z_i) g(i+1, k) the invariant
    f_k (B_(i+1) + s_i B_i) = A_(i+1) + s_i A_i holds for i = 0, is preserved for i < k, and gives A_n = f_k B_n for all n > k"""
    c = lambda n: k.complex(n, im="nonzero").e
    fk, f0, A0, A1, B0, B1, s, a, g = (c(n) for n in ("f_k", "f_0", "A0", "A1", "B0", "B1", "s", "a", "g"))
    # i = 0: A_0 = 0, A_1 = f_0, B_0 = B_1 = 1, 1 + s_0 = g(0,0)/g(0,k)
    s0 = f0 / fk - 1
    z = lambda x: k.eq(x, 0) if k.symbolic else k.abs(x) <= k.frac(1, 10**9) * (1 + sum(k.abs(y)**4 for y in (fk, f0, A0, A1, B0, B1, s, a)) * (1 + 1 / k.abs(g)**2) + k.abs(s0))
    k.ensure("base", z(fk * (1 + s0 * 1) - (f0 + s0 * 0)))
    # i -> i+1 with 1 + s_(i+1) = g(i+1,i+1)/g(i+1,k) and m_i = (z_k - z_i) a_(i+1) = s_i a_(i+1)/g(i+1,k)
    s1 = a / g - 1
    m = s * a / g
    A2, B2 = A1 + m * A0, B1 + m * B0
    hyp = fk * (B1 + s * B0) - (A1 + s * A0)
    k.ensure("step", z(fk * (B2 + s1 * B1) - (A2 + s1 * A1) - (1 + s1) * hyp))
    # i = k-1 -> k: a_k = g(k,k), so m_(k-1) = s_(k-1) and f_k B_(k+1) = A_(k+1)
    k.ensure("at the point", z(fk * (B1 + s * B0) - (A1 + s * A0) - hyp))
    # m_k = 0 and the linear recurrence keep A_n = f_k B_n
    k.ensure("later", z((fk * B1 + a * (fk * B0)) - fk * (B1 + a * B0)))


def _quad(k, name, shape, **kw):
    """extended precision complex array with digits beyond double precision, and its exact mpmath values"""
    import numpy as np
    from mpmath import mp
    a, b = k.complex(name, shape, **kw).snap, k.complex(name + "_low", shape).snap
    x = a.astype(np.clongdouble) + b.astype(np.clongdouble) * np.longdouble(2)**-58
    def part(v):
        h = float(v)
        return mp.mpf(h) + mp.mpf(float(v - np.longdouble(h)))
    return x, np.vectorize(lambda v: mp.mpc(part(v.real), part(v.imag)), otypes=[object])(x)


def _dist(x, want):
    import numpy as np
    from mpmath import mp
    part = lambda v: mp.mpf(float(v)) + mp.mpf(float(v - np.longdouble(float(v))))
    return max((abs(mp.mpc(part(a.real), part(a.imag)) - w) / (1 + abs(w)) for a, w in zip(np.asarray(x).ravel(), np.asarray(want).ravel())), default=0)


def c_precision(k):
    """extended precision data give extended precision coefficients (bounded)"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    n = k.choice("n", [1, 2, 3])
    bs = k.choice("stack", [(), (2,)])
    f, fm = _quad(k, "fct", bs + (n,))
    z, zm = _quad(k, "z", (n,), im="pos")
    k.assume(bool(np.all(abs(f) > 0.1)))
    z = z + 3 * np.arange(n)
    zm = zm + 3 * np.arange(n)
    with np.errstate(all="ignore"):
        r = k.call("gftool.pade.coefficients", z, f)
        want = np.array([_recip(k, lambda l: fm[i + (l,)], lambda l: zm[l], n) for i in np.ndindex(*bs)], dtype=object)
    k.assume(bool(np.all(abs(r) < 30)) and bool(np.all(abs(r) > 1 / 30)))
    k.ensure("extended precision kept", r.dtype == np.clongdouble and _dist(r, want) < 1e-16)
    d = k.call("gftool.pade.coefficients", z.astype(complex), f.astype(complex))
    k.ensure("double precision kept", d.dtype == complex)


c_precision.concrete_runs = 0.3
