"""C21 densities from Matsubara sums and their error estimates"""


def _close(k, a, b, tol=9):
    return k.eq(a, b) if k.symbolic else k.abs(a - b) <= k.frac(1, 10**tol) * (1 + k.abs(b))


def _fermi(k, x):
    return 1 / (k.exp(x) + 1)


def _sum2(k, f, dims):
    """sum over all index tuples of dims"""
    if not dims:
        return f(())
    return k.sum(lambda i: _sum2(k, lambda r: f((i,) + r), dims[1:]), dims[0])


def c_density_iw(k):
    """2/beta sum_n w_n Re[G_n - P(iw_n)] + occ(P), where P is the pole function with the given moments"""
    n = k.dim("n", bounded=(1, 2, 4))
    lay = k.choice("layout", ["1", "2", "2 moments 1"])
    bs = () if lay == "1" else (k.dim("b"),)
    ms = bs if lay != "2 moments 1" else ()
    nm = k.dim("n_mom", bounded=(1, 2, 3)) if k.symbolic else k.choice("n_moments", [1, 2, 3])
    beta = k.real("beta", pos=True, samp=(0.25, 8))
    iws = k.complex("iws", (n,), im="pos")
    g = k.complex("gf", bs + (n,))
    mom = k.real("mom", ms + (nm,))
    ws = k.choice("weights", ["none", "array"])
    w = k.real("w", (n,)) if ws == "array" else None
    kw = {} if w is None else dict(weights=w)
    wt = lambda j: 1 if w is None else w[j]
    if k.symbolic:
        P, R = k.real("P", ms + (1, nm)), k.real("R", ms + (1, nm))

        def from_moments(moments, width=1.0):
            k.ensure_eq("moments handed on", moments, lambda *i: mom[i[:-2] + (i[-1],)], ms + (1, nm))
            k.ensure("width", width is None)
            return k.fn("gftool.basis.pole.PoleFct")(poles=P.v, residues=R.v)
        k.stub("gftool.basis.pole.gf_from_moments", from_moments)
        p, r = (lambda i, j: P[i + (0, j)]), (lambda i, j: R[i + (0, j)])
    else:
        import numpy as np
        pf = k.fn("gftool.basis.PoleGf").from_moments(mom.snap, width=None)
        full = ms + (nm,)
        pp, rr = np.broadcast_to(pf.poles, tuple(map(int, full))), np.broadcast_to(pf.residues, tuple(map(int, full)))
        k.assume(bool(np.all(abs(rr) < 1e4)))
        p, r = (lambda i, j: k.out(pp)[i + (j,)]), (lambda i, j: k.out(rr)[i + (j,)])
    mi = lambda i: i if ms else ()
    d = k.call("gftool.density_iw", iws, g, beta, moments=mom, **kw)
    spec = lambda *i: (2 / beta.e * k.sum(lambda j: wt(j) * (k.re(g[i + (j,)]) - k.re(k.sum(lambda q: r(mi(i), q) / (iws[j] - p(mi(i), q)), nm))), n)
                       + k.sum(lambda q: r(mi(i), q) * _fermi(k, beta.e * p(mi(i), q)), nm))
    k.ensure_eq("density", d, spec, bs, tol=1e-7, scale=1 if k.symbolic else 1 + float(abs(rr).sum()))
    k.frame()


def c_density_iw_default(k):
    """moments=(1,): 1/2 + 2/beta sum_n Re G(iw_n) on the imaginary axis"""
    n = k.dim("n", bounded=(1, 2, 4))
    bs = {"1": (), "2": (k.dim("b"),)}[k.choice("layout", ["1", "2"])]
    beta = k.real("beta", pos=True, samp=(0.25, 8))
    y = k.real("y", (n,), pos=True)
    iws = k.derived("iws", (n,), "c", lambda j: k.I * y[j])
    g = k.complex("gf", bs + (n,))
    d = k.call("gftool.density_iw", iws, g, beta)
    k.ensure_eq("density", d, lambda *i: k.frac(1, 2) + 2 / beta.e * k.sum(lambda j: k.re(g[i + (j,)]), n), bs)
    k.frame()


def c_density_iw_exact(k):
    """pole functions: the exact occupation, from Pade frequencies or from many Matsubara frequencies and moments or a fit"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    gt = k.fn("gftool")
    b = k.dim("b", bounded=(1, 2, 3))
    q = k.dim("poles", bounded=(1, 2, 3))
    beta = float(k.real("beta", lo=0.5, hi=6).e)
    p = k.real("p", (b, q), lo=-1.5, hi=1.5).snap
    w = k.real("w", (b, q), lo=0.25, hi=1).snap
    exact = (w / (np.exp(beta * p) + 1)).sum(-1)
    how = k.choice("how", ["pade", "moments", "fit"])
    mom = np.stack([(w * p**m).sum(-1) for m in range(4)], axis=-1)
    if how == "pade":
        iws, rp = gt.pade_frequencies(40, beta)
        kw = dict(weights=rp, moments=mom[:, :k.choice("n_mom", [1, 2, 3])])
        tol = 1e-6
    elif how == "moments":
        iws = gt.matsubara_frequencies(np.arange(600), beta)
        nm = k.choice("n_mom", [1, 2, 3, 4])
        kw = dict(moments=mom[:, :nm])
        tol = {1: 2e-3, 2: 2e-3, 3: 1e-4, 4: 1e-4}[nm] * 10
    else:
        iws = gt.matsubara_frequencies(np.arange(200), beta)
        nf, nm = k.choice("n_fit", [1, 2, 3]), k.choice("n_mom", [1, 2])
        kw = dict(moments=mom[:, :nm], n_fit=nf)
        tol = 2e-2
    g = (w[:, None, :] / (iws[:, None] - p[:, None, :])).sum(-1)
    r = k.call("gftool.density_iw", iws, g, beta, **kw)
    k.ensure("occupation", bool(r.shape == exact.shape and np.allclose(r, exact, rtol=0, atol=tol)))
    one = np.array([k.call("gftool.density_iw", iws, g[i], beta, **{**kw, "moments": kw["moments"][i]}) for i in range(b)])
    k.ensure("independent", bool(np.allclose(r, one, rtol=1e-9, atol=1e-9)))


def c_density_iw_fit(k):
    """n_fit: the moments are met exactly by the fitted tail, weighted by w^(n_mom + n_fit)"""
    if not k.symbolic:
        import numpy as np
        gt = k.fn("gftool")
        n = 30
        beta = float(k.real("beta", lo=0.5, hi=6).e)
        iws = gt.matsubara_frequencies(np.arange(n), beta)
        p, w = k.real("p", (3,), lo=-1.5, hi=1.5).snap, k.real("w", (3,), lo=0.25, hi=1).snap
        g = (w / (iws[:, None] - p)).sum(-1)
        nm, nf = k.choice("n_mom", [1, 2, 3]), k.choice("n_fit", [1, 2, 3, 5])
        mom = np.array([(w * p**m).sum() for m in range(nm)])
        pf = gt.basis.PoleGf.from_z(iws, g, n_pole=nm + nf, moments=mom, width=None, weight=iws.imag**(nm + nf))
        want = 2 / beta * np.sum(g.real - pf.eval_z(iws).real) + pf.occ(beta)
        r = k.call("gftool.density_iw", iws, g, beta, moments=mom, n_fit=nf)
        k.ensure("density", bool(np.shape(r) == () and abs(r - want) < 1e-7))
        return
    n, nm = k.dim("n"), k.dim("n_mom")
    nf = k.int("n_fit", 1)
    bs = {"1": (), "2": (k.dim("b"),)}[k.choice("layout", ["1", "2"])]
    beta = k.real("beta", pos=True)
    iws = k.complex("iws", (n,), im="pos")
    g = k.complex("gf", bs + (n,))
    mom = k.real("mom", bs + (nm,))
    P, R = k.real("P", bs + (1, nm + nf)), k.real("R", bs + (1, nm + nf))

    def from_z(z, gf_z, n_pole, moments=(), width=1.0, weight=None):
        k.ensure_eq("moments handed on", moments, lambda *i: mom[i[:-2] + (i[-1],)], bs + (1, nm))
        k.ensure("automatic width", width is None)
        k.ensure("number of poles", k.eq(n_pole, nm + nf))
        k.ensure_eq("frequencies", z, lambda j: iws[j], (n,))
        k.ensure_eq("function", gf_z, lambda *i: g[i[:-2] + (i[-1],)], bs + (1, n))
        k.ensure_eq("weight", weight, lambda j: k.pow(k.im(iws[j]), nm + nf), (n,))
        return k.fn("gftool.basis.pole.PoleFct")(poles=P.v, residues=R.v)
    k.stub("gftool.basis.pole.gf_from_z", from_z)
    d = k.call("gftool.density_iw", iws, g, beta, moments=mom, n_fit=nf)
    k.ensure_eq("density", d, lambda *i: 2 / beta.e * k.sum(lambda j: k.re(g[i + (j,)]) - k.re(k.sum(lambda q: R[i + (0, q)] / (iws[j] - P[i + (0, q)]), nm + nf)), n)
                + k.sum(lambda q: R[i + (0, q)] * _fermi(k, beta.e * P[i + (0, q)]), nm + nf), bs)


def _iw(k, beta, j):
    return k.I * k.pi * (2 * j + 1) / beta.e


def c_density(k):
    """density: 2/beta sum_n Re[G_n - 1/(iw_n + x)] + n_F(-x); total: summed over all other axes; the error is density_error's"""
    n = k.dim("n", bounded=(1, 2, 4))
    beta = k.real("beta", pos=True, samp=(0.25, 8))
    total = k.choice("total", [False, True])
    ret = k.choice("return_err", [True, False, 0.5])
    xs = tuple(k.dim(d) for d in {"0": (), "1": ("a",), "2": ("a", "b")}[k.choice("layout", ["0", "1", "2"])])
    x = k.real("potential", xs, layout="array")
    g = k.complex("gf", (() if total else xs) + (n,))
    r = k.call(k.fn("gftool").density, g, x, beta, return_err=ret, total=total)
    occ = lambda i: 1 / (k.exp(-beta.e * x[i]) + 1)
    tail = lambda i, j: k.re(1 / (_iw(k, beta, j) + x[i]))
    delta = lambda i, j: k.re(g[i + (j,)]) - (_sum2(k, lambda q: tail(q, j), xs) if total else tail(i, j))
    spec = lambda *i: 2 / beta.e * k.sum(lambda j: delta(i, j), n) + (_sum2(k, occ, xs) if total else occ(i))
    sh = () if total else xs
    if ret is True:
        k.ensure_eq("density", r.x, spec, sh, tol=1e-7, scale=10)
        m = n // 10
        wn = lambda j: k.pi * (2 * j + 1) / beta.e
        k.ensure_eq("error estimate", r.err, lambda *i: k.sum(lambda j: delta(i, j + m) * wn(j + m)**2, n - m) / (n - m) / k.pi / wn(n - 1), sh, tol=1e-6, scale=1 if k.symbolic else 1 + 6 * n / beta.e)
    else:
        k.ensure_eq("density", r, spec, sh, tol=1e-7, scale=10)
    k.frame()


def c_density_matrix(k):
    """matrix=True: the tail is the diagonal of (iw + x)^-1 and n_F(-x) for hermitian matrices x"""
    n = k.dim("n", bounded=(1, 2, 4))
    N = k.dim("N", bounded=(1, 2, 3))
    beta = k.real("beta", pos=True, samp=(0.25, 8))
    total = k.choice("total", [False, True])
    cplx = k.choice("complex", [True, False])
    fct = k.choice("fct", ["density", "check_convergence"])
    g = k.complex("gf", (() if total else (N,)) + (n,))
    call = (lambda x, **kw: k.call(k.fn("gftool").density, g, x, beta, return_err=False, matrix=True, **kw)) if fct == "density" else \
        (lambda x, **kw: k.call("gftool.check_convergence", g, x, beta, order=2, matrix=True, **kw))
    mat = lambda nm: (k.complex if cplx else k.real)(nm, (N, N))
    if k.symbolic:
        h, U = mat("h"), mat("U")
        e = k.real("eig", (N,))
        x = k.derived("x", (N, N), "c" if cplx else "f", lambda i, j: h[i, j] + k.conj(h[j, i]))

        def dec(her_mat, check=True):
            k.ensure_eq("matrix handed on", her_mat, lambda i, j: x[i, j], (N, N))
            vi = k.derived("Ui", (N, N), "c" if cplx else "f", lambda i, j: k.conj(U[j, i]))
            return k.fn("gftool.matrix.UDecomposition")(rv=U.v, eig=e.v, rv_inv=vi.v)
        k.stub("gftool.matrix.decompose_her", dec)
        r = call(x, total=total)
        W = lambda i, m: k.re(U[i, m])**2 + k.im(U[i, m])**2 if cplx else U[i, m]**2
        tail = lambda i, j: k.sum(lambda m: W(i, m) * k.re(1 / (_iw(k, beta, j) + e[m])), N)
        occ = lambda i: k.sum(lambda m: W(i, m) * (1 / (k.exp(-beta.e * e[m]) + 1)), N)
        delta = lambda i, j: k.re(g[i + (j,)]) - (k.sum(lambda q: tail(q, j), N) if total else tail(i[0], j))
        sh = () if total else (N,)
        if fct == "density":
            k.ensure_eq("density", r, lambda *i: 2 / beta.e * k.sum(lambda j: delta(i, j), n) + (k.sum(occ, N) if total else occ(i[0])), sh)
        else:
            k.ensure_eq("weighted tail", r, lambda *i: (k.pi * (2 * i[-1] + 1) / beta.e)**2 * delta(i[:-1], i[-1]), sh + (n,))
        k.frame()
        return
    import numpy as np
    h = mat("h").snap
    x = h + h.conj().T
    be, N_, n_ = float(beta.e), int(N), int(n)
    x0 = x.copy()
    r = call(x, total=total)
    iw = 1j * np.pi * (2 * np.arange(n_) + 1) / be
    tail = np.linalg.inv(iw[:, None, None] * np.eye(N_) + x).diagonal(0, -2, -1).T.real
    ev, v = np.linalg.eigh(x)
    occ = ((v * (0.5 + 0.5 * np.tanh(be * ev / 2))) @ v.conj().T).diagonal().real
    gs = g.snap.real
    d = gs - (tail.sum(0) if total else tail)
    want = 2 / be * d.sum(-1) + (occ.sum() if total else occ) if fct == "density" else iw.imag**2 * d
    k.ensure("density", bool(np.shape(r) == np.shape(want) and np.allclose(r, want, rtol=1e-7, atol=1e-7 * (1 + abs(want).max()))))
    k.ensure("real", not np.iscomplexobj(r))
    k.ensure("frame", bool(np.array_equal(x, x0)))


def c_density_error(k):
    """1/(pi w_last) times the average (noisy) or maximum of w_n^2 Delta_n over the upper nine tenth of the frequencies"""
    m = k.int("tenth", 0, bounded=(0, 1)) if k.symbolic else k.choice("tenths", [0, 1, 2])
    n = 10 * m + (k.int("rest", 1, 9, bounded=(1, 3)) if k.symbolic else k.choice("remainder", [1, 3, 9]))
    bs = {"1": (), "2": (k.dim("b"),)}[k.choice("layout", ["1", "2"])]
    y = k.real("y", (n,), pos=True)
    iws = k.derived("iws", (n,), "c", lambda j: k.I * y[j])
    which = k.choice("which", ["noisy", "max", "error2"])
    d = k.real("delta", bs + (n,)) if which == "noisy" else k.complex("delta", bs + (n,))
    if which == "noisy":
        r = k.call("gftool.density_error", d, iws)
        k.ensure_eq("average", r, lambda *i: k.sum(lambda j: d[i + (j + m,)] * y[j + m]**2, n - m) / (n - m) / (k.pi * y[n - 1]), bs)
    else:
        r = k.call("gftool.density_error", d, iws, noisy=False) if which == "max" else k.call("gftool.density_error2", d, iws)
        pw = 2 if which == "max" else 3
        M = lambda *i: k.amax(lambda j: k.abs(k.re(d[i + (j + m,)])) * y[j + m]**pw, n - m)
        if which == "max":
            k.ensure_eq("largest term", r, lambda *i: M(*i) / (k.pi * y[n - 1]), bs)
        else:
            # an upper bound of the truncated sum if |Delta_n| w_n^3 does not grow, and not arbitrarily large
            k.ensure_shape("error", r, bs)
            o = k.out(r)
            c = 2 * k.pi * y[n - 1]**2
            t = 1 if k.symbolic else k.frac(10**12 + 1, 10**12)
            # the maximum of products of non-negative factors is not negative
            k.ensure("upper bound", lambda *i: k.implies(M(*i) >= 0, M(*i) <= o[i] * c * t), *bs)
            k.ensure("proportional to the largest term", lambda *i: k.implies(M(*i) >= 0, o[i] * c <= k.pi**2 * M(*i) * t), *bs)
    k.frame()


def c_check_convergence(k):
    """w_n^order Re[G_n - 1/(iw_n + x)]"""
    n = k.dim("n", bounded=(1, 2, 4))
    beta = k.real("beta", pos=True, samp=(0.25, 8))
    total = k.choice("total", [False, True])
    order = k.choice("order", [2, 3, 1, 0])
    xs = tuple(k.dim(d) for d in {"0": (), "1": ("a",), "2": ("a", "b")}[k.choice("layout", ["0", "1", "2"])])
    x = k.real("potential", xs, layout="array")
    g = k.complex("gf", (() if total else xs) + (n,))
    kw = {} if order == 2 else dict(order=order)
    r = k.call("gftool.check_convergence", g, x, beta, total=total, **kw)
    tail = lambda i, j: k.re(1 / (_iw(k, beta, j) + x[i]))
    delta = lambda i, j: k.re(g[i + (j,)]) - (_sum2(k, lambda q: tail(q, j), xs) if total else tail(i, j))
    k.ensure_eq("weighted remainder", r, lambda *i: (k.pi * (2 * i[-1] + 1) / beta.e)**order * delta(i[:-1], i[-1]), (() if total else xs) + (n,), scale=1 if k.symbolic else 10 * (1 + 6 * n / beta.e)**order)
    k.frame()
