"""C07 Matsubara <-> imaginary-time Fourier transforms"""
from types import SimpleNamespace


def _batch(k):
    return (k.dim("b"),) if k.choice("batch", [False, True]) else ()


def _iw(k, n, beta):
    return k.I * k.pi * (2 * n + 1) / beta


def _iv(k, n, beta):
    return k.I * k.pi * (2 * n) / beta


def c_iw2tau_dft(k):
    """G(tau_j) = 2/beta sum_n Re[G(iw_n) exp(-iw_n tau_j)], tau_j = j beta/(2N)"""
    N = k.dim("N")
    bs = _batch(k)
    beta = k.real("beta", pos=True)
    g = k.complex("gf_iw", bs + (N,))
    r = k.call("gftool.fourier.iw2tau_dft", g, beta)
    k.ensure_eq("truncated Fourier sum", r,
                lambda *i: 2 / beta * k.sum(lambda n: k.re(g[i[:-1] + (n,)] * k.exp(-k.I * k.pi * (2 * n + 1) * i[-1] / (2 * N))), N), bs + (2 * N + 1,))
    k.ensure_real_dtype("real", r)
    k.frame()


def c_iw2tau_dft_soft(k):
    """same sum with the data smoothly continued: G(iw_{N+m}) = G(iw_{N-1}) (1+cos(pi (m+1)/N))/2"""
    N = k.dim("N")
    bs = _batch(k)
    beta = k.real("beta", pos=True)
    g = k.complex("gf_iw", bs + (N,))
    r = k.call("gftool.fourier.iw2tau_dft_soft", g, beta)

    def ext(i, n):
        return k.ite(n < N, lambda: g[i[:-1] + (n,)], lambda: g[i[:-1] + (N - 1,)] * (1 + k.cos(k.pi * (n - N + 1) / N)) / 2)
    k.ensure_eq("softened Fourier sum", r,
                lambda *i: 2 / beta * k.sum(lambda n: k.re(ext(i, n) * k.exp(-k.I * k.pi * (2 * n + 1) * i[-1] / (2 * N))), 2 * N), bs + (2 * N + 1,))
    k.ensure_real_dtype("real", r)
    k.frame()


def c_tau2iw_dft(k):
    """G(iw_n) = beta/N sum_j G(tau_j) exp(iw_n tau_j) (left Riemann sum of the Fourier integral)"""
    N = k.dim("N")
    bs = _batch(k)
    beta = k.real("beta", pos=True)
    g = k.real("gf_tau", bs + (N + 1,))
    r = k.call("gftool.fourier.tau2iw_dft", g, beta)
    k.ensure_eq("Riemann sum", r,
                lambda *i: beta / N * k.sum(lambda j: g[i[:-1] + (j,)] * k.exp(k.I * k.pi * (2 * i[-1] + 1) * j / N), N), bs + (k.fdiv(N + 1, 2),))
    k.frame()


def _filon(k, g, i, x, N, beta):
    """exact Fourier integral of the linear spline through (tau_j, g_j); x = iw beta/N"""
    w1 = (k.exp(x) - 1) / x
    w2 = (k.exp(x) - w1) / x
    return beta / N * k.sum(lambda j: k.exp(x * j) * (w1 * g[i[:-1] + (j,)] + w2 * (g[i[:-1] + (j + 1,)] - g[i[:-1] + (j,)])), N)


def c_tau2iw_ft_lin(k):
    """1/2 int_{-beta}^{beta} of the linear spline through the anti-periodic continuation: the spline crosses the jump at
    tau = 0, which contributes w2*(G(0) + G(beta)); exact integral over [0, beta] if there is no jump"""
    N = k.dim("N")
    bs = _batch(k)
    beta = k.real("beta", pos=True)
    g = k.real("gf_tau", bs + (N + 1,))
    r = k.call("gftool.fourier.tau2iw_ft_lin", g, beta)

    def spec(*i):
        x = _iw(k, i[-1], 1) / N
        w2 = (k.exp(x) - (k.exp(x) - 1) / x) / x
        jump = g[i[:-1] + (0,)] + g[i[:-1] + (N,)]
        return _filon(k, g, i, x, N, beta) - beta / (2 * N) * w2 * jump * k.exp(x * (N - 1))
    k.ensure_eq("Fourier integral of the linear spline", r, spec, bs + (k.fdiv(N + 1, 2),))
    k.frame()


def _bose_spec(k, g, i, N, beta, f):
    trapz = lambda: beta / N * k.sum(lambda j: (g[i[:-1] + (j,)] + g[i[:-1] + (j + 1,)]) / 2, N)
    return k.ite(k.eq(i[-1], 0), trapz, f)


def c_tau2iv_dft(k):
    """bosonic: Riemann sum for n > 0, trapezoidal integral for n = 0"""
    N = k.dim("N")
    bs = _batch(k)
    beta = k.real("beta", pos=True)
    g = k.real("gf_tau", bs + (N + 1,))
    r = k.call("gftool.fourier.tau2iv_dft", g, beta)
    k.ensure_eq("Riemann sum", r, lambda *i: _bose_spec(k, g, i, N, beta, lambda: beta / N * k.sum(
        lambda j: g[i[:-1] + (j,)] * k.exp(2 * k.I * k.pi * i[-1] * j / N), N)), bs + (k.fdiv(N, 2) + 1,))
    k.frame()


def c_tau2iv_ft_lin(k):
    N = k.dim("N")
    bs = _batch(k)
    beta = k.real("beta", pos=True)
    g = k.real("gf_tau", bs + (N + 1,))
    r = k.call("gftool.fourier.tau2iv_ft_lin", g, beta)
    k.ensure_eq("Fourier integral of the linear spline", r,
                lambda *i: _bose_spec(k, g, i, N, beta, lambda: _filon(k, g, i, _iv(k, i[-1], 1) / N, N, beta)), bs + (k.fdiv(N, 2) + 1,))
    k.frame()


def c_tau2iv(k):
    """tau2iv: the back end gets the function without its jump, the jump is transformed exactly; default back end: the exact integral of the linear spline"""
    N = k.dim("N", lo=2)
    bs = _batch(k)
    beta = k.real("beta", pos=True)
    g = k.real("gf_tau", bs + (N + 1,))
    if k.symbolic:
        L = k.dim("L", lo=2)
        F = k.complex("F", bs + (L,))

        def back(x, beta=None):
            k.ensure_eq("no jump", x, lambda *i: g[i] - (g[i[:-1] + (N,)] - g[i[:-1] + (0,)]) * i[-1] / N, bs + (N + 1,))
            k.ensure("beta handed on", k.eq(beta, BE))
            return F.v.copy()
        BE = beta.e
        k.ensure_eq("back end + jump", k.call("gftool.fourier.tau2iv", g, beta, fourier=back), lambda *i: F[i] + (g[i[:-1] + (N,)] - g[i[:-1] + (0,)])
                    * k.ite(k.eq(i[-1], 0), lambda: BE / 2, lambda: 1 / _iv(k, i[-1], BE)), bs + (L,))
        k.frame()
        return
    back = k.choice("fourier", ["default", "gftool.fourier.tau2iv_ft_lin", "gftool.fourier.tau2iv_dft"])
    kw = {} if back == "default" else {"fourier": k.fn(back)}
    r = k.call("gftool.fourier.tau2iv", g, beta, **kw)
    if back.endswith("dft"):
        def spec(*i):
            b = i[:-1]
            jump = g[b + (N,)] - g[b + (0,)]
            gg = lambda j: g[b + (j,)] - jump * j / N
            return k.ite(k.eq(i[-1], 0), lambda: beta / N * k.sum(lambda j: (gg(j) + gg(j + 1)) / 2, N) + jump * beta / 2,
                         lambda: beta / N * k.sum(lambda j: gg(j) * k.exp(2 * k.I * k.pi * i[-1] * j / N), N) + jump / _iv(k, i[-1], beta))
    else:
        spec = lambda *i: _bose_spec(k, g, i, N, beta, lambda: _filon(k, g, i, _iv(k, i[-1], 1) / N, N, beta))
    k.ensure_eq("Fourier integral", r, spec, bs + (k.fdiv(N, 2) + 1,))
    k.frame()


def _nodes(k, n, width=1):
    import numpy as np
    return width * np.sin(0.5 * np.pi / n * np.arange(-n + 1, n + 1, 2))


def _fermi_tau(k, p, tau, beta):
    return -k.exp(-tau * p) / (1 + k.exp(-beta * p))


def _pole_stub(k, PoleCls, name, bs, n, args):
    """a fit of gftool.basis.pole by its contract: some poles and residues; its arguments are checked by args(**kw)"""
    P, R = k.real("P", bs + (1, n)), k.real("R", bs + (1, n))

    def stub(*a, **kw):
        args(*a, **kw)
        return k.fn("gftool.basis.pole." + PoleCls)(poles=P.v, residues=R.v)
    k.stub("gftool.basis.pole." + name, stub)
    at_z = lambda i, z: k.sum(lambda q: R[i + (0, q)] / (z - P[i + (0, q)]), n)
    at_tau = lambda i, tau, beta: k.sum(lambda q: R[i + (0, q)] * _fermi_tau(k, P[i + (0, q)], tau, beta), n)
    return at_z, at_tau


def _iw2tau_structure(k):
    N, nm, L = k.dim("N"), k.dim("n_mom"), k.dim("L", lo=1) + 1
    bs = _batch(k)
    beta = k.real("beta", pos=True)
    g = k.complex("gf_iw", bs + (N,))
    mom = k.real("mom", bs + (nm,))
    fit = k.choice("fit", [False, True])
    F = k.real("F", bs + (L,))
    if not fit:
        def args(moments, width=1.0):
            k.ensure_eq("moments handed on", moments, lambda *i: mom[i[:-2] + (i[-1],)], bs + (1, nm))
            k.ensure("width", width == 1)
        kw = {}
        at_z, at_tau = _pole_stub(k, "PoleFct", "gf_from_moments", bs, nm, args)
    else:
        nf = k.int("n_fit", 1)
        kw = dict(n_fit=nf)

        def args(z, gf_z, n_pole, moments=(), width=1.0, weight=None):
            k.ensure_eq("moments handed on", moments, lambda *i: mom[i[:-2] + (i[-1],)], bs + (1, nm))
            k.ensure("number of poles", k.eq(n_pole, nm + nf))
            k.ensure("width", width == 1)
            k.ensure_eq("frequencies", z, lambda j: _iw(k, j, beta.e), (N,))
            k.ensure_eq("function", gf_z, lambda *i: g[i[:-2] + (i[-1],)], bs + (1, N))
            k.ensure_eq("weight", weight, lambda j: k.pow(k.pi * (2 * j + 1) / beta.e, nm + nf), (N,))
        at_z, at_tau = _pole_stub(k, "PoleFct", "gf_from_z", bs, nm + nf, args)

    def back(x, beta=None):
        k.ensure_eq("remainder", x, lambda *i: g[i] - at_z(i[:-1], _iw(k, i[-1], BE)), bs + (N,))
        k.ensure("beta handed on", k.eq(beta, BE))
        return F.v.copy()
    BE = beta.e
    r = k.call("gftool.fourier.iw2tau", g, beta, moments=mom, fourier=back, **kw)
    k.ensure_eq("back end + pole part", r, lambda *i: F[i] + at_tau(i[:-1], i[-1] * BE / (L - 1), BE), bs + (L,))
    k.frame()


def _tau2iw_structure(k):
    N, nm, L = k.dim("N"), k.dim("n_mom"), k.dim("L", lo=1)
    bs = _batch(k)
    beta = k.real("beta", pos=True)
    g = k.real("gf_tau", bs + (N + 1,))
    F = k.complex("F", bs + (L,))
    how = k.choice("moments", [False, True])
    kw = {}
    if how:
        mom = k.real("mom", bs + (nm,))
        kw["moments"] = mom
        mm, at = nm, lambda i, q: mom[i + (q,)]
    else:
        mm, at = 1, lambda i, q: -g[i + (N,)] - g[i + (0,)]
    np_ = mm
    if k.choice("n_pole", [False, True]):
        np_ = kw["n_pole"] = k.int("n_pole", 1)
    BE = beta.e

    def args(gf_tau, n_pole, beta, moments=(), occ=False, width=1.0, weight=None):
        k.ensure_eq("moments handed on", moments, lambda *i: at(i[:-2], i[-1]), bs + (1, mm))
        k.ensure("number of poles", k.eq(n_pole, np_))
        k.ensure("occupation and weight are free", occ is False and weight is None and width == 1)
        k.ensure_eq("function", gf_tau, lambda *i: g[i[:-2] + (i[-1],)], bs + (1, N + 1))
        k.ensure("beta", k.eq(beta, BE))
    at_z, at_tau = _pole_stub(k, "PoleGf", "gf_from_tau", bs, np_, args)

    def back(x, beta=None):
        k.ensure_eq("remainder", x, lambda *i: g[i] - at_tau(i[:-1], i[-1] * BE / N, BE), bs + (N + 1,))
        k.ensure("beta handed on", k.eq(beta, BE))
        return F.v.copy()
    r = k.call("gftool.fourier.tau2iw", g, beta, fourier=back, **kw)
    k.ensure_eq("back end + pole part", r, lambda *i: F[i] + at_z(i[:-1], _iw(k, i[-1], BE)), bs + (L,))
    k.frame()


def c_iw2tau(k):
    """iw2tau = back end applied to the remainder + exact pole part, whatever the moments; exact for pole functions on the nodes"""
    if k.symbolic:
        return _iw2tau_structure(k)
    import numpy as np
    N = k.int("N", 2, 24)
    bs = _batch(k)
    nm = k.int("n_mom", 1, 4)
    beta = k.real("beta", lo=0.5, hi=10)
    mom = k.real("mom", bs + (nm,))
    back = k.choice("fourier", ["default", "gftool.fourier.iw2tau_dft", "gftool.fourier.iw2tau_dft_soft"])
    exact = k.choice("exact", [False, True])
    pol = k.call("gftool.basis.PoleGf.from_moments", np.array(mom.snap)[..., None, :])
    iws = 1j * np.pi * (2 * np.arange(N) + 1) / float(beta.e)
    tau = np.linspace(0, float(beta.e), 2 * N + 1)
    P, R = np.asarray(pol.poles), np.asarray(pol.residues)
    pz = np.sum(R / (iws[:, None] - P), axis=-1)
    pt = -np.sum(R / (1 + np.exp(-float(beta.e) * P)) * np.exp(-tau[:, None] * P), axis=-1)
    if exact:
        g = pz.copy()
        extra = 0
    else:
        x = k.complex("gf_rest", bs + (N,), mag=0.1)
        g = pz + np.array(x.snap)
        f = k.fn("gftool.fourier.iw2tau_dft" if back == "default" else back)
        extra = np.asarray(k.call(f, np.array(x.snap), float(beta.e)))
    g0 = g.copy()
    kw = {} if back == "default" else {"fourier": k.fn(back)}
    r = k.call("gftool.fourier.iw2tau", k.as_array(g), float(beta.e), moments=mom, **kw)
    want = pt + extra
    k.ensure_eq("back end + pole part", r, lambda *i: want[i], bs + (2 * N + 1,), tol=1e-8)
    k.ensure("frame:gf_iw", bool(np.array_equal(g, g0)))
    k.frame()


def c_iw2tau_accuracy(k):
    """transform of a pole GF approximates the exact G(tau) with the accuracy of the tail correction"""
    k.only_concrete()
    import numpy as np
    beta = k.real("beta", lo=5, hi=30)
    be = float(beta.e)
    npol = k.int("npol", 1, 6)
    bs = _batch(k)
    p = k.real("poles", bs + (npol,), lo=-1, hi=1)
    w = k.real("weights", bs + (npol,), lo=0, hi=1)
    N = 512
    P, Wt = np.array(p.snap)[..., None, :], np.array(w.snap)[..., None, :]
    iws = 1j * np.pi * (2 * np.arange(N) + 1) / be
    g = np.sum(Wt / (iws[:, None] - P), axis=-1)
    m = np.stack([np.sum(np.array(w.snap) * np.array(p.snap)**q, axis=-1) for q in range(4)], axis=-1)
    nm = k.choice("n_mom", [1, 2, 3, 4])
    n_fit = k.choice("n_fit", [0, 2])
    r = k.call("gftool.fourier.iw2tau", g, be, moments=m[..., :nm], n_fit=n_fit)
    tau = np.linspace(0, be, 2 * N + 1)
    ex = -np.sum(Wt / (1 + np.exp(-be * P)) * np.exp(-tau[:, None] * P), axis=-1)
    # remainder decays as (1/iw)^(nm+1): truncated sum <= 2/beta * sum_{n>=N} C/w^(nm+1), C <= sum|w|(max|p|)^nm + pole part
    tail = {1: 2e-1, 2: 3e-2, 3: 1e-3, 4: 1e-5}[nm]
    k.ensure_shape("shape", r, ex.shape)
    k.ensure("accuracy", bool(np.all(np.abs(np.asarray(r) - ex) <= tail * (1 + np.abs(np.array(w.snap)).sum()) * 0.2)))
    k.frame()


def c_tau2iw(k):
    """tau2iw = back end applied to the remainder + exact pole part; exact for pole functions on the nodes"""
    if k.symbolic:
        return _tau2iw_structure(k)
    import numpy as np
    N = k.int("N", 10, 30)
    bs = _batch(k)
    beta = k.real("beta", lo=0.5, hi=10)
    be = float(beta.e)
    npol = k.int("n_pole", 1, 3)
    res = k.real("res", bs + (npol,))
    back = k.choice("fourier", ["default", "gftool.fourier.tau2iw_ft_lin", "gftool.fourier.tau2iw_dft"])
    P = _nodes(k, npol)
    R = np.array(res.snap)[..., None, :]
    tau = np.linspace(0, be, N + 1)
    pt = -np.sum(R / (1 + np.exp(-be * P)) * np.exp(-tau[:, None] * P), axis=-1)
    kw = {} if back == "default" else {"fourier": k.fn(back)}
    given = k.choice("moments", ["none", "one", "all"])
    if given != "none":
        nm = 1 if given == "one" else npol
        kw["moments"] = np.stack([np.sum(np.array(res.snap) * P**q, axis=-1) for q in range(nm)], axis=-1)
    g0 = pt.copy()
    r = k.call("gftool.fourier.tau2iw", pt, be, n_pole=npol, **kw)
    iws = 1j * np.pi * (2 * np.arange((N + 1) // 2) + 1) / be
    want = np.sum(R / (iws[:, None] - P), axis=-1)
    mat = np.exp(-tau[:, None] * P) / (1 + np.exp(-be * P))
    k.assume(bool(np.linalg.cond(mat) < 1e5))
    k.ensure_eq("exact for pole functions", r, lambda *i: want[i], bs + ((N + 1) // 2,), tol=1e-5, atol=1e-5)
    k.ensure("frame:gf_tau", bool(np.array_equal(pt, g0)))
    k.frame()


def c_tau2iw_given(k):
    """moments that differ from the jump of the data are the ones handed to the pole fit (real code, bounded)"""
    k.only_concrete()
    import numpy as np
    N = k.int("N", 10, 30)
    beta = k.real("beta", lo=0.5, hi=10)
    be = float(beta.e)
    bs = _batch(k)
    g = k.real("gf_tau", bs + (N + 1,))
    nm = k.int("n_mom", 1, 3)
    mom = k.real("moments", bs + (nm,))
    npol = nm + k.int("extra", 0, 1)
    back = k.choice("fourier", ["tau2iw_ft_lin", "tau2iw_dft"])
    kw = {} if npol == nm else dict(n_pole=npol)
    F = k.fn("gftool.fourier." + back)
    r = k.call("gftool.fourier.tau2iw", g, be, moments=mom, fourier=F, **kw)
    gs, ms = np.array(g.snap), np.array(mom.snap)
    pol = k.fn("gftool.basis.PoleGf").from_tau(gs[..., None, :], n_pole=npol, beta=be, moments=ms[..., None, :])
    tau = np.linspace(0, be, N + 1)
    iws = 1j * np.pi * (2 * np.arange((N + 1) // 2) + 1) / be
    want = F(gs - pol.eval_tau(tau, be), beta=be) + pol.eval_z(iws)
    k.assume(bool(np.abs(pol.residues).max() < 1e4))
    k.ensure_eq("fit with the given moments", r, lambda *i: want[i], bs + ((N + 1) // 2,), tol=1e-8, atol=1e-8)
    k.frame()


def c_tau2iw_accuracy(k):
    k.only_concrete()
    import numpy as np
    beta = k.real("beta", lo=2, hi=20)
    be = float(beta.e)
    npol = k.int("npol", 1, 6)
    bs = _batch(k)
    p = k.real("poles", bs + (npol,), lo=-1, hi=1)
    w = k.real("weights", bs + (npol,), lo=0, hi=1)
    N = 1024
    P, Wt = np.array(p.snap)[..., None, :], np.array(w.snap)[..., None, :]
    tau = np.linspace(0, be, N + 1)
    g = -np.sum(Wt / (1 + np.exp(-be * P)) * np.exp(-tau[:, None] * P), axis=-1)
    kw = k.choice("args", [dict(), dict(n_pole=2), dict(n_pole=4)])
    r = k.call("gftool.fourier.tau2iw", g, be, **kw)
    n = np.asarray(r).shape[-1]
    k.ensure_shape("shape", r, bs + ((N + 1) // 2,))
    iws = 1j * np.pi * (2 * np.arange(n) + 1) / be
    ex = np.sum(Wt / (iws[:, None] - P), axis=-1)
    # linear spline: error <= h^2/12 * int |G''| <= (beta/N)^2/12 * sum|w| p^2 * 2 (plus the fitted pole part)
    k.ensure("accuracy", bool(np.all(np.abs(np.asarray(r) - ex) <= 3 * (be / N)**2 * (1 + Wt.sum()))))
    k.frame()


def c_round_trip(k):
    """tau2iw inverts iw2tau on the resolved frequencies (pole GFs with the nodes of the moments)"""
    k.only_concrete()
    import numpy as np
    nm = k.int("n_mom", 1, 3)
    beta = k.real("beta", lo=1, hi=8)
    be = float(beta.e)
    mom = k.real("mom", (nm,))
    N = 32
    pol = k.call("gftool.basis.PoleGf.from_moments", np.array(mom.snap))
    iws = 1j * np.pi * (2 * np.arange(N) + 1) / be
    P, R = np.asarray(pol.poles), np.asarray(pol.residues)
    g = np.sum(R / (iws[:, None] - P), axis=-1)
    t = k.call("gftool.fourier.iw2tau", g, be, moments=mom)
    b = np.asarray(k.call("gftool.fourier.tau2iw", np.asarray(t), be, n_pole=nm, moments=mom))
    k.ensure_shape("shape", b, (N,))
    k.ensure("round trip", bool(np.all(np.abs(b - g) <= 1e-5 + 3 * (be / (2 * N))**2 * (1 + np.abs(R).sum() * (1 + np.abs(P).max())**2))))


def _izp_structure(k):
    nz, nt = k.dim("nz"), k.dim("nt", lo=1)
    beta = k.real("beta", pos=True)
    BE = beta.e
    izp = k.complex("izp", (nz,), im="pos")
    width = k.real("width", pos=True)
    nm = k.dim("n_mom")
    mom = k.real("mom", (nm,))
    z2tau = k.choice("direction", [True, False])
    P, R = k.real("P", (nz,)), k.real("R", (nz,))
    P2, R2 = k.real("P2", (nz,)), k.real("R2", (nz,))
    seen = []

    def pole_fct(w):
        # some poles and residues, different ones for the trial width
        x = (P, R) if w is width.v else (P2, R2)
        return x

    def minimize(f, **kw):
        k.ensure("only the error is minimised", not kw)
        e = f(trial)
        k.ensure("trial width used", seen[-1] is trial)
        if z2tau:
            t = lambda j: g[j] - k.sum(lambda q: R2[q] / (izp[j] - P2[q]), nz)
            k.ensure_eq("error: norm of the deviation", e * e, lambda: k.sum(lambda j: k.re(t(j) * k.conj(t(j))), nz), ())
        return SimpleNamespace(x=width.v, fun=e)
    k.hook("minimize_scalar", minimize)
    trial = k.real("trial", pos=True).v
    if z2tau:
        g = k.complex("gf", (nz,))
        tau = k.real("tau", (nt,))
        k.assume_forall(lambda j: k.and_(tau[j] >= 0, tau[j] <= BE), nt)

        def from_z(z, gf_z, n_pole, moments=(), width=1.0, weight=None):
            seen.append(width)
            k.ensure_eq("frequencies", z, lambda j: izp[j], (nz,))
            k.ensure_eq("function", gf_z, lambda j: g[j], (nz,))
            k.ensure("number of poles", k.eq(n_pole, nz))
            k.ensure_eq("moments", moments, lambda j: mom[j], (nm,))
            k.ensure("no weight", weight is None)
            p, r = pole_fct(width)
            return k.fn("gftool.basis.pole.PoleFct")(poles=p.v, residues=r.v)
        k.stub("gftool.basis.pole.gf_from_z", from_z)
        r = k.call("gftool.fourier.izp2tau", izp, g, tau, beta, moments=mom)
        k.ensure_eq("fitted pole function", r, lambda i: k.sum(lambda q: R[q] * _fermi_tau(k, P[q], tau[i], BE), nz), (nt,))
    else:
        g = k.real("gf", (nt + 1,))
        given = k.choice("moments", [True, False])
        occ = k.real("occ").v if k.choice("occ", [True, False]) else False
        w = k.real("w", (nt + 1,)).v if k.choice("weight", [True, False]) else None
        at = (lambda j: mom[j]) if given else (lambda j: -g[0] - g[nt])

        def from_tau(gf_tau, n_pole, beta, moments=(), occ=False, width=1.0, weight=None):
            seen.append(width)
            k.ensure_eq("function", gf_tau, lambda j: g[j], (nt + 1,))
            k.ensure("number of poles", k.eq(n_pole, nz))
            k.ensure("beta", k.eq(beta, BE))
            k.ensure_eq("moments", moments, at, (nm if given else 1,))
            k.ensure("occupation and weight handed on", occ is OCC and weight is w)
            p, r = pole_fct(width)
            return k.fn("gftool.basis.pole.PoleGf")(poles=p.v, residues=r.v)
        OCC = occ
        k.stub("gftool.basis.pole.gf_from_tau", from_tau)
        kw = dict(moments=mom) if given else {}
        r = k.call("gftool.fourier.tau2izp", g, beta, izp, occ=occ, weight=w, **kw)
        k.ensure_eq("fitted pole function", r, lambda i: k.sum(lambda q: R[q] / (izp[i] - P[q]), nz), (nz,))
    k.ensure("optimal width used", seen[-1] is width.v)
    k.frame()


def c_izp(k):
    """izp2tau and tau2izp evaluate the pole function fitted with the optimal width; they reproduce pole GFs"""
    if k.symbolic:
        return _izp_structure(k)
    import numpy as np
    beta = k.real("beta", lo=5, hi=20)
    be = float(beta.e)
    npol = k.int("npol", 1, 5)
    p = k.real("poles", (npol,), lo=-1, hi=1)
    w = k.real("weights", (npol,), lo=0.05, hi=1)
    P, Wt = np.array(p.snap), np.array(w.snap)
    Wt = Wt / Wt.sum()
    npz = k.choice("npz", [12, 16])
    izp, _ = k.call("gftool.pade_frequencies", npz, be)
    iz = np.asarray(izp)
    g = np.sum(Wt / (iz[:, None] - P), axis=-1)
    nt = 257
    tau = np.linspace(0, be, nt)
    gt = -np.sum(Wt / (1 + np.exp(-be * P)) * np.exp(-tau[:, None] * P), axis=-1)
    if k.choice("direction", ["izp2tau", "tau2izp"]) == "izp2tau":
        kw = {}
        if k.choice("moments", [1, 2]) == 2:
            kw["moments"] = np.array([1.0, float(np.sum(Wt * P))])
        r = k.call("gftool.fourier.izp2tau", iz, g, tau, be, **kw)
        k.ensure_shape("shape", r, (nt,))
        k.ensure("accuracy izp2tau", bool(np.max(np.abs(np.asarray(r) - gt)) < 0.02))
        k.ensure("jump is the first moment", bool(abs(np.asarray(r)[0] + np.asarray(r)[-1] + 1) < 1e-6))
    else:
        kw = {}
        if k.choice("moments", [0, 1, 2]):
            kw["moments"] = np.array([1.0, float(np.sum(Wt * P))])
        if k.choice("occ", [False, True]):
            kw["occ"] = float(np.sum(Wt / (1 + np.exp(be * P))))
        r = k.call("gftool.fourier.tau2izp", gt, be, iz, **kw)
        k.ensure_shape("shape", r, (npz,))
        k.ensure("accuracy tau2izp", bool(np.max(np.abs(np.asarray(r) - g)) < 1e-3 * (1 + np.abs(g).max())))


def c_izp_width(k):
    """izp2tau/tau2izp: for the width the minimisation returns, the result is the fit of C05 with all options handed on (minimisation replaced by a recorder)"""
    if k.symbolic:
        k.only_concrete()
    from types import SimpleNamespace
    import numpy as np
    import scipy.optimize as so
    beta = float(k.real("beta", lo=2, hi=10).e)
    n = k.choice("n_pole", [4, 5, 6])
    izp, _ = k.fn("gftool.pade_frequencies")(n, beta)
    width = float(k.real("width", lo=0.5, hi=2).e)
    nt = k.choice("nt", [16, 25])
    tau = np.linspace(0, beta, nt)
    P, Wt = k.real("poles", (3,), lo=-1, hi=1).snap, k.real("weights", (3,), lo=0.25, hi=1).snap
    f = k.choice("fct", ["izp2tau", "tau2izp"])
    basis = k.fn("gftool.basis.pole")
    calls = []

    def fake(fun, *a, **kw):
        calls.append([float(fun(x)) for x in (0.0, width, 2 * width)])
        return SimpleNamespace(x=width, fun=calls[-1][1])
    fourier = k.fn("gftool.fourier")
    kw = {}
    if f == "izp2tau":
        data = np.sum(Wt / (izp[:, None] - P), axis=-1) + k.complex("noise", (n,)).snap * 0.01
        m = k.choice("moments", [0, 1, 2])
        if m:
            kw["moments"] = np.array([Wt.sum(), np.sum(Wt * P)])[:m]
        fit = lambda w, full: basis.PoleFct.from_z(izp, data, n_pole=n, moments=kw.get("moments", np.ones(1)) if full else kw.get("moments", np.ones(1))[:1], width=w)
        err = lambda p: np.linalg.norm(data - p.eval_z(izp))
        want = basis.PoleGf(*fit(width, True)).eval_tau(tau, beta)
        args = (izp, data, tau, beta)
    else:
        data = basis.gf_tau(tau, P, Wt, beta) + k.real("noise", (nt,), lo=-1, hi=1).snap * 0.02
        m = k.choice("moments", [0, 1, 2])
        jump = -data[-1:] - data[:1]
        if m:
            kw["moments"] = np.array([jump[0], np.sum(Wt * P)])[:m]
        if k.choice("occ", [False, True]):
            kw["occ"] = 0.5 * float(Wt.sum())
        if k.choice("weight", [False, True]):
            kw["weight"] = k.real("weight", (nt,), lo=0.25, hi=4).snap
        opt = dict(occ=kw.get("occ", False), weight=kw.get("weight"))
        fit = lambda w, full: basis.PoleGf.from_tau(data, n_pole=n, beta=beta, moments=kw.get("moments", jump) if full else jump, width=w, **(opt if full else {**opt, "occ": False}))
        err = lambda p: np.linalg.norm(data - p.eval_tau(tau, beta=beta))
        want = fit(width, True).eval_z(izp)
        args = (data, beta, izp)
    old, own = so.minimize_scalar, fourier.__dict__.get("minimize_scalar")
    try:
        so.minimize_scalar = fake
        if own is not None:
            fourier.minimize_scalar = fake
        r = k.call("gftool.fourier." + f, *args, **kw)
    finally:
        so.minimize_scalar = old
        if own is not None:
            fourier.minimize_scalar = own
    k.assume(len(calls) == 1)
    close = lambda a, b: bool(np.all(np.abs(np.asarray(a) - b) <= 1e-7 * (1 + np.max(np.abs(b)))))
    k.ensure("fit with the optimal width", close(r, want))
    k.ensure("error for width", close(calls[0][1:], [err(fit(width, True)), err(fit(2 * width, True))]))
    k.ensure("error without width", close(calls[0][:1], [err(fit(0.0, False))]))


c_izp_width.concrete_runs = 0.5
