"""C08 Laplace transform of real-time Green's functions"""


def _setup(k, lo=2, equidistant=True):
    N = k.dim("N", lo=lo, bounded=(lo, lo + 1))
    n = k.dim("n")
    lay = k.choice("layout", ["1", "b", "zb"])
    b = k.dim("b") if lay != "1" else 1
    gs = (N,) if lay == "1" else (b, N)
    zs = (b, n) if lay == "zb" else (n,)
    out = (n,) if lay == "1" else (b, n)
    g = k.complex("gf_t", gs)
    z = k.complex("z", zs, im="pos")
    zz = (lambda i: z[i]) if lay in ("1", "zb") else (lambda i: z[i[-1]])
    gg = (lambda i, j: g[j]) if lay == "1" else (lambda i, j: g[i[0], j])
    return N, n, g, z, zz, gg, out


def _times(k, N):
    """equidistant times starting anywhere >= 0"""
    t0 = k.real("t0", lo=0, samp=(0, 4))
    dt = k.real("dt", pos=True, samp=(0.0625, 1))
    return dt, k.derived("tt", (N,), "f", lambda j: t0 + dt * j)


def c_trapz(k):
    """trapezoidal rule on arbitrary grids"""
    N, n, g, z, zz, gg, out = _setup(k)
    t = k.real("tt", (N,), lo=0)
    k.assume_forall(lambda j: t[j] <= t[j + 1], N - 1)
    api = k.choice("api", ["back end", "tt2z"])
    r = (k.call("gftool.fourier.tt2z_trapz", t, g, z) if api == "back end"
         else k.call("gftool.fourier.tt2z", t, g, z, laplace=k.fn("gftool.fourier.tt2z_trapz")))
    k.ensure_eq("trapezoidal rule", r, lambda *i: k.sum(
        lambda j: (t[j + 1] - t[j]) / 2 * (gg(i, j) * k.exp(k.I * zz(i) * t[j]) + gg(i, j + 1) * k.exp(k.I * zz(i) * t[j + 1])), N - 1), out)
    k.frame()


def c_trapz_sorted(k):
    """as c_trapz with sorted random grids (bounded)"""
    k.only_concrete()
    N, n, g, z, zz, gg, out = _setup(k)
    d = k.real("dtt", (N,), lo=0, hi=1)
    t = k.derived("tt", (N,), "f", lambda j: k.sum(lambda q: d[q], j + 1))
    api = k.choice("api", ["back end", "tt2z"])
    r = (k.call("gftool.fourier.tt2z_trapz", t, g, z) if api == "back end"
         else k.call("gftool.fourier.tt2z", t, g, z, laplace=k.fn("gftool.fourier.tt2z_trapz")))
    k.ensure_eq("trapezoidal rule", r, lambda *i: k.sum(
        lambda j: (t[j + 1] - t[j]) / 2 * (gg(i, j) * k.exp(k.I * zz(i) * t[j]) + gg(i, j + 1) * k.exp(k.I * zz(i) * t[j + 1])), N - 1), out)
    k.frame()


def c_lin(k):
    """exact Laplace integral of the linear spline"""
    N, n, g, z, zz, gg, out = _setup(k)
    dt, t = _times(k, N)
    api = k.choice("api", ["back end", "tt2z"])
    r = k.call("gftool.fourier.tt2z_lin" if api == "back end" else "gftool.fourier.tt2z", t, g, z)

    def spec(*i):
        x = k.I * zz(i) * dt
        w1 = (k.exp(x) - 1) / x
        w2 = (k.exp(x) - w1) / x
        return dt * k.sum(lambda j: k.exp(k.I * zz(i) * t[j]) * (w1 * gg(i, j) + w2 * (gg(i, j + 1) - gg(i, j))), N - 1)
    k.ensure_eq("Laplace integral of the linear spline", r, spec, out)
    k.frame()


def c_lin_zero(k):
    """z = 0 is the plain integral of the spline"""
    k.only_concrete()
    N, n = k.dim("N", lo=2), k.dim("n")
    bs = (k.dim("b"),) if k.choice("batch", [False, True]) else ()
    g = k.complex("gf_t", bs + (N,))
    re = k.real("re", (n,), kind="i", lo=-1, hi=1)
    im = k.real("im", (n,), kind="i", lo=0, hi=1)
    z = k.derived("z", (n,), "c", lambda i: re[i] * (k.frac(3, 4)) + k.I * im[i] * k.frac(1, 2))
    dt, t = _times(k, N)
    r = k.call("gftool.fourier.tt2z", t, g, z)

    def spec(*i):
        zi = z[i[-1]]
        gg = lambda j: g[i[:-1] + (j,)]

        def gen():
            x = k.I * zi * dt
            w1 = (k.exp(x) - 1) / x
            w2 = (k.exp(x) - w1) / x
            return dt * k.sum(lambda j: k.exp(k.I * zi * t[j]) * (w1 * gg(j) + w2 * (gg(j + 1) - gg(j))), N - 1)
        return k.ite(k.eq(zi, 0), lambda: dt * k.sum(lambda j: (gg(j) + gg(j + 1)) / 2, N - 1), gen)
    k.ensure_eq("Laplace integral of the linear spline", r, spec, bs + (n,))
    k.frame()


def c_simps(k):
    """Simpson weights 1/3, 4/3, 2/3, 4/3, ... (no correction at the truncated end)"""
    N, n, g, z, zz, gg, out = _setup(k)
    dt, t = _times(k, N)
    r = k.call("gftool.fourier.tt2z_simps", t, g, z)
    w = lambda j: k.ite(k.eq(j, 0), k.frac(1, 3), lambda: k.ite(k.eq(j - 2 * k.fdiv(j, 2), 1), k.frac(4, 3), k.frac(2, 3)))
    k.ensure_eq("Simpson rule", r, lambda *i: dt * k.sum(lambda j: w(j) * gg(i, j) * k.exp(k.I * zz(i) * t[j]), N), out)
    k.frame()


def c_domain(k):
    """times and frequencies must belong to the same (retarded/advanced) half plane; else ValueError"""
    N, n = k.dim("N", lo=2), k.dim("n")
    t = k.real("tt", (N,))
    g = k.complex("gf_t", (N,))
    z = k.complex("z", (n,))
    bad = k.and_(k.or_(k.exists(lambda j: t[j] < 0, N), k.exists(lambda i: k.im(z[i]) < 0, n)),
                 k.or_(k.exists(lambda j: t[j] > 0, N), k.exists(lambda i: k.im(z[i]) > 0, n)))
    r = k.call_raises(ValueError, bad, "gftool.fourier.tt2z", t, g, z, laplace=k.fn("gftool.fourier.tt2z_trapz"))
    k.ensure_shape("shape", r, (n,))


def c_advanced(k):
    """advanced transform: lower half plane, non-positive times"""
    N, n = k.dim("N", lo=2), k.dim("n")
    dt = k.real("dt", pos=True, samp=(0.0625, 1))
    t = k.derived("tt", (N,), "f", lambda j: -dt * j)
    g = k.complex("gf_t", (N,))
    z = k.complex("z", (n,), im="neg")
    r = k.call("gftool.fourier.tt2z", t, g, z)

    def spec(i):
        x = -k.I * z[i] * dt
        w1 = (k.exp(x) - 1) / x
        w2 = (k.exp(x) - w1) / x
        return -dt * k.sum(lambda j: k.exp(k.I * z[i] * t[j]) * (w1 * g[j] + w2 * (g[j + 1] - g[j])), N - 1)
    k.ensure_eq("Laplace integral of the linear spline", r, spec, (n,))


def c_rejects(k):
    """grids that are not equidistant are rejected where the back end needs equidistant times"""
    k.only_concrete()
    N = k.int("N", 6, 12)
    d = k.real("d", (N,), lo=0.0625, hi=1)
    t = k.derived("tt", (N,), "f", lambda j: k.sum(lambda q: d[q], j))
    g = k.complex("gf_t", (N,))
    z = k.complex("z", (3,), im="pos")
    k.assume(k.exists(lambda j: k.abs(d[j] - d[0]) > k.frac(1, 100), N - 1))
    f = k.choice("fct", ["tt2z_lin", "tt2z_pade", "tt2z_herm2", "tt2z_lpz"])
    k.call_raises(ValueError, True, "gftool.fourier." + f, t, g, z)


def c_rejects_quad(k):
    k.only_concrete()
    g = k.complex("gf_t", (12,))
    z = k.complex("z", (3,), im="pos")
    t = k.derived("tt", (12,), "f", lambda j: j * 0.25)
    f = k.choice("fct", ["tt2z_pade", "tt2z_herm2", "tt2z_lpz"])
    k.call_raises(ValueError, True, "gftool.fourier." + f, t, g, z, quad="gauss")


def c_empty(k):
    """empty inputs give empty / NaN results of the broadcast shape"""
    k.only_concrete()
    import numpy as np
    N, n, b = k.int("N", 2, 4), k.int("n", 0, 2), k.int("b", 0, 2)
    k.assume(n == 0 or b == 0)
    t = k.derived("tt", (N,), "f", lambda j: j * 0.25)
    r = k.call("gftool.fourier.tt2z", t, np.ones((b, N), dtype=complex), np.ones(n) * 1j)
    k.ensure_shape("shape", r, (b, n))


def c_rational(k):
    """Pade, Hermite-Pade and linear-prediction back ends sum the infinite quadrature series of a sum of exponentials exactly"""
    k.only_concrete()
    import numpy as np
    npol = k.int("npol", 1, 3)
    p = k.real("poles", (npol,), lo=-1, hi=1)
    w = k.real("weights", (npol,), lo=0.25, hi=1)
    P, Wt = np.array(p.snap), np.array(w.snap)
    k.assume(bool(npol == 1 or np.min(np.abs(P[:, None] - P) + 10 * np.eye(npol)) > 0.2))
    dt = float(k.real("dt", lo=0.5, hi=1).e)
    N = k.int("N", 12, 20)
    n = k.int("n", 1, 4)
    z = k.complex("z", (n,), im="pos", mag=0.5)
    t = dt * np.arange(N)
    damp = float(k.real("damping", lo=0, hi=0.25).e)
    P = P - 1j * damp
    bs = k.choice("batch", [(), (2,)])
    sc = np.array([1.0, -0.5]) if bs else np.array(1.0)
    gf = -1j * np.sum(Wt * np.exp(-1j * P * t[:, None]), axis=-1)
    gf = sc[..., None] * gf
    zz = np.array(z.snap)
    y = np.exp(1j * (zz[:, None] - P) * dt)            # |y| < 1
    k.assume(bool(np.abs(1 - y).min() > 0.05))
    quad = k.choice("quad", ["trapz", "simps"])
    geo = 1 / (1 - y)
    if quad == "trapz":
        ser = dt * (geo - 0.5)
    else:
        # 1/3 + 4/3 y + 2/3 y^2 + ... = 1/3 (1 + 4y/(1-y^2) + 2 y^2/(1-y^2))
        ser = dt / 3 * (1 + (4 * y + 2 * y * y) / (1 - y * y))
        k.assume(bool(np.abs(1 + y).min() > 0.05))
    want = sc[..., None] * (-1j * np.sum(Wt * ser, axis=-1))
    f = k.choice("fct", ["tt2z_pade", "tt2z_lpz"])
    kw = {"quad": quad}
    # degree -1 means den_deg = num_deg = (N-1)//2
    if f == "tt2z_pade":
        meth = k.choice("pade", ["pade", "pader", "default"])
        if meth != "default":
            kw["pade"] = k.fn("gftool.hermpade." + meth)
        # pade solves a Toeplitz system of size deg, which is singular if deg exceeds the number of poles
        np_eff = npol if quad == "trapz" else 2 * npol
        N2 = 2 * np_eff + 1
        k.assume(N2 <= N)
        if meth != "pader":
            gf, t = gf[..., :N2], t[:N2]
    else:
        kw["order"] = 1 + (npol if quad == "trapz" else 2 * npol)   # the corrected first weight costs one order
        k.assume(3 * kw["order"] < N)
    r = k.call("gftool.fourier." + f, t, gf, zz, **kw)
    # badly conditioned samples: a perturbation of the size of rounding errors changes the result
    noise = 1 + 1e-13 * np.cos(7.0 * np.arange(len(t))**2)
    r2 = k.call("gftool.fourier." + f, t, gf * noise, zz, **kw)
    k.assume(bool(np.shape(r) == np.shape(r2) and np.all(np.abs(np.asarray(r) - r2) <= 1e-6 * (1 + np.abs(r)))))
    k.ensure_eq("infinite quadrature series", r, lambda *i: want[i], bs + (n,), tol=1e-3, atol=1e-4)


c_rational.concrete_runs = 2


def c_herm2(k):
    """the square Hermite-Pade back end approximates the infinite quadrature sum (bounded accuracy)"""
    k.only_concrete()
    import numpy as np
    t = np.linspace(0, 25, 101)
    # semicircular GF has a square-root singularity: reproduced by the quadratic approximant
    D = float(k.real("D", lo=0.75, hi=1.25).e)
    from scipy.special import jv
    gf = np.where(t == 0, -1j, -2j * jv(1, D * np.where(t == 0, 1, t)) / (D * np.where(t == 0, 1, t)))
    n = k.int("n", 1, 4)
    x = k.real("x", (n,), lo=-2, hi=2)
    eta = float(k.real("eta", lo=0.125, hi=1).e)
    z = np.array(x.snap) + 1j * eta
    r = k.call("gftool.fourier.tt2z_herm2", t, gf, z)
    zr = z / D
    want = 2 / D * (zr - np.sqrt(zr - 1) * np.sqrt(zr + 1))
    k.ensure_shape("shape", r, (n,))
    k.ensure("accuracy", bool(np.max(np.abs(np.asarray(r) - want)) < 0.05))


def _weighted(k, quad, dt, gg):
    """terms of the quadrature series without end point: rectangle/Simpson weights, corrected at the first time"""
    if quad == "trapz":
        return lambda i, j: dt * gg(i, j) * k.ite(k.eq(j, 0), k.frac(1, 2), 1)
    return lambda i, j: dt / 3 * gg(i, j) * k.ite(k.eq(j, 0), 1, lambda: k.ite(k.eq(k.fdiv(j, 2) * 2, j), 2, 4))


def _series(k, fct, quads=("default", "trapz", "simps")):
    N = k.dim("N", lo=6, bounded=(6, 7, 8, 9))
    n = k.dim("n")
    lay = k.choice("layout", ["1", "b"])
    b = k.dim("b") if lay == "b" else 1
    g = k.complex("gf_t", (N,) if lay == "1" else (b, N))
    z = k.complex("z", (n,), im="pos")
    gg = (lambda i, j: g[j]) if lay == "1" else (lambda i, j: g[i[0], j])
    out = (n,) if lay == "1" else (b, n)
    dt = k.real("dt", pos=True, samp=(0.0625, 1))
    t = k.derived("tt", (N,), "f", lambda j: dt * j)
    W = k.complex("W", (N,), layout=False)
    Wv = W.v if k.symbolic else W.snap
    api = k.choice("api", ["back end", "tt2z"] if len(quads) > 1 else ["tt2z"])
    quad = k.choice("quad", list(quads))
    kw = {} if quad == "default" else dict(quad=quad)
    extra = {} if api == "back end" else {"fast": 3}
    deg = k.choice("degree", [None, -1, 0, -2] if len(quads) > 1 else [None, 0]) if fct == "pade" else None
    if deg is not None:
        kw["degree"] = deg
    d = 0 if deg is None else deg + 1

    class Approximant:
        def __init__(self, coeffs):
            self.coeffs = coeffs

        def eval(self, y):
            return (self.coeffs * Wv).sum(-1) + y

    def pade(coeffs, *a, **opt):
        if fct == "pade":
            m = k.fdiv(N - d - 1, 2)
            k.ensure("degrees", not a and k.and_(k.eq(opt.pop("den_deg"), m), k.eq(opt.pop("num_deg"), m + d)))
        else:
            m = k.fdiv(N - 2, 3)
            k.ensure("degrees", not a and k.and_(*[k.eq(opt.pop(x), m) for x in ("deg_p", "deg_q", "deg_r")]))
        k.ensure("options", opt == extra)
        return Approximant(coeffs)
    kw[fct] = pade
    name = "gftool.fourier.tt2z_" + fct
    if api == "back end":
        r = k.call(name, t, g, z, **kw, **extra)
    else:
        r = k.call("gftool.fourier.tt2z", t, g, z, laplace=k.fn(name), **kw, **extra)
    c = _weighted(k, "simps" if quad == "simps" else "trapz", dt.e, gg)
    k.ensure_eq("series", r, lambda *i: k.sum(lambda j: W[j] * c(i, j), N) + k.exp(k.I * z[i[-1]] * dt), out)
    k.frame()


def c_series_pade(k):
    """tt2z_pade: the approximant is built from the quadrature series with the documented degrees and options, and evaluated at exp(i z dt)"""
    _series(k, "pade", ("default", "trapz"))


def c_series_pade_simps(k):
    """tt2z_pade: as c_series_pade for the Simpson rule"""
    _series(k, "pade", ("simps",))


def c_series_herm2(k):
    """tt2z_herm2: the approximant is built from the quadrature series with the documented degrees and options, and evaluated at exp(i z dt)"""
    _series(k, "herm2")


def c_lpz_options(k):
    """tt2z_lpz: prediction coefficients of the quadrature series (contract C19), of the documented order and with the given options (bounded)"""
    k.only_concrete()
    import numpy as np
    N = k.int("N", 8, 16)
    lay = k.choice("layout", ["1", "b"])
    g = k.complex("gf_t", (N,) if lay == "1" else (2, N)).snap
    z = k.complex("z", (3,), im="pos").snap
    dt = float(k.real("dt", lo=0.25, hi=1).e)
    quad = k.choice("quad", ["default", "trapz", "simps"])
    kw = {} if quad == "default" else dict(quad=quad)
    order = k.choice("order", [None, 1, 2, 3])
    rc = k.choice("rcond", [None, 1e-1, 0.5])
    opt = {} if rc is None else dict(rcond=rc)
    w = np.full(N, dt)
    if quad == "simps":
        w = dt / 3 * np.where(np.arange(N) % 2, 4, 2)
        w[0] = dt / 3
    else:
        w[0] *= 0.5
    c = w * g
    M = N // 2 if order is None else order
    lp = k.fn("gftool.linearprediction.pcoeff_covar")
    a = np.concatenate([np.ones(g.shape[:-1] + (1,)), lp(c, order=M, **opt)[0]], axis=-1)
    y = np.exp(1j * z * dt)
    num = sum(sum(a[..., q] * c[..., l - q] for q in range(l + 1))[..., None] * y**l for l in range(M))
    den = sum(a[..., l, None] * y**l for l in range(M + 1))
    k.assume(bool(np.all(abs(den) > 0.05) and np.all(abs(a) < 20)))
    if order is not None:
        kw["order"] = order
    r = k.call("gftool.fourier.tt2z_lpz", dt * np.arange(N), g, z, **kw, **opt)
    k.ensure("prediction summed", bool(np.allclose(r, num / den, rtol=1e-5, atol=1e-6)))
