"""C22 rational functions by zeros and poles, Pade continuation by poles"""


def _close(k, a, b, tol=9):
    return k.eq(a, b) if k.symbolic else k.abs(a - b) <= k.frac(1, 10**tol) * (1 + k.abs(b))


def c_zeropole(k):
    """eval = a prod(z - zeros)/prod(z - poles), reciprocal = 1/eval, for all numbers of zeros and poles and all shapes of z"""
    n, m = k.dim("n", lo=0, bounded=(0, 1, 2, 3)), k.dim("m", lo=0, bounded=(0, 1, 2, 3))
    zs = tuple(k.dim(d) for d in {"0": (), "1": ("q",), "2": ("q", "l")}[k.choice("layout", ["0", "1", "2"])])
    stack = k.choice("stack", [False, True])
    bs = (zs[-1],) if stack and zs else ()
    ze, po = k.complex("zeros", bs + (n,)), k.complex("poles", bs + (m,))
    z = k.complex("z", zs, im="pos")
    am = k.complex("amplitude", (), im="nonzero") if k.choice("amplitude", [True, False]) else None
    a = 1 if am is None else am.e
    bi = lambda i: (i[-1],) if bs else ()
    num = lambda i: k.prod(lambda j: z[i] - ze[bi(i) + (j,)], n)
    den = lambda i: k.prod(lambda j: z[i] - po[bi(i) + (j,)], m)
    f = k.fn("gftool.basis.ZeroPole")(*( (x.v for x in (ze, po)) if k.symbolic else (x.snap for x in (ze, po)) ), *(() if am is None else ((am.v if k.symbolic else am.e.v),)))
    if not k.symbolic:
        k.assume(k.forall(lambda *i: k.and_(k.abs(den(i)) > 1e-3, k.abs(num(i)) > 1e-3), *zs) if zs else k.and_(k.abs(den(())) > 1e-3, k.abs(num(())) > 1e-3))
    k.ensure_eq("eval", k.call(f.eval, z), lambda *i: a * num(i) / den(i), zs, tol=1e-7)
    k.ensure_eq("reciprocal", k.call(f.reciprocal, z), lambda *i: den(i) / (a * num(i)), zs, tol=1e-7)
    k.frame()


def c_ratpol(k):
    """to_ratpol is the same function"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    n, m = k.dim("n", lo=0, bounded=(0, 1, 2, 4)), k.dim("m", lo=0, bounded=(0, 1, 2, 4))
    ze, po = k.complex("zeros", (n,), mag=3).snap, k.complex("poles", (m,), mag=3).snap
    z = k.complex("z", (4,), im="pos", mag=3).snap + 4j
    am = complex(k.complex("a", ()).e.v)
    k.assume(bool(np.all(abs(np.subtract.outer(z, po)) > 0.1)))
    f = k.fn("gftool.basis.ZeroPole")(ze, po, am)
    r = k.call(f.to_ratpol)
    k.ensure("same function", bool(np.allclose(r.eval(z), f.eval(z), rtol=1e-7, atol=1e-9)))
    k.ensure("degrees", r.numer.degree() <= n and r.denom.degree() == m)


def _pade(k, ze, po, re, am):
    v = lambda x: x.v if k.symbolic else (x.snap if x.shape else x.e.v)
    return k.fn("gftool.polepade.PadeApprox")(zeros=v(ze), poles=v(po), residues=v(re), amplitude=v(am))


def c_padeapprox(k):
    """eval_polefct = [amplitude if as many zeros as poles] + sum residues/(z - poles); eval_zeropole and moments accordingly"""
    m = k.dim("m", lo=1, bounded=(1, 2, 3))
    less = k.choice("less", [0, 1, 2])
    k.assume(m >= less)
    n = m - less
    zs = tuple(k.dim(d) for d in {"0": (), "1": ("q",), "2": ("q", "l")}[k.choice("layout", ["0", "1", "2"])])
    ze, po, re = k.complex("zeros", (n,)), k.complex("poles", (m,), im="neg"), k.complex("residues", (m,))
    am = k.complex("amplitude", ())
    z = k.complex("z", zs, im="pos", layout="array")
    p = _pade(k, ze, po, re, am)
    k.ensure_eq("eval_polefct", k.call(p.eval_polefct, z), lambda *i: (am.e if less == 0 else 0) + k.sum(lambda j: re[j] / (z[i] - po[j]), m), zs, tol=1e-7)
    if k.symbolic or True:
        k.ensure_eq("eval_zeropole", k.call(p.eval_zeropole, z), lambda *i: am.e * k.prod(lambda j: z[i] - ze[j], n) / k.prod(lambda j: z[i] - po[j], m), zs, tol=1e-6)
    k.ensure_eq("moments", k.call(p.moments, [1, 2, 3]), lambda i: k.sum(lambda j: re[j] * k.ite(k.eq(i, 0), 1, lambda: k.ite(k.eq(i, 1), po[j], lambda: po[j] * po[j])), m), (3,), tol=1e-7)
    k.frame()


def c_asymptotic(k):
    """mean and standard deviation of f prod(z - poles)/prod(z - zeros), weighted if weights are given"""
    N = k.dim("N", lo=2, bounded=(2, 3, 4))
    n, m = k.dim("n", lo=0, bounded=(0, 1, 2)), k.dim("m", lo=0, bounded=(0, 1, 2))
    ze, po = k.complex("zeros", (n,), im="neg"), k.complex("poles", (m,), im="neg")
    z, f = k.complex("z", (N,), im="pos"), k.complex("fct", (N,))
    w = k.real("weight", (N,), pos=True, samp=(0.25, 4)) if k.choice("weighted", [False, True]) else None
    if not k.symbolic:
        import numpy as np
        k.assume(bool(n == 0 or np.min(abs(z.snap[:, None] - ze.snap)) > 0.05))
    r = k.call("gftool.polepade.asymptotic", z, f, zeros=ze, poles=po, weight=w)
    ratio = lambda j: f[j] * k.prod(lambda l: z[j] - po[l], m) / k.prod(lambda l: z[j] - ze[l], n)
    wt = (lambda j: 1) if w is None else (lambda j: w[j])
    tot = N if w is None else k.sum(wt, N)
    mean = k.sum(lambda j: wt(j) * ratio(j), N) / tot
    asym, std = r
    k.ensure_eq("asymptote", asym, mean, (), tol=1e-6)
    if k.symbolic:
        o = k.out(asym).e
        var = k.sum(lambda j: wt(j) * k.abs(ratio(j) - o)**2, N) / (tot - 1 if w is None else tot)
        k.ensure("variance", k.eq(k.out(std).e**2, var))
        k.ensure("standard deviation >= 0", k.out(std).e >= 0)
    else:
        rr = f.snap * (z.snap[:, None] - po.snap).prod(-1) / (z.snap[:, None] - ze.snap).prod(-1)
        ws = np.ones(len(rr)) if w is None else w.snap
        mu = (ws * rr).sum() / ws.sum()
        sd = np.sqrt((ws * abs(rr - mu)**2).sum() / (len(rr) - 1 if w is None else ws.sum()))
        k.ensure("standard deviation", bool(abs(std - sd) <= 1e-6 * (1 + abs(rr).max())))
    k.frame()


def c_residues_ols(k):
    """least-squares residues: normal equations of the weighted problem; given moments are met exactly; too many: ValueError"""
    m = k.dim("m", lo=1, bounded=(1, 2, 3))
    N = m + k.int("more", 1, bounded=(1, 2))
    po = k.complex("poles", (m,), im="neg")
    z, f = k.complex("z", (N,), im="pos"), k.complex("fct", (N,))
    w = k.real("weight", (N,), mag=4) if k.choice("weighted", [False, True]) else None
    wt = (lambda j: 1) if w is None else (lambda j: w[j])
    if not k.symbolic:
        import numpy as np
        k.assume(bool(w is None or np.min(abs(w.snap)) > 0.05))
        k.assume(bool(np.linalg.cond(1 / (z.snap[:, None] - po.snap)) < 1e5 and np.linalg.cond(np.vander(po.snap)) < 1e4))
        z0 = f.snap.copy()
    nm = k.choice("moments", ["none", "some", "too many"])
    if nm == "none":
        r = k.call("gftool.polepade.residues_ols", z, f, po, weight=w)
        R = k.out(r[0])
        k.ensure_shape("residues", r[0], (m,))
        e = lambda j: wt(j) * (k.sum(lambda l: R[l] / (z[j] - po[l]), m) - f[j])
        eqn = lambda l: k.sum(lambda j: k.conj(wt(j) / (z[j] - po[l])) * e(j), N)
        k.ensure("normal equations", lambda l: k.eq(eqn(l), 0) if k.symbolic else k.abs(eqn(l)) <= 1e-6 * (1 + k.sum(lambda j: k.abs(f[j]), N)) * 100, m)
    else:
        nmom = k.dim("n_mom", lo=1, bounded=(1, 2, 3))
        mom = k.real("mom", (nmom,))
        if nm == "too many":
            k.assume(nmom > m)
            k.call_raises(ValueError, True, "gftool.polepade.residues_ols", z, f, po, weight=w, moments=mom)
            return
        k.assume(nmom <= m)
        r = k.call("gftool.polepade.residues_ols", z, f, po, weight=w, moments=mom)
        R = k.out(r[0])
        k.ensure_shape("residues", r[0], (m,))
        mm = lambda l: k.sum(lambda j: R[j] * k.pow(po[j], l), m) - mom[l]
        k.ensure("moments met", lambda l: k.eq(mm(l), 0) if k.symbolic else k.abs(mm(l)) <= 1e-6 * (1 + k.sum(lambda j: k.abs(R[j]), m)), nmom)
        if not k.symbolic:
            A = (1 / (z.snap[:, None] - po.snap)) * (1 if w is None else w.snap[:, None])
            b = f.snap * (1 if w is None else w.snap)
            C = np.vander(po.snap, int(nmom), increasing=True).T
            # optimal among all residues with these moments: gradient orthogonal to the null space of C
            _, s, vh = np.linalg.svd(C)
            null = vh[int(nmom):].conj().T
            grad = null.conj().T @ A.conj().T @ (A @ np.asarray(r[0]) - b)
            k.ensure("optimal", bool(np.all(abs(grad) <= 1e-6 * (1 + np.linalg.norm(A)**2 * (1 + np.linalg.norm(r[0])) + np.linalg.norm(b)))))
            k.ensure("residual norm", bool(np.allclose(r[1], np.linalg.norm(A @ r[0] - b), rtol=1e-6, atol=1e-8)))
    if not k.symbolic:
        k.ensure("input kept", bool(np.array_equal(f.snap, z0)))
    k.frame()


def c_continuation_structure(k):
    """continuation: zeros and poles are searched in rotated coordinates and rotated back; the constant is split off for degree 0"""
    if not k.symbolic:
        return
    N = k.dim("N")
    m = k.int("m", 1)
    deg = k.choice("degree", [-1, 0, -2])
    rot = k.choice("rotate", [True, False])
    real = k.choice("real_asymp", [True, False])
    wgt = k.choice("weight", [False, True])
    w = k.real("w", (N,)) if wgt else None
    k.assume(m + deg >= 0)
    f = k.complex("fct", (N,))
    if k.choice("points", ["imaginary", "complex"]) == "imaginary":
        y = k.real("y", (N,), pos=True)
        z = k.derived("z", (N,), "c", lambda j: k.I * y[j])
    else:
        z = k.complex("z", (N,), im="pos")
        k.assume_forall(lambda j: k.re(z[j]) > 0, N)
    P, Z, R = k.complex("P", (m,)), k.complex("Z", (m + deg,)), k.complex("R", (m,))
    a = k.complex("asym", ())
    mom = k.real("mom", (2,))
    rt = (lambda v: v / k.I) if rot else (lambda v: v)
    back = (lambda v: v * k.I) if rot else (lambda v: v)

    def same(name, x, spec, shape):
        k.ensure_eq(name, x, spec, shape)

    def wcheck(weight):
        if w is None:
            k.ensure("weight", weight is None)
        else:
            same("weight", weight, lambda j: w[j], (N,))

    def number_poles(z_, fct_z, *, degree=-1, weight=None, n_poles0=None, vandermond=None):
        same("number_poles z", z_, lambda j: rt(z[j]), (N,))
        same("number_poles fct", fct_z, lambda j: f[j], (N,))
        k.ensure("number_poles degree", degree == deg)
        wcheck(weight)
        return m

    def poles(z_, fct_z, *, n=None, m, vandermond=None, weight=None):
        same("poles z", z_, lambda j: rt(z[j]), (N,))
        same("poles fct", fct_z, lambda j: f[j], (N,))
        k.ensure("poles n", k.eq(n, M + deg))
        k.ensure("poles m", k.eq(m, M))
        wcheck(weight)
        return P.v

    def zeros(z_, fct_z, poles, *, n=None, vandermond=None, weight=None):
        same("zeros z", z_, lambda j: rt(z[j]), (N,))
        same("zeros fct", fct_z, lambda j: f[j], (N,))
        same("zeros poles", poles, lambda j: P[j], (M,))
        k.ensure("zeros n", k.eq(n, M + deg))
        wcheck(weight)
        return Z.v

    def asymptotic(z_, fct_z, zeros, poles, weight=None):
        same("asymptotic z", z_, lambda j: z[j], (N,))
        same("asymptotic fct", fct_z, lambda j: f[j], (N,))
        same("asymptotic poles", poles, lambda j: back(P[j]), (M,))
        same("asymptotic zeros", zeros, lambda j: back(Z[j]), (M + deg,))
        wcheck(weight)
        return a.v, 0.0

    asy = k.re(a.e) if real else a.e

    def residues_ols(z_, fct_z, poles, weight=None, moments=()):
        same("residues z", z_, lambda j: z[j], (N,))
        same("residues fct", fct_z, lambda j: f[j] - (asy if deg == 0 else 0), (N,))
        same("residues poles", poles, lambda j: back(P[j]), (M,))
        same("moments", moments, lambda j: mom[j], (2,))
        wcheck(weight)
        return R.v, 0.0
    M = m
    for g in (number_poles, poles, zeros, asymptotic, residues_ols):
        k.stub("gftool.polepade." + g.__name__, g)
    r = k.call("gftool.polepade.continuation", z, f, degree=deg, weight=w, moments=mom, rotate=rot, real_asymp=real)
    same("poles", r.poles, lambda j: back(P[j]), (M,))
    same("zeros", r.zeros, lambda j: back(Z[j]), (M + deg,))
    same("residues", r.residues, lambda j: R[j], (M,))
    same("amplitude", r.amplitude, asy, ())
    k.frame()


def c_continuation_error(k):
    """degree > 0: ValueError"""
    N = k.dim("N", lo=3, bounded=(3, 4))
    z, f = k.complex("z", (N,), im="pos"), k.complex("fct", (N,))
    k.call_raises(ValueError, True, "gftool.polepade.continuation", z, f, degree=k.choice("degree", [1, 2]))


def c_number_poles_error(k):
    """a starting guess with too many poles for the number of points: ValueError"""
    N = k.dim("N", lo=3, bounded=(3, 4, 6))
    z, f = k.complex("z", (N,), im="pos"), k.complex("fct", (N,))
    deg = k.choice("degree", [-1, 0])
    n0 = k.int("n_poles0", 1, bounded=(2, 3, 4))
    k.assume(2 * n0 + deg >= N)
    k.call_raises(ValueError, True, "gftool.polepade.number_poles", z, f, degree=deg, n_poles0=n0 if k.symbolic else int(n0))


def _rational(k, m, less):
    """a rational function with m poles off the sampling points and m - less zeros"""
    import numpy as np
    pr, pi = k.real("pole_re", (m,), lo=-1.5, hi=1.5).snap, k.real("pole_im", (m,), lo=-0.6, hi=-0.2).snap
    zr, zi = k.real("zero_re", (m - less,), lo=-1.5, hi=1.5).snap, k.real("zero_im", (m - less,), lo=-0.7, hi=-0.1).snap
    po, ze = pr + 1j * pi, zr + 1j * zi
    al = np.concatenate([po, ze])
    k.assume(bool(all(abs(al[i] - al[j]) > 0.25 for i in range(len(al)) for j in range(i))))
    return po, ze


def c_recover(k):
    """a rational function is recovered: number of poles, poles, zeros, asymptote, residues, and values away from the samples"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    m = k.choice("m", [1, 2, 3])
    less = k.choice("less", [1, 0, 2])
    k.assume(m >= less)
    po, ze = _rational(k, m, less)
    am = float(k.real("amplitude", lo=0.5, hi=2).e)
    real = k.choice("real_asymp", [True, False])
    if not real:
        am = am * np.exp(1j * float(k.real("phase", lo=-3, hi=3).e))
    pts = k.choice("points", ["imag", "complex"])
    N = k.choice("N", [11, 16])
    z = 1j * np.linspace(0.3, 3, N) if pts == "imag" else np.linspace(-2, 2, N) + 0.4j + 0.3j * np.cos(np.arange(N))
    fct = lambda x: am * np.prod(x[..., None] - ze, -1) / np.prod(x[..., None] - po, -1)
    f = fct(z)
    wt = k.choice("weight", [False, True])
    w = 1 / (1 + abs(z)) if wt else None
    deg = -less
    d = dict(degree=deg, weight=w)
    api = k.choice("api", ["continuation", "steps"])
    srt = lambda a: np.sort_complex(np.round(a, 9))
    match = lambda a, b, tol: len(a) == len(b) and all(np.min(abs(a - x)) < tol for x in b)
    near = z[:3] + 0.15
    f0 = f.copy()
    if api == "steps":
        k.ensure("number of poles", k.call("gftool.polepade.number_poles", z, f, **d) == m)
        n0 = k.choice("guess", [1, 2, 3])
        k.ensure("number of poles from a guess", k.call("gftool.polepade.number_poles", z, f, n_poles0=n0, **d) == m) if n0 + deg >= 0 else None
        p = k.call("gftool.polepade.poles", z, f, n=m - less, m=m, weight=w)
        k.ensure("poles", match(p, po, 1e-4))
        q = k.call("gftool.polepade.zeros", z, f, po, n=m - less, weight=w)
        k.ensure("zeros", match(q, ze, 1e-4))
        a_, s_ = k.call("gftool.polepade.asymptotic", z, f, ze, po, weight=w)
        k.ensure("asymptote", bool(abs(a_ - am) < 1e-7 and s_ < 1e-6))
        return
    rot = k.choice("rotate", [None, True, False])
    res = np.array([am * np.prod(p - ze) / np.prod([p - q for q in po if q != p]) for p in po])
    mom = () if not k.choice("moments", [False, True]) else [res.sum(), (res * po).sum()][:m]
    r = k.call("gftool.polepade.continuation", z, f, moments=mom, rotate=rot, **({} if real else dict(real_asymp=False)), **d)
    k.ensure("poles", match(r.poles, po, 1e-4))
    k.ensure("zeros", match(r.zeros, ze, 1e-4))
    k.ensure("amplitude", bool(abs(r.amplitude - am) < 1e-4))
    k.ensure("residues", all(abs(r.residues[np.argmin(abs(r.poles - p))] - q) < 1e-3 for p, q in zip(po, res)))
    k.ensure("eval_polefct", bool(np.allclose(r.eval_polefct(near), fct(near), rtol=1e-4, atol=1e-4)))
    k.ensure("eval_zeropole", bool(np.allclose(r.eval_zeropole(near), fct(near), rtol=1e-4, atol=1e-4)))
    k.ensure("input kept", bool(np.array_equal(f, f0)))


def c_recover_axis(k):
    """sampling on the real axis, functions which are odd or vanish at the median of the samples"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    b, c = float(k.real("width", lo=0.4, hi=1.5).e), float(k.real("shift", lo=-1, hi=1).e)
    N = k.choice("N", [10, 12, 16])
    x = np.linspace(-2, 2, N)
    kind = k.choice("fct", ["odd", "odd complex", "shifted"] )
    po = np.array([1j * b, -1j * b])
    am = float(k.real("amplitude", lo=0.5, hi=2).e)
    if kind == "shifted":
        x = x + c
        po = po + c
    ze = np.array([c if kind == "shifted" else 0])
    fct = lambda v: am * (v - ze[0]) / ((v - po[0]) * (v - po[1]))
    f = fct(x)
    f = f.astype(complex) if kind == "odd complex" else f.real
    match = lambda a, b, tol: len(a) == len(b) and all(np.min(abs(a - y)) < tol for y in b)
    k.ensure("poles", match(k.call("gftool.polepade.poles", x, f, n=1, m=2), po, 1e-4))
    k.ensure("zeros", match(k.call("gftool.polepade.zeros", x, f, po, n=1), ze, 1e-4))
    r = k.call("gftool.polepade.continuation", x, f)
    k.ensure("continuation", match(r.poles, po, 1e-4) and match(r.zeros, ze, 1e-4) and abs(r.amplitude - am) < 1e-4)
    z = np.array([0.3 + 2j, -1 + 1j * b + 0.5j])
    k.ensure("eval", bool(np.allclose(r.eval_polefct(z), fct(z), rtol=1e-3, atol=1e-4)))
