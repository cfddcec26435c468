"""C14 coherent potential approximation"""


def _trafo(k):
    """an arbitrary Hilbert transform; the semicircular one in concrete evaluations"""
    def h_np(x):
        import numpy as np
        x = np.asarray(x, dtype=complex)
        return 2 / (x + np.sqrt(x - 1) * np.sqrt(x + 1))

    def h_mp(x):
        import mpmath
        x = mpmath.mpmathify(x)
        return 2 / (x + mpmath.sqrt(x - 1) * mpmath.sqrt(x + 1))
    return k.ufun("hilbert", h_np, "c", h_mp)


def _setup(k, self_im="neg", layouts=("0", "1", "b", "m", "c")):
    """shapes: scalar z, z (n,), common on-site energies, energies depending on the frequency axis (n, c), spins (s, 1, c), spin-dependent concentrations"""
    lay = k.choice("layout", list(layouts))
    c = k.dim("n_cmpt", bounded=(1, 2, 3))
    n = k.dim("n") if lay != "0" else 1
    s = k.dim("s") if lay in "mc" else 1
    zs = {"0": ()}.get(lay, (n,))
    es = {"b": (n, c), "m": (s, 1, c)}.get(lay, (c,))
    out = {"0": (), "1": (n,), "b": (n,), "m": (s, n), "c": (s, n)}[lay]
    z = k.complex("z", zs, im="pos", layout="array")
    e = k.real("e_onsite", es, mag=1)
    S = k.complex("self_cpa_z", out, im=self_im, mag=0.5, layout="array")
    zi = (lambda i: z[i[-1:]]) if zs else (lambda i: z[()])
    ei = {"b": lambda i, j: e[i[0], j], "m": lambda i, j: e[i[0], 0, j]}.get(lay, lambda i, j: e[j])
    return lay, c, out, z, e, S, zi, ei


def _conc(k, c, lay, out=()):
    """concentrations, not necessarily normalised, and the concentration c_j at index i of the output"""
    if lay != "c":
        cc = k.real("concentration", (c,), samp=(0.0625, 1))
        return cc, lambda i, j: cc[j]
    cc = k.real("concentration", (out[0], 1, c), samp=(0.0625, 1))
    return cc, lambda i, j: cc[i[0], 0, j]


def c_gf_cmpt(k):
    """component Green's functions: the impurity e_i embedded in the effective medium, 1/G_i = 1/G + Sigma - e_i"""
    lay, c, out, z, e, S, zi, ei = _setup(k)
    h = _trafo(k)
    r = k.call("gftool.cpa.gf_cmpt_z", z, S, e, hilbert_trafo=h)
    G = lambda i: h(zi(i) - S[i])
    k.ensure_eq("G_i(z)", r, lambda *i: G(i[:-1]) / (1 - (ei(i[:-1], i[-1]) - S[i[:-1]]) * G(i[:-1])), out + (c,))
    k.frame()


def _T(k, c, i, cc, S, zi, ei, h):
    G = h(zi(i) - S[i])
    T = k.sum(lambda j: cc(i, j) * (ei(i, j) - S[i]) / (1 - (ei(i, j) - S[i]) * G), c)
    return T, G


def c_self_root(k):
    """the root equation is T/(1 + T G) with the averaged T matrix; it vanishes only where the averaged component Green's function is the medium's"""
    lay, c, out, z, e, S, zi, ei = _setup(k)
    cc, ci = _conc(k, c, lay, out)
    h = _trafo(k)
    fx = k.choice("fxdpnt", [False, True])
    r = k.call("gftool.cpa.self_fxdpnt_eq" if fx else "gftool.cpa.self_root_eq", S, z, e, cc, hilbert_trafo=h)

    def spec(*i):
        T, G = _T(k, c, i, ci, S, zi, ei, h)
        return T / (1 + T * G) + (S[i] if fx else 0)
    k.ensure_eq("Sigma + root" if fx else "root", r, spec, out)
    k.frame()


def c_average(k):
    """for concentrations adding to 1: sum_i c_i G_i = G/(1 - root G), so root = 0 is the CPA condition sum_i c_i G_i = G"""
    lay, c, out, z, e, S, zi, ei = _setup(k, layouts=("1",))
    raw = k.real("raw", (c,), pos=True, samp=(0.0625, 1))
    cc = k.derived("concentration", (c,), "f", lambda j: raw[j] / k.sum(lambda l: raw[l], c))
    h = _trafo(k)
    root = k.out(k.call("gftool.cpa.self_root_eq", S, z, e, cc, hilbert_trafo=h))
    g = k.out(k.call("gftool.cpa.gf_cmpt_z", z, S, e, hilbert_trafo=h))

    def cond(i):
        G = h(zi((i,)) - S[i])
        x = k.sum(lambda j: cc[j] * g[i, j], c) * (1 - root[i] * G) - G
        return k.eq(x, 0) if k.symbolic else k.abs(x) <= k.frac(1, 10**8) * (1 + k.sum(lambda j: k.abs(g[i, j])**2, c))
    k.ensure("average", cond, *out)


def c_clean(k):
    """all components equal: the self-energy is that on-site energy"""
    lay, c, out, z, _, _, zi, _ = _setup(k, layouts=("1",))
    e0 = k.real("e0", mag=1)
    e = k.derived("e", (c,), "f", lambda j: e0.e)
    cc, _ = _conc(k, c, lay)
    h = _trafo(k)
    S = k.derived("S", out, "c", lambda *i: e0.e)
    r = k.call("gftool.cpa.self_root_eq", S, z, e, cc, hilbert_trafo=h)
    k.ensure_eq("no scattering", r, lambda *i: 0, out, atol=1e-12)


def c_restrict(k):
    """the restricted equation equals the unrestricted one where Im Sigma <= 0 and has no root with Im Sigma > 0"""
    lay, c, out, z, e, S, zi, ei = _setup(k, self_im=None, layouts=("1", "b", "m", "c"))
    cc, ci = _conc(k, c, lay, out)
    h = _trafo(k)
    S0 = k.derived("S0", out, "c", lambda *i: k.ite(k.im(S[i]) > 0, k.re(S[i]), S[i]))
    arg = k.derived("arg", out, "c", lambda *i: S[i])
    r = k.call("gftool.cpa.restrict_self_root_eq", arg, z, e, cc, hilbert_trafo=h)

    def cut(*i):
        T, G = _T(k, c, i, ci, S0, zi, ei, h)
        return T / (1 + T * G)

    def spec(*i):
        f = cut(*i)
        d = k.im(S[i])
        f1 = f * (1 + d)
        sg = lambda x: k.ite(x >= 0, 1, -1)
        return k.ite(d > 0, f1 + k.frac(1, 1000) * d * (sg(k.re(f1)) + 1j * sg(k.im(f1))), f)
    if k.symbolic:
        k.ensure_eq("restricted root", r, spec, out)
    o = k.out(r)
    k.ensure("physical part unchanged", lambda *i: k.implies(k.im(S[i]) <= 0, k.eq(o[i], cut(*i)) if k.symbolic else k.abs(o[i] - cut(*i)) <= k.frac(1, 10**9) * (1 + k.abs(o[i]))), *out)
    k.ensure("no unphysical root", lambda *i: k.implies(k.im(S[i]) > 0, k.abs(o[i]) > 0 if k.symbolic else k.abs(o[i]) > k.im(S[i]) * k.frac(1, 2000)), *out)


def _sol(k, X, ok, rec):
    """contract of scipy.optimize.root: returns x with fun(x) = 0, or success = False"""
    from dv.ext import OptimizeResult

    def root(fun, x0, **kw):
        rec.update(fun=fun, x0=x0, kw=kw)
        return OptimizeResult(x=X, success=ok, message="failed", nit=3)
    return root


def _reference_converges(k, z, e, c, h, out, restricted, start):
    """scipy.optimize.root on the CPA equation as documented"""
    import numpy as np
    from scipy import optimize

    def eq(s):
        s = np.array(s)
        bad = np.where(s.imag > 0, s.imag, 0) if restricted else 0
        s = s.real + 1j * np.where(bad > 0, 0, s.imag)
        g = h(z - s)
        d = e - s[..., None]
        t = np.sum(c * d / (1 - d * g[..., None]), axis=-1)
        r = t / (1 + t * g) * (1 + bad)
        return r + 1e-3 * bad * (np.where(r.real >= 0, 1, -1) + 1j * np.where(r.imag >= 0, 1, -1))
    x0 = np.broadcast_to(np.sum(e * c, axis=-1) + 0j if start is None else start, out)
    try:
        with np.errstate(all="ignore"):
            return bool(optimize.root(eq, x0, method="anderson" if restricted else "broyden2", options=dict(fatol=1e-9)).success)
    except Exception:
        return False


def c_solve_root(k):
    """solve_root returns the point where the (restricted) root equation vanishes, started from an array of the output's shape; failure raises"""
    lay = k.choice("layout", ["0", "1", "b", "m", "c"])
    restricted = k.choice("restricted", [True, False])
    start = k.choice("start", ["none", "given", "scalar"])
    c = k.dim("n_cmpt", bounded=(1, 2, 3))
    n = k.dim("n") if lay != "0" else 1
    s = k.dim("s") if lay in "mc" else 1
    zs = {"0": ()}.get(lay, (n,))
    es = {"b": (n, c), "m": (s, 1, c)}.get(lay, (c,))
    out = {"0": (), "1": (n,), "b": (n,), "m": (s, n), "c": (s, n)}[lay]
    z = k.complex("z", zs, im="pos", layout="array")
    if not k.symbolic:
        z = k.derived("zz", zs, "c", lambda *i: k.re(z[i]) / 4 + 1j * (1 + k.im(z[i])))
    e = k.real("e_onsite", es, samp=(-0.5, 0.5))
    cs = (s, 1, c) if lay == "c" else (c,)
    raw = k.real("raw", cs, pos=True, samp=(0.25, 1))
    cc = k.derived("concentration", cs, "f", lambda *j: raw[j] / k.sum(lambda l: raw[j[:-1] + (l,)], c))
    ci = (lambda i, j: cc[i[0], 0, j]) if lay == "c" else (lambda i, j: cc[j])
    S0 = k.complex("start", out, im="neg", mag=0.25, layout="array") if start == "given" else (k.complex("start", (), im="neg", mag=0.25, layout="array") if start == "scalar" else None)
    h = _trafo(k)
    zi = (lambda i: z[i[-1:]]) if zs else (lambda i: z[()])
    ei = {"b": lambda i, j: e[i[0], j], "m": lambda i, j: e[i[0], 0, j]}.get(lay, lambda i, j: e[j])
    kw = {} if start == "none" else dict(self_cpa_z0=S0)
    if not k.symbolic:
        kw["options"] = dict(fatol=1e-9)
    if k.symbolic:
        ok = k.choice("converged", [True, False])
        X = k.complex("X", out, im="neg")
        rec = {}
        k.hook("root", _sol(k, X.v, ok, rec))
        r = k.call_raises(RuntimeError, not ok, "gftool.cpa.solve_root", z, e, cc, hilbert_trafo=h, restricted=restricted, **kw)
        k.ensure_shape("start vector", rec["x0"], out)
        k.ensure_eq("the root is returned", r, lambda *i: X[i], out)
        k.ensure_eq("equation", k.call(rec["fun"], k.derived("Y", out, "c", lambda *i: X[i])), lambda *i: (lambda T, G: T / (1 + T * G))(*_T(k, c, i, ci, X, zi, ei, h)), out)
    else:
        conv, r = k.call_or(RuntimeError, "gftool.cpa.solve_root", z, e, cc, hilbert_trafo=h, restricted=restricted, **kw)
        if not conv:
            # the solver did not find the root from this start: allowed if it does not find the root of the documented equation either
            k.ensure("converges if scipy does", not _reference_converges(k, z.snap, e.snap, cc.snap, h, out, restricted, None if S0 is None else S0.snap))
            return
        k.ensure_shape("result", r, out)
        R = k.out(r)

        def cond(*i):
            T, G = _T(k, c, i, ci, R, zi, ei, h)
            return k.abs(T / (1 + T * G)) <= k.frac(1, 10**5)
        k.ensure("CPA condition", cond, *out)
        k.ensure("causal", lambda *i: k.im(R[i]) <= k.frac(1, 10**5), *out)
    k.frame()


def c_fxdocc(k):
    """solve_fxdocc_root: CPA condition for e - mu and z = iw together with the occupation sum = occ; self-energy includes -mu"""
    lay = k.choice("layout", ["1", "m", "c"])
    restricted = k.choice("restricted", [True, False])
    start = k.choice("start", ["none", "given"])
    c = k.dim("n_cmpt", bounded=(1, 2, 3)) if k.symbolic else 2
    N = k.dim("n") if k.symbolic else 64
    s = 1 if lay == "1" else k.dim("s") if k.symbolic else 2
    beta = k.real("beta", pos=True, samp=(2, 12))
    iws = k.derived("iws", (N,), "c", lambda j: 1j * k.pi * (2 * j + 1) / beta.e)
    es = (s, 1, c) if lay == "m" else (c,)
    out = (N,) if lay == "1" else (s, N)
    e = k.real("e_onsite", es, samp=(-0.4, 0.4))
    cs = (s, c) if lay == "c" else (c,)
    raw = k.real("raw", cs, pos=True, samp=(0.25, 1))
    cc = k.derived("concentration", cs, "f", lambda *j: raw[j] / k.sum(lambda l: raw[j[:-1] + (l,)], c))
    ci = (lambda i, j: cc[i[0], j]) if lay == "c" else (lambda i, j: cc[j])
    occ = k.real("occ", samp=(0.25 * s, 0.75 * s) if not k.symbolic else None)
    mu0 = k.real("mu0", samp=(-0.25, 0.25))
    h = _trafo(k)
    ei = (lambda i, j: e[i[0], 0, j]) if lay == "m" else (lambda i, j: e[j])
    S0 = k.complex("start", out, im="neg", mag=0.25) if start == "given" else None
    kw = dict(mu0=mu0, restricted=restricted)
    if start == "given":
        kw["self_cpa_iw0"] = S0
    fit, wt = k.choice("density", [(0, False), (2, False), (0, True), (3, True)] if k.symbolic else [(0, False), (2, False), (0, True)])
    if fit:
        kw["n_fit"] = fit
    if wt:
        wts = k.real("weights", (N,), samp=(0.75, 1.25))
        kw["weights"] = wts
    if k.symbolic:
        ok = k.choice("converged", [True, False])
        rec = {}
        mus = [k.real("mu1"), k.real("mu2")]
        calls = []

        def chem(occ_root, mu0=0.0, step0=1.0, **kwds):
            calls.append(occ_root)
            return mus[len(calls) - 1].v
        k.stub("gftool.density.chemical_potential", chem)
        seen, D = {}, k.real("D", out[:-1])

        def density(iws, gf_iw, beta, weights=1., moments=(1.,), n_fit=0):
            seen.update(iws=iws, gf_iw=gf_iw, beta=beta, weights=weights, moments=moments, n_fit=n_fit)
            return D.v
        k.stub("gftool.density.density_iw", density)
        M = N if lay == "1" else s * N
        flat = (lambda i: i[0]) if lay == "1" else (lambda i: i[0] * N + i[1])
        X = k.real("X", (1 + 2 * M,))
        k.hook("root", _sol(k, X.v, ok, rec))
        r = k.call_raises(RuntimeError, not ok, "gftool.cpa.solve_fxdocc_root", iws, e, cc, hilbert_trafo=h, beta=beta, occ=occ, **kw)
        k.ensure("mu", k.eq(r.mu, X[0]))
        S = k.derived("S", out, "c", lambda *i: X[1 + flat(i)] + 1j * X[1 + M + flat(i)] - X[0])
        k.ensure_eq("self-energy", r.self_cpa, lambda *i: S[i], out)
        if restricted:
            k.assume_forall(lambda *i: k.im(S[i]) <= 0, *out)
        Y = k.derived("Y", (1 + 2 * M,), "f", lambda j: X[j])
        f = k.out(k.call(rec["fun"], Y))
        # the occupation is density_iw (C21) of the coherent Green's function with the given weights, fit and moments 1, Re(self-energy at the last frequency)
        k.ensure_eq("frequencies of the density", seen["iws"], lambda j: iws[j], (N,))
        k.ensure_eq("Green's function of the density", seen["gf_iw"], lambda *i: h(iws[i[-1]] - S[i]), out)
        k.ensure_eq("moments of the density", seen["moments"], lambda *i: k.ite(k.eq(i[-1], 0), 1, k.re(S[i[:-1] + (N - 1,)])), out[:-1] + (2,))
        k.ensure("inverse temperature", k.eq(k.out(seen["beta"])[()], beta.e))
        k.ensure("fit", seen["n_fit"] == fit)
        if wt:
            k.ensure_eq("weights of the density", seen["weights"], lambda j: wts[j], (N,))
        else:
            k.ensure("weights of the density", seen["weights"] == 1)
        dens = D.e if lay == "1" else k.sum(lambda i: D[i], s)
        k.ensure("occupation equation", k.eq(f[0], M * (dens - occ.e)))

        def root(i):
            T, g = _T(k, c, i, ci, S, lambda i: iws[i[-1]], lambda i, l: ei(i, l) - X[0], h)
            return T / (1 + T * g)
        k.ensure("CPA equation, real part", lambda *i: k.eq(f[1 + flat(i)], k.re(root(i))), *out)
        k.ensure("CPA equation, imaginary part", lambda *i: k.eq(f[1 + M + flat(i)], k.im(root(i))), *out)
    else:
        ok, r = k.call_or(RuntimeError, "gftool.cpa.solve_fxdocc_root", iws, e, cc, hilbert_trafo=h, beta=beta, occ=occ, options=dict(fatol=1e-7), **kw)
        k.assume(ok)                    # no convergence is reported by an exception
        k.ensure_shape("result", r.self_cpa, out)
        R, mu = k.out(r.self_cpa), k.out(r.mu)

        def cond(*i):
            T, G = _T(k, c, i, ci, R, lambda i: iws[i[-1:]], lambda i, j: ei(i, j) - mu[()], h)
            return k.abs(T / (1 + T * G)) <= k.frac(1, 10**4)
        k.ensure("CPA condition", cond, *out)
        import numpy as np
        gf = h(iws.snap - r.self_cpa)
        m2 = r.self_cpa[..., -1].real
        import gftool as gt
        n = gt.density_iw(iws.snap, gf, beta=float(beta.snap), moments=np.stack([np.ones_like(m2), m2], axis=-1), n_fit=fit,
                          **({"weights": wts.snap} if wt else {})).sum()
        k.ensure("occupation", k.abs(k.out(n)[()] - occ.e) <= k.frac(1, 10**4))
    k.frame()


c_fxdocc.concrete_runs = 0.3
