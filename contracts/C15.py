"""C15 Blackman-Esterling-Berk approximation: off-diagonal disorder"""


def _dos(k):
    """Hilbert transform of a discrete density of states sum_p w_p delta(eps - eps_p), sum w = 1"""
    n = 3
    pos = k.real("dos_eps", (n,), lo=-1, hi=1)
    raw = k.real("dos_w", (n,), lo=0.25, hi=1)
    p, w = pos.snap, raw.snap / raw.snap.sum()

    def h(x):
        import numpy as np
        return np.sum(w / (np.asarray(x)[..., np.newaxis] - p), axis=-1)
    return p, w, h


def _hop(k, N):
    """hopping matrices: real symmetric, complex Hermitian, of rank one (CPA limit), of deficient rank"""
    import numpy as np
    kind = k.choice("hopping", ["real", "complex", "rank1", "deficient", "negative"])
    if kind == "complex":
        a = k.complex("hop", (N, N), mag=1).snap
        t = (a + a.conj().T) / 2
    else:
        a = k.real("hop", (N, N), lo=0.25, hi=1.25).snap
        if kind == "rank1":
            t = np.outer(a[0], a[0])
        elif kind == "deficient":
            t = a.T @ a
            if N > 1:
                t[-1, :] = t[:, -1] = 0
        else:
            t = a + a.T
            if kind == "negative":
                t = -t
    return t, kind


def _self(k, lay, N, n):
    import numpy as np
    sh = {"0": (N, N), "1": (n, N, N), "b": (N, N), "2": (2, n, N, N)}[lay]
    s = k.complex("self_beb_z", sh, mag=0.5).snap
    i = np.arange(N)
    s = s.copy()
    s[..., i, i] = s[..., i, i].real - 1j * abs(s[..., i, i].imag)
    return s


def _gf(z, s, t, p, w):
    import numpy as np
    eye = np.eye(t.shape[0])
    return sum(wp * np.linalg.inv(z[..., None, None] * eye - s - pp * t) for pp, wp in zip(p, w))


def _close(k, name, got, want, tol):
    import numpy as np
    got, want = np.asarray(got), np.asarray(want)
    k.ensure_shape(name, got, want.shape)
    if got.shape == want.shape:
        err = float(np.max(abs(got - want))) if got.size else 0.0
        k.ensure(name, bool(err <= tol * (1 + np.max(abs(want)))))


def _dec(k, t, s, z):
    """exclude ill-conditioned diagonalisations"""
    import numpy as np
    eig, u = np.linalg.eigh(t)
    # singular values are either clearly significant or clearly zero
    k.assume(bool(np.all((abs(eig) > 1e-2 * np.max(abs(eig))) | (abs(eig) < 1e-14 * np.max(abs(eig))))))
    keep = abs(eig) > 1e-6 * np.max(abs(eig))
    sq = np.emath.sqrt(eig[keep])
    us, suh = u[:, keep] * sq, sq[:, None] * u[:, keep].conj().T
    m = suh @ np.linalg.inv(z[..., None, None] * np.eye(len(t)) - s) @ us
    ev, v = np.linalg.eig(m)
    k.assume(bool(np.max(np.linalg.cond(v)) < 1e3) and bool(np.min(abs(ev)) > 1e-3))


def c_gf_loc(k):
    """gf_loc_z = sum_p w_p (z - Sigma - eps_p T)^-1 for any density of states, also for singular hopping matrices"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    N = k.dim("N", bounded=(1, 2, 3))
    lay = k.choice("layout", ["0", "1", "b", "2"])
    n = k.dim("n")
    z = k.complex("z", {"0": (), "1": (n,), "b": (n,), "2": (n,)}[lay], im="pos", layout="array").snap + 0.25j
    p, w, h = _dos(k)
    t, kind = _hop(k, N)
    s = _self(k, lay, N, n)
    _dec(k, t, s, np.asarray(z))
    full = _gf(np.asarray(z), s, t, p, w)
    diag = k.choice("diag", [None, True, False])
    kw = {} if diag is None else dict(diag=diag)
    t0, s0, z0 = t.copy(), s.copy(), np.array(z)
    r = k.call("gftool.beb.gf_loc_z", np.asarray(z), s, t, hilbert_trafo=h, **kw)
    _close(k, "G_loc(z)", r, full if diag is False else np.diagonal(full, axis1=-2, axis2=-1), 1e-7)
    k.ensure("frame", bool(np.all(t == t0) and np.all(s == s0) and np.all(np.asarray(z) == z0)))


def c_self_root(k):
    """root equation: G_loc^-1 minus the inverse component average on the diagonal, (G_loc^-1 + Sigma - e)_ii / c_i"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    N = k.dim("N", bounded=(1, 2, 3))
    lay = k.choice("layout", ["0", "1", "b", "2"])
    n = k.dim("n")
    z = np.asarray(k.complex("z", {"0": (), "1": (n,), "b": (n,), "2": (n,)}[lay], im="pos", layout="array").snap + 0.25j)
    p, w, h = _dos(k)
    t, kind = _hop(k, N)
    s = _self(k, lay, N, n)
    e = k.real("e_onsite", (N,) if lay != "1" else k.choice("eshape", [(N,), (n, N)])).snap
    c = k.real("concentration", (N,), lo=0.125, hi=1).snap
    _dec(k, t, s, z)
    ginv = np.linalg.inv(_gf(z, s, t, p, w))
    k.assume(bool(np.max(abs(ginv)) < 1e3))
    beb = k.fn("gftool.beb")
    dec = beb.SpecDec(*k.fn("gftool.matrix.decompose_her")(t)).truncate(1e-10)
    d = lambda m: np.diagonal(m, axis1=-2, axis2=-1)
    want = ginv - ((d(ginv) + d(s) - e) / c)[..., None] * np.eye(N)
    s0 = s.copy()
    r = k.call("gftool.beb.self_root_eq", s, z, e, c, dec, hilbert_trafo=h)
    _close(k, "root equation", r, want, 1e-7)
    k.ensure("frame", bool(np.all(s == s0)))


def c_specdec(k):
    """partition: u sqrt(eig), sqrt(eig) u^+ multiply to the matrix"""
    N = k.dim("N")
    cplx = k.choice("complex", [False, True])
    a = (k.complex if cplx else k.real)("h", (N, N))
    mat = k.derived("mat", (N, N), "c" if cplx else "f", lambda i, j: a[i, j] + k.conj(a[j, i]))
    dec = k.call("gftool.matrix.decompose_her", mat)
    sp = k.call("gftool.beb.SpecDec", *dec)
    us, sq, suh = k.call(sp.partition, return_sqrts=True)
    us2, suh2 = k.call(sp.partition)
    for nm, x, y in (("", us, suh), (" (no sqrt)", us2, suh2)):
        X, Y = k.out(x), k.out(y)
        k.ensure("us suh = matrix" + nm, lambda i, j: (k.eq if k.symbolic else (lambda p, q: k.abs(p - q) <= k.frac(1, 10**8) * (1 + k.sum(lambda l: k.abs(mat[i, l])**2, N))))(
            k.sum(lambda l: X[i, l] * Y[l, j], N), mat[i, j]), N, N)
    S, E = k.out(sq), k.out(dec.eig)
    k.ensure_eq("sqrt", sq, lambda i: k.sqrt(E[i]), (N,))
    k.ensure("full decomposition is not truncated", k.not_(sp.is_trunacted) if k.symbolic else not sp.is_trunacted)
    k.frame()


def c_truncate(k):
    """truncate keeps exactly the eigenvalues above rcond times the largest"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    N = k.dim("N", bounded=(1, 2, 3, 4))
    t, kind = _hop(k, N)
    rcond = k.choice("rcond", [None, 1e-10, 0.3, 0.5])
    beb = k.fn("gftool.beb")
    dec = beb.SpecDec(*k.fn("gftool.matrix.decompose_her")(t))
    r = k.call(dec.truncate, rcond)
    cut = (np.finfo(float).eps * N if rcond is None else rcond) * np.max(abs(dec.eig))
    keep = abs(dec.eig) > cut
    k.ensure("eigenvalues", bool(np.array_equal(r.eig, dec.eig[keep])))
    k.ensure("vectors", bool(np.array_equal(r.rv, dec.rv[:, keep]) and np.array_equal(r.rv_inv, dec.rv_inv[keep])))
    k.ensure("flag", bool(r.is_trunacted == (not keep.all())))
    _close(k, "discarded part", r.reconstruct(kind="full"), (dec.rv[:, keep] * dec.eig[keep]) @ dec.rv_inv[keep], 1e-12)


def c_restrict(k):
    """the restricted equation is the unrestricted one for Im Sigma_ii <= 0 and has no root with Im Sigma_ii > 0"""
    import functools
    N = k.dim("N")
    n = k.dim("n")
    lay = k.choice("layout", ["2", "3"])
    sh = (N, N) if lay == "2" else (n, N, N)
    S = k.complex("S", sh)
    arg = k.derived("arg", sh, "c", lambda *i: S[i])
    cut = lambda i: k.ite(k.and_(k.eq(i[-1], i[-2]), k.im(S[i]) > 0), k.re(S[i]), S[i])
    if k.symbolic:
        F = k.complex("F", sh)
        seen = {}

        def root_eq(self_beb_z, *a, **kw):
            seen["arg"] = k.derived("seen", sh, "c", lambda *i: k.out(self_beb_z)[i])
            g = k.derived("Fout", sh, "c", lambda *i: F[i])
            return g.v
        k.stub("gftool.beb.self_root_eq", root_eq)
        r = k.call("gftool.beb.restrict_self_root_eq", arg)
        k.ensure("unphysical part is cut", lambda *i: k.eq(seen["arg"][i], cut(i)), *sh)
        f = lambda i: F[i]
    else:
        import numpy as np
        z = k.complex("z", sh[:-2], im="pos", layout="array").snap + 0.5j
        p, w, h = _dos(k)
        t, kind = _hop(k, N)
        e = k.real("e_onsite", (N,)).snap
        c = k.real("concentration", (N,), lo=0.125, hi=1).snap
        s1 = S.snap.copy()
        i = np.arange(N)
        s1[..., i, i] = s1[..., i, i].real - 1j * np.maximum(-s1[..., i, i].imag, 0)
        _dec(k, t, s1, np.asarray(z))
        beb = k.fn("gftool.beb")
        kw = dict(z=np.asarray(z), e_onsite=e, concentration=c, hopping_dec=beb.SpecDec(*k.fn("gftool.matrix.decompose_her")(t)).truncate(1e-10), hilbert_trafo=h)
        r = k.call("gftool.beb.restrict_self_root_eq", S.snap.copy(), **kw)
        F = k.out(beb.self_root_eq(s1, **kw))
        f = lambda i: F[i]
    o = k.out(r)
    same = k.eq if k.symbolic else (lambda x, y: k.abs(x - y) <= k.frac(1, 10**9) * (1 + k.abs(y)))
    bad = lambda i: k.and_(k.eq(i[-1], i[-2]), k.im(S[i]) > 0)
    k.ensure_shape("root", r, sh)
    k.ensure("physical part unchanged", lambda *i: k.or_(bad(i), same(o[i], f(i))), *sh)
    k.ensure("no unphysical root", lambda *i: k.implies(bad(i), k.abs(o[i]) > 0 if k.symbolic else k.abs(o[i]) > k.im(S[i]) * k.frac(1, 2000)), *sh)


def c_solve_root(k):
    """solve_root returns a zero of the root equation with the shape of the broadcast input; failure raises RuntimeError"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    N = k.dim("N", bounded=(1, 2, 3))
    n = k.dim("n")
    lay = k.choice("layout", ["0", "1", "c", "e"])
    z = np.asarray(k.complex("z", () if lay in "0ce" else (n,), im="pos", layout="array").snap)
    z = z.real / 4 + 1j * (1.5 + z.imag)
    kind = k.choice("hop", ["cpa", "general"])
    h = lambda x: 2 / (x + np.sqrt(x - 1) * np.sqrt(x + 1))
    if kind == "cpa":
        t = np.ones((N, N))
    else:
        a = k.real("hopm", (N, N), lo=0.25, hi=0.5).snap
        t = (a + a.T) / 2 + np.eye(N) * 0.5
    e = k.real("e_onsite", (N,), lo=-0.5, hi=0.5).snap
    raw = k.real("raw", (N,), lo=0.25, hi=1).snap
    c = raw / raw.sum()
    # several concentrations or on-site energies at once
    if lay == "c":
        c = np.stack([c, c[::-1]])
    if lay == "e":
        e = np.stack([e, -e / 2, e + 0.25])
    restricted = k.choice("restricted", [True, False])
    start = k.choice("start", [False, True])
    kw = {}
    out = {"c": (2,), "e": (3,)}.get(lay, z.shape) + (N, N)
    if start:
        kw["self_beb_z0"] = np.full((N, N), -0.125j)
    r = k.call("gftool.beb.solve_root", z, e, c, t, hilbert_trafo=h, restricted=restricted, rcond=1e-8, options=dict(fatol=1e-8), **kw)
    k.ensure_shape("Sigma", r, out)
    beb = k.fn("gftool.beb")
    dec = beb.SpecDec(*k.fn("gftool.matrix.decompose_her")(t)).truncate(1e-8)
    res = beb.self_root_eq(r, z, e, c, dec, hilbert_trafo=h)
    k.ensure("root", bool(np.max(abs(res)) < 1e-5))
    g = beb.gf_loc_z(z, r, t, hilbert_trafo=h, rcond=1e-8)
    # component average: c_i / G_ii = (G_loc^-1)_ii + Sigma_ii - e_i
    full = beb.gf_loc_z(z, r, t, hilbert_trafo=h, diag=False, rcond=1e-8)
    k.ensure("off-diagonal elements vanish", bool(np.max(abs(full * (1 - np.eye(N)))) < 1e-4))
    k.ensure("causal", bool(np.all(g.imag <= 1e-6)))
    if kind == "cpa":
        cpa = k.fn("gftool.cpa")
        try:
            s = cpa.solve_root(z, e, c, hilbert_trafo=h, options=dict(fatol=1e-9))
        except RuntimeError:        # not converged (contract C14:c_solve_root)
            return
        gc = cpa.gf_cmpt_z(z, s, e, hilbert_trafo=h)
        _close(k, "CPA limit", g, c * gc, 1e-3)


c_solve_root.concrete_runs = 0.4
