"""C16 non-interacting single impurity Anderson model"""


def _lay(k):
    lay = k.choice("layout", ["0", "1", "b"])
    n = k.dim("n") if lay != "0" else 1
    m = k.dim("m") if lay == "b" else 1
    return lay, n, m


def c_hybrid(k):
    """Delta(z) = sum_k |V_k|^2/(z - e_k), G0(z) = 1/(z - e0 - Delta(z))"""
    lay, n, m = _lay(k)
    K = k.dim("K")
    zs = {"0": (), "1": (n,), "b": (n, 1)}[lay]
    bs = {"0": (K,), "1": (K,), "b": (m, K)}[lay]
    os = {"0": (), "1": (), "b": (m,)}[lay]
    out = {"0": (), "1": (n,), "b": (n, m)}[lay]
    z = k.complex("z", zs, im=k.choice("im", ["pos", "nonzero"]))
    eb = k.real("e_bath", bs, special=(0,))
    V2 = k.real("hopping_sqr", bs, lo=0)
    e0 = k.real("e_onsite", os)
    zz = (lambda i: z[i[0], 0]) if lay == "b" else (lambda i: z[i])
    bb = (lambda a, i, j: a[i[1], j]) if lay == "b" else (lambda a, i, j: a[j])
    oo = (lambda i: e0[i[1]]) if lay == "b" else (lambda i: e0.e)
    hyb = lambda i: k.sum(lambda j: bb(V2, i, j) / (zz(i) - bb(eb, i, j)), K)
    d = k.call("gftool.siam.hybrid_z", z, e_bath=eb, hopping_sqr=V2)
    k.ensure_eq("Delta(z)", d, lambda *i: hyb(i), out)
    g = k.call("gftool.siam.gf0_loc_z", z, e_onsite=e0, e_bath=eb, hopping_sqr=V2)
    k.ensure_eq("G0(z)", g, lambda *i: 1 / (zz(i) - oo(i) - hyb(i)), out, tol=1e-7)
    k.frame()


def _ham_inputs(k):
    K = k.dim("K")
    lay = k.choice("layout", ["0", "1", "e1", "h2"])
    n = k.dim("n") if lay != "0" else 1
    cplx = k.choice("hopping", ["real", "complex", "int"])
    os = {"0": (), "1": (n,), "e1": (n,), "h2": ()}[lay]
    es = {"0": (K,), "1": (n, K), "e1": (K,), "h2": (K,)}[lay]
    hs = {"0": (K,), "1": (n, K), "e1": (K,), "h2": (n, K)}[lay]
    eo = k.real("e_onsite", os, layout="array")
    eb = k.real("e_bath", es)
    V = k.complex("hopping", hs) if cplx == "complex" else k.real("hopping", hs, kind="i" if cplx == "int" else "f")
    ld = (n,) if lay != "0" else ()
    pick = lambda a, i: a[i[len(i) - len(a.shape):]]
    return K, ld, eo, eb, V, pick


def c_hamiltonian(k):
    """H[0,0] = e0, H[k,k] = e_k, H[0,k] = V_k = conj H[k,0], all else zero"""
    K, ld, eo, eb, V, pick = _ham_inputs(k)
    import numpy as np
    h = k.call("gftool.siam.hamiltonian_matrix", eo, e_bath=eb, hopping=V)
    N = K + 1

    def spec(*i):
        b, r, c = i[:-2], i[-2], i[-1]
        return k.ite(k.eq(r, c), lambda: k.ite(k.eq(r, 0), lambda: pick(eo, b), lambda: pick(eb, b + (r - 1,))),
                     lambda: k.ite(k.eq(r, 0), lambda: pick(V, b + (c - 1,)), lambda: k.ite(k.eq(c, 0), lambda: k.conj(pick(V, b + (r - 1,))), 0)))
    k.ensure_eq("H", h, spec, ld + (N, N))
    k.frame()


def _times(k, kind):
    K = k.dim("K", bounded=(1, 2))
    n = k.dim("n")
    cplx = k.choice("hopping", ["real", "complex"])
    eo = k.real("e_onsite", (), layout="array")
    eb = k.real("e_bath", (K,))
    V = k.complex("hopping", (K,)) if cplx == "complex" else k.real("hopping", (K,))
    t = k.real("tt", (n,), special=(0, 1, -1), mag=4)
    beta = k.real("beta", pos=True)
    if kind == "ret":
        r = k.call("gftool.siam.gf0_loc_ret_t", t, eo, e_bath=eb, hopping=V)
    else:
        r = k.call(f"gftool.siam.gf0_loc_{kind}_t", t, eo, e_bath=eb, hopping=V, beta=beta)
    return K, n, eo, eb, V, t, beta, r


def _spectral(kind, factor):
    def c(k):
        K, n, eo, eb, V, t, beta, r = _times(k, kind)
        ham = k.call("gftool.siam.hamiltonian_matrix", eo, e_bath=eb, hopping=V)
        dec = k.call("gftool.matrix.decompose_her", ham)
        e, u = k.out(dec.eig), k.out(dec.rv)
        k.ensure_eq(f"G^{kind}(t)", r, lambda i: k.sum(lambda j: factor(k, t[i], beta.e, e[j]) * u[0, j] * k.conj(u[0, j]) * k.exp(-k.I * e[j] * t[i]), K + 1), (n,), tol=1e-8)
        k.frame()
    c.__name__ = f"c_{kind}_t"
    c.__doc__ = f"{kind}: G(t) in the eigenbasis of the Hamiltonian matrix (contracts c_hamiltonian, C06:c_decompose_her)"
    return c


def _nf(k, x):
    return 1 / (k.exp(x) + 1)


c_ret_t = _spectral("ret", lambda k, t, b, e: k.ite(t >= 0, -k.I, 0))
c_gr_t = _spectral("gr", lambda k, t, b, e: -k.I * _nf(k, -b * e))
c_le_t = _spectral("le", lambda k, t, b, e: k.I * _nf(k, b * e))


def _batched(kind, factor):
    def c(k):
        K, n, m = k.dim("K", bounded=(1, 2)), k.dim("n"), k.dim("m", bounded=(1, 2))
        eo = k.real("e_onsite", (m,))
        eb = k.real("e_bath", (m, K))
        V = (k.complex if k.choice("hopping", ["real", "complex"]) == "complex" else k.real)("hopping", (m, K))
        t = k.real("tt", (n, 1), special=(0, 1, -1), mag=4)
        beta = k.real("beta", pos=True)
        kw = {} if kind == "ret" else dict(beta=beta)
        r = k.call(f"gftool.siam.gf0_loc_{kind}_t", t, eo, e_bath=eb, hopping=V, **kw)
        dec = k.call("gftool.matrix.decompose_her", k.call("gftool.siam.hamiltonian_matrix", eo, e_bath=eb, hopping=V))
        e, u = k.out(dec.eig), k.out(dec.rv)
        k.ensure_eq(f"G^{kind}(t)", r, lambda i, q: k.sum(lambda j: factor(k, t[i, 0], beta.e, e[q, j]) * u[q, 0, j] * k.conj(u[q, 0, j]) * k.exp(-k.I * e[q, j] * t[i, 0]), K + 1),
                    (n, m), tol=1e-8)
        k.frame()
    c.__name__ = f"c_{kind}_t_batched"
    c.__doc__ = f"{kind}: several impurities at once, times broadcast against them"
    return c


c_ret_t_batched = _batched("ret", lambda k, t, b, e: k.ite(t >= 0, -k.I, 0))
c_gr_t_batched = _batched("gr", lambda k, t, b, e: -k.I * _nf(k, -b * e))
c_le_t_batched = _batched("le", lambda k, t, b, e: k.I * _nf(k, b * e))


def c_resolvent(k):
    """G0(z) is the (0,0) element of (z - H)^-1 with H the Hamiltonian matrix: (z - H) x = e_0 for x = G0 (1, conj(V_k)/(z - e_k))"""
    K = k.dim("K")
    cplx = k.choice("hopping", ["real", "complex"])
    z = k.complex("z", (), im="nonzero")
    eo = k.real("e_onsite", (), layout="array")
    eb = k.real("e_bath", (K,))
    V = k.complex("hopping", (K,)) if cplx == "complex" else k.real("hopping", (K,))
    V2 = k.derived("hopping_sqr", (K,), "f", lambda i: k.re(V[i] * k.conj(V[i])))
    g = k.out(k.call("gftool.siam.gf0_loc_z", z, eo, e_bath=eb, hopping_sqr=V2))
    h = k.out(k.call("gftool.siam.hamiltonian_matrix", eo, e_bath=eb, hopping=V))
    x = lambda c: k.ite(k.eq(c, 0), lambda: g.e, lambda: g.e * k.conj(V[c - 1]) / (z.e - eb[c - 1]))
    if k.symbolic:
        # z - e0 - Delta(z) has an imaginary part of the sign of Im z
        d = z.e - eo.e - k.sum(lambda j: V2[j] / (z.e - eb[j]), K)
        k.assume(k.not_(k.eq(d, 0)))
    zero = lambda e: k.eq(e, 0) if k.symbolic else k.abs(e) < k.frac(1, 10**7) * (1 + k.abs(g.e)) * (1 + k.abs(z.e)) / k.min(1, k.abs(k.im(z.e)))
    k.ensure("row 0", zero(z.e * x(0) - h[0, 0] * x(0) - k.sum(lambda c: h[0, c + 1] * x(c + 1), K) - 1))
    k.ensure("row k", lambda r: zero((z.e - h[r + 1, r + 1]) * x(r + 1) - h[r + 1, 0] * x(0)), K)


def c_ret_t0(k):
    """G^ret(0) = -i, and G^gr(0) - G^le(0) = -i: the anticommutator"""
    K, n, eo, eb, V, t, beta, r = _times(k, "ret")
    g = k.out(r)
    k.ensure("G(0) = -i", lambda i: k.implies(lambda: k.eq(t[i], 0), k.eq(g[i], -k.I) if k.symbolic else k.abs(g[i] + k.I) < k.frac(1, 10**8)), n)
    k.ensure("G(t<0) = 0", lambda i: k.implies(lambda: t[i] < 0, k.eq(g[i], 0)), n)


def c_gr_le(k):
    """G^gr(t) - G^le(t) = G^ret(t) for t >= 0, and -i G^le(0) is the occupation in [0, 1]"""
    K, n, eo, eb, V, t, beta, gr = _times(k, "gr")
    le = k.out(k.call("gftool.siam.gf0_loc_le_t", t, eo, e_bath=eb, hopping=V, beta=beta))
    ret = k.out(k.call("gftool.siam.gf0_loc_ret_t", t, eo, e_bath=eb, hopping=V))
    gr = k.out(gr)
    k.ensure("ret = gr - le", lambda i: k.implies(lambda: t[i] >= 0, k.eq(ret[i], gr[i] - le[i]) if k.symbolic else k.abs(ret[i] - gr[i] + le[i]) < k.frac(1, 10**8)), n)
