"""C06 Matrix decompositions and matrix Green's functions"""


def _check_reconstruct(k, dec, mat, b, N, full_name):
    bs = (b,) if b is not None else ()
    k.ensure_eq(full_name, k.call(dec.reconstruct), lambda *i: mat[i], bs + (N, N), tol=1e-6)
    k.ensure_eq("reconstruct(diag)", k.call(dec.reconstruct, kind="diag"), lambda *i: mat[i + (i[-1],)], bs + (N,), tol=1e-6)


def _mat(k, b, N, sym):
    bs = (b,) if b is not None else ()
    cplx = k.choice("complex", [False, True])
    if sym == "gen":
        return (k.complex if cplx else k.real)("mat", bs + (N, N)), cplx
    h = (k.complex if cplx else k.real)("h", bs + (N, N))
    if sym == "her":
        f = lambda *i: h[i] + k.conj(h[i[:-2] + (i[-1], i[-2])])
    else:
        f = lambda *i: h[i] + h[i[:-2] + (i[-1], i[-2])]
    return k.derived("mat", bs + (N, N), "c" if cplx else "f", f), cplx


def c_decompose_her(k):
    N = k.dim("N")
    b = k.dim("b") if k.choice("batch", [False, True]) else None
    mat, _ = _mat(k, b, N, "her")
    bs = (b,) if b is not None else ()
    api = k.choice("api", ["gftool.matrix.decompose_her", "gftool.matrix.decompose_hamiltonian"])
    dec = k.call(api, mat)
    _check_reconstruct(k, dec, mat, b, N, "u eig u^+ = mat")
    U, UH = k.out(dec.rv), k.out(dec.rv_inv)
    k.ensure_eq("rv_inv = rv^+", dec.rv_inv, lambda *i: k.conj(U[i[:-2] + (i[-1], i[-2])]), bs + (N, N))
    k.ensure("unitary", lambda *i: k.eq(k.sum(lambda q: UH[i[:-2] + (i[-2], q)] * U[i[:-2] + (q, i[-1])], N), k.delta(i[-2], i[-1])), *bs, N, N)
    k.ensure_real_dtype("eigenvalues real", dec.eig)
    k.frame()


def c_decompose_mat(k):
    N = k.dim("N")
    b = k.dim("b") if k.choice("batch", [False, True]) else None
    mat, _ = _mat(k, b, N, "gen")
    bs = (b,) if b is not None else ()
    _wellcond(k, mat)
    dec = k.call(k.choice("api", ["gftool.matrix.decompose_mat", "gftool.matrix.decompose_gf"]), mat)
    _check_reconstruct(k, dec, mat, b, N, "rv eig rv_inv = mat")
    V, VI = k.out(dec.rv), k.out(dec.rv_inv)
    k.ensure("rv_inv rv = 1", lambda *i: k.eq(k.sum(lambda q: VI[i[:-2] + (i[-2], q)] * V[i[:-2] + (q, i[-1])], N), k.delta(i[-2], i[-1])), *bs, N, N)
    k.frame()


def _wellcond(k, mat):
    if k.symbolic:
        return
    import numpy as np
    a = np.array(mat.snap)
    if a.size:
        w, v = np.linalg.eig(a)
        k.assume(bool(np.max(np.linalg.cond(v)) < 1e4))
        if a.shape[-1] > 1:
            d = abs(w[..., :, None] - w[..., None, :]) + 1e9 * np.eye(a.shape[-1])
            k.assume(bool(d.min() > 1e-3))


def c_decompose_sym(k):
    N = k.dim("N")
    b = k.dim("b") if k.choice("batch", [False, True]) else None
    mat, cplx = _mat(k, b, N, "sym")
    _wellcond(k, mat)
    dec = k.call("gftool.matrix.decompose_sym", mat)
    _check_reconstruct(k, dec, mat, b, N, "rv eig rv_inv = mat")
    k.frame()


def c_sym_orthogonal(k):
    """rv of a symmetric matrix is (complex) orthogonal"""
    k.only_concrete()
    N = k.int("N", 1, 5)
    mat, cplx = _mat(k, None, N, "sym")
    _wellcond(k, mat)
    dec = k.call("gftool.matrix.decompose_sym", mat)
    V = k.out(dec.rv)
    k.ensure("rv^T rv = 1", lambda i, j: k.abs(k.sum(lambda q: V[q, i] * V[q, j], N) - k.delta(i, j)) < k.frac(1, 10**5), N, N)


def c_checks(k):
    """non-Hermitian / non-symmetric input is rejected, wherever the matrix deviates and however large it is"""
    N = k.dim("N", lo=2)
    b = k.dim("b") if k.choice("batch", [False, True]) else None
    bs = (b,) if b is not None else ()
    cplx = k.choice("complex", [True, False])
    f = k.choice("fct", ["gftool.matrix.decompose_her", "gftool.matrix.decompose_sym"])
    her = f.endswith("her")
    new = k.complex if cplx else k.real
    if k.choice("mag", ["any", "large"]) == "any":
        a = new("mat", bs + (N, N))
    else:                               # a small deviation of a large matrix
        h, d = new("h", bs + (N, N), mag=50000), new("d", bs + (N, N))
        con = k.conj if her else lambda x: x
        a = k.derived("mat", bs + (N, N), "c" if cplx else "f", lambda *i: h[i] + con(h[i[:-2] + (i[-1], i[-2])]) + d[i])
    i, j = k.int("i", 0, N - 1), k.int("j", 0, N - 1)
    q = (k.int("q", 0, b - 1),) if b is not None else ()
    other = k.conj(a[q + (j, i)]) if her else a[q + (j, i)]
    k.assume(k.abs(a[q + (i, j)] - other) > k.frac(1, 10))
    k.call_raises(ValueError, True, f, a)


def c_reconstruct_eig(k):
    """reconstruct(eig) replaces the eigenvalues: rv diag(eig) rv_inv"""
    N, n = k.dim("N"), k.dim("n")
    rv = k.complex("rv", (N, N))
    rvi = k.complex("rvi", (N, N))
    e = k.complex("e", (n, N))
    e0 = k.complex("e0", (N,))
    dec = k.fn(k.choice("cls", ["gftool.matrix.Decomposition", "gftool.matrix.UDecomposition"]))(rv.v, e0.v, rvi.v)
    k.ensure_eq("full", k.call(dec.reconstruct, e), lambda q, i, j: k.sum(lambda m: rv[i, m] * e[q, m] * rvi[m, j], N), (n, N, N))
    k.ensure_eq("diag", k.call(dec.reconstruct, e, kind=k.choice("kind", ["diag", "d"])), lambda q, i: k.sum(lambda m: rv[i, m] * e[q, m] * rvi[m, i], N), (n, N))
    k.ensure_eq("einsum", k.call(dec.reconstruct, e0, kind="ij,j,ji->i"), lambda i: k.sum(lambda m: rv[i, m] * e0[m] * rvi[m, i], N), (N,))
    k.ensure_eq("own eigenvalues", k.call(dec.reconstruct), lambda i, j: k.sum(lambda m: rv[i, m] * e0[m] * rvi[m, j], N), (N, N))
    a, b, c = dec
    k.ensure_eq("unpacking rv", a, lambda i, j: rv[i, j], (N, N))
    k.ensure_eq("unpacking eig", b, lambda i: e0[i], (N,))
    k.ensure_eq("unpacking rv_inv", c, lambda i, j: rvi[i, j], (N, N))
    k.frame()


def c_gf_2x2(k):
    """diagonal of (z - H)^-1 for H = [[e0, t], [t*, e1]]"""
    lay = k.choice("layout", ["0", "1", "b"])
    n = k.dim("n") if lay != "0" else 1
    m = k.dim("m") if lay == "b" else 1
    zs = {"0": (), "1": (n,), "b": (m, 1)}[lay]
    es = {"0": (), "1": (n,), "b": (n,)}[lay]
    out = {"0": (), "1": (n,), "b": (m, n)}[lay]
    z = k.complex("z", zs, im="pos")
    zz = (lambda i: z[i[0], 0]) if lay == "b" else (lambda i: z[i])
    ee = (lambda a, i: a[i[1:]]) if lay == "b" else (lambda a, i: a[i])
    num = k.real if k.choice("energies", ["real", "complex"]) == "real" else k.complex      # complex: with a self-energy
    e0 = num("eps0", es)
    e1 = num("eps1", es)
    t = k.complex("t", es) if k.choice("hopping", ["complex", "none"]) == "complex" else k.real("t", es, lo=0, hi=0)
    disc = lambda *i: (e0[i] - e1[i])**2 / 4 + t[i] * k.conj(t[i])
    k.assume_forall(lambda *i: k.abs(disc(*i)) > k.frac(1, 400), *es)
    if not (k.symbolic or num is k.real):       # stay away from the poles
        k.assume_forall(lambda *i: k.abs((zz(i) - ee(e0, i)) * (zz(i) - ee(e1, i)) - ee(t, i) * k.conj(ee(t, i))) > k.frac(1, 100), *out)
    if k.symbolic and num is not k.real:
        k.assume_forall(lambda *i: k.not_(k.eq((zz(i) - ee(e0, i)) * (zz(i) - ee(e1, i)) - ee(t, i) * k.conj(ee(t, i)), 0)), *out)
    g = k.call("gftool.matrix.gf_2x2_z", z, e0, e1, hopping=t)

    def spec(*i):
        c, i = i[-1], i[:-1]
        det = (zz(i) - ee(e0, i)) * (zz(i) - ee(e1, i)) - ee(t, i) * k.conj(ee(t, i))
        return k.ite(k.eq(c, 0), lambda: zz(i) - ee(e1, i), lambda: zz(i) - ee(e0, i)) / det
    k.ensure_eq("diag (z-H)^-1", g, spec, out + (2,), tol=1e-6)
    k.frame()


def c_gf_2x2_hilbert(k):
    """with a Hilbert transform h: diag of U diag(h(z - lambda)) U^+"""
    n = k.dim("n")
    h = k.ufun("h", lambda x: 1 / (x + 0.3) + 0.5 / (x - 1.2))
    z = k.complex("z", (n,), im="pos")
    e0 = k.real("eps0", (n,))
    e1 = k.real("eps1", (n,))
    t = k.complex("t", (n,), special=(0,))
    k.assume_forall(lambda i: (e0[i] - e1[i])**2 / 4 + t[i] * k.conj(t[i]) > k.frac(1, 400) if not k.symbolic else
                    k.or_(k.abs(t[i]) > 0, k.not_(k.eq(e0[i], e1[i]))), n)
    g = k.call("gftool.matrix.gf_2x2_z", z, e0, e1, hopping=t, hilbert_trafo=h)

    def spec(i, c):
        mean = (e0[i] + e1[i]) / 2
        s = k.sqrt((e0[i] - e1[i])**2 / 4 + t[i] * k.conj(t[i]))
        e = k.ite(k.eq(c, 0), e0[i], e1[i])
        wp = (e - mean + s) / (2 * s)
        return wp * h(z[i] - mean - s) + (1 - wp) * h(z[i] - mean + s)
    k.ensure_eq("U h(z-lambda) U^+", g, spec, (n, 2), tol=1e-6)


def c_construct_gf(k):
    N = k.dim("N")
    rv = k.complex("rv", (N, N))
    rvi = k.complex("rvi", (N, N))
    e = k.complex("e", (N,))
    g = k.call("gftool.matrix.construct_gf", rv, e, rvi)
    k.ensure_eq("rv diag rv_inv", g, lambda i, j: k.sum(lambda m: rv[i, m] * e[m] * rvi[m, j], N), (N, N))
    k.frame()


def c_decomposition_api(k):
    """from_hamiltonian / from_gf pass decompositions through and decompose matrices; u, uh, s of a unitary decomposition"""
    N = k.dim("N")
    mat, _ = _mat(k, None, N, "her")
    dec = k.call("gftool.matrix.decompose_her", mat)
    for cls in ("Decomposition", "UDecomposition"):
        C = k.fn("gftool.matrix." + cls)
        k.ensure(cls + ".from_hamiltonian(dec) is dec", k.call(C.from_hamiltonian, dec) is dec)
        k.ensure(cls + ".from_gf(dec) is dec", k.call(C.from_gf, dec) is dec)
    C = k.fn("gftool.matrix.Decomposition")
    d2 = k.call(C.from_hamiltonian, mat)
    k.ensure_eq("from_hamiltonian(mat)", k.call(d2.reconstruct), lambda i, j: mat[i, j], (N, N), tol=1e-6)
    k.ensure_real_dtype("eigenvalues real", d2.eig)
    k.ensure("three components", len(dec) == 3)
    k.ensure("u, uh", dec.u is dec.rv and dec.uh is dec.rv_inv)
    if not k.symbolic:
        import numpy as np
        want = sorted(np.abs(np.asarray(dec.eig)), reverse=True)
        k.ensure_eq("singular values in decreasing order", dec.s, lambda i: float(want[i]), (N,))


def c_from_gf(k):
    N = k.dim("N")
    mat, _ = _mat(k, None, N, "gen")
    _wellcond(k, mat)
    d = k.call(k.fn("gftool.matrix.Decomposition").from_gf, mat)
    k.ensure_eq("from_gf(mat)", k.call(d.reconstruct), lambda i, j: mat[i, j], (N, N), tol=1e-6)
    k.frame()
