"""C05 Constrained fits: equality-constrained least squares and pole fits from moments / G(z) / G(tau)"""


def c_orth_compl(k):
    """A_perp A = 0 and orthonormal rows, for tall matrices; others are rejected"""
    M = k.dim("M")
    extra = k.int("extra", -2, 3)
    N = M + extra
    k.assume(N >= 1)
    B = k.choice("batch", [0, 1])
    b = k.dim("B") if B else 1
    bs = (b,) if B else ()
    cplx = k.choice("complex", [False, True])
    a = (k.complex if cplx else k.real)("mat", bs + (N, M), layout=True)
    perp = k.call_raises(ValueError, extra <= 0, "gftool.linalg.orth_compl", a)
    k.ensure_shape("A_perp", perp, bs + (N - M, N))
    P = k.out(perp)
    k.ensure("A_perp A = 0", lambda *i: k.eq(k.sum(lambda n: P[i[:-2] + (i[-2], n)] * a[i[:-2] + (n, i[-1])], N), 0), *bs, N - M, M)
    k.ensure("orthonormal rows", lambda *i: k.eq(k.sum(lambda n: P[i[:-2] + (i[-2], n)] * k.conj(P[i[:-2] + (i[-1], n)]), N), k.delta(i[-2], i[-1])), *bs, N - M, N - M)
    k.frame()


def c_lstsq_ec(k):
    """c x = d holds exactly and x minimises |a x - b| among those x"""
    L = k.dim("L", bounded=(1, 2))
    e1 = k.int("e1", 1, 3, bounded=(1,))
    e2 = k.int("e2", 0, 3, bounded=(0,))
    N = L + e1
    M = N + e2
    cplx = k.choice("complex", [False, True])
    mk = k.complex if cplx else k.real
    a = mk("a", (M, N))
    b = mk("b", (M,))
    c = mk("c", (L, N))
    d = mk("d", (L,))
    _regular(k, a, c, M, N, L)
    x = k.call("gftool.linalg.lstsq_ec", a, b, c, d)
    X = k.out(x)
    k.ensure_shape("x", x, (N,))
    k.ensure("constraint c x = d", lambda l: k.eq(k.sum(lambda n: c[l, n] * X[n], N), d[l]), L)
    if k.symbolic:
        # the rows of orth_compl(c^+) are an orthonormal basis of the null space of c (contract c_orth_compl):
        # the residual is orthogonal to the image of each of them
        ch = k.derived("c_adj", (N, L), "c" if cplx else "f", lambda n, l: k.conj(c[l, n]))
        V = k.out(k.call("gftool.linalg.orth_compl", ch))
        res = lambda m: k.sum(lambda n: a[m, n] * X[n], N) - b[m]
        k.ensure("optimality", lambda j: k.eq(k.sum(lambda m: k.conj(k.sum(lambda n: a[m, n] * k.conj(V[j, n]), N)) * res(m), M), 0), e1)
        return
    # optimality: the residual is orthogonal to a v for every v with c v = 0
    import numpy as np
    cm, am = np.array(c.snap), np.array(a.snap)
    _, s, vh = np.linalg.svd(cm)
    null = vh[np.count_nonzero(s > 1e-8 * s[0]):].conj().T
    r = am.conj().T @ (am @ np.asarray(x) - np.array(b.snap))
    k.ensure_eq("optimality", null.conj().T @ r, lambda i: 0, (null.shape[1],), atol=1e-7 * (1 + float(abs(am).max())**2 * (1 + float(abs(np.asarray(x)).max()))))
    k.frame()


def _regular(k, a, c, M, N, L):
    """c of full rank and well conditioned (concrete runs only; generic in the proof)"""
    if k.symbolic:
        return
    import numpy as np
    k.assume(bool(np.linalg.cond(np.array(c.snap)) < 1e3))


def c_lstsq_noconstraint(k):
    N = k.dim("N")
    M = N + k.int("e", 0, 3)
    a = k.real("a", (M, N))
    b = k.real("b", (M,))
    if not k.symbolic:
        import numpy as np
        k.assume(bool(np.linalg.cond(np.array(a.snap)) < 1e3))
    c = k.derived("c", (0, N), "f", lambda i, j: 0.0)
    d = k.derived("d", (0,), "f", lambda i: 0.0)
    x = k.call("gftool.linalg.lstsq_ec", a, b, c, d)
    X = k.out(x)
    k.ensure_shape("x", x, (N,))
    k.ensure("normal equations", lambda n: k.eq(k.sum(lambda m: a[m, n] * (k.sum(lambda q: a[m, q] * X[q], N) - b[m]), M), 0), N)


def c_lstsq_special(k):
    """degenerate cases: no unknowns, unmatched shapes, redundant / contradictory constraints, cut-off of small singular values"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    N = k.int("N", 2, 5)
    M = N + k.int("e", 0, 3)
    cplx = k.choice("complex", [False, True])
    mk = k.complex if cplx else k.real
    a = np.array(mk("a", (M, N)).snap)
    b = np.array(mk("b", (M,)).snap)
    row = np.array(mk("row", (N,)).snap)
    k.assume(bool(np.linalg.cond(a) < 1e3) and float(np.abs(row).max()) > 0.1)
    case = k.choice("case", ["empty", "empty nc", "mismatch", "mismatch 0", "redundant", "contradiction", "rcond", "rcond nc"])
    f = "gftool.linalg.lstsq_ec"
    none, n0 = np.zeros((0, N)), np.zeros((0,))
    if case.startswith("empty"):
        x = k.call(f, a[:, :0], b, none[:, :0] if case == "empty nc" else np.zeros((1, 0)), n0)
        k.ensure_shape("no unknowns", x, (0,))
        k.ensure("dtype of a", x.dtype == a.dtype)
    elif case.startswith("mismatch"):
        k.call_raises(ValueError, True, f, a, b, none if case == "mismatch 0" else np.array([row]), np.ones(1 if case == "mismatch 0" else 2))
    elif case in ("redundant", "contradiction"):
        at = k.choice("at", [0, 1])
        c = np.array([row * 0, row][::-1 if at else 1])
        d = np.array([0.0 if case == "redundant" else 0.5, 0.7][::-1 if at else 1])
        x = k.call_raises(np.linalg.LinAlgError, case == "contradiction", f, a, b, c, d)
        k.ensure_eq("constraint", c @ np.asarray(x), lambda i: float(d[i]), (2,))
    else:
        # singular values below rcond * largest count as zero: the truncated pseudo-inverse
        u, sv, vh = np.linalg.svd(a, full_matrices=False)
        m = k.int("m", 1, N - 1)
        sv = np.where(np.arange(N) < m, 1.0, 0.01) * np.linspace(1.5, 1, N)
        a2 = (u * sv) @ vh
        rc = 0.1
        pinv = (vh.conj().T[:, :m] / sv[:m]) @ u.conj().T[:m]
        if case == "rcond nc":
            x = k.call(f, a2, b, none, n0, rcond=rc)
            want = pinv @ b
            k.ensure_eq("truncated pseudo-inverse", x, lambda i: want[i], (N,))
        else:
            aa = np.zeros((M, N + 1), a2.dtype)
            aa[:, 1:] = a2
            aa[:, 0] = row[0]
            c = np.zeros((1, N + 1))
            c[0, 0] = 2
            x = k.call(f, aa, b, c, np.array([1.0]), rcond=rc)
            want = np.concatenate([[0.5], pinv @ (b - 0.5 * row[0])])
            k.ensure_eq("truncated pseudo-inverse", x, lambda i: want[i], (N + 1,))


def c_gf_from_moments(k):
    """sum_j w_j p_j^l = moment_l; poles are the scaled Chebyshev nodes"""
    N = k.dim("N", bounded=(1, 2, 3))
    lay = k.choice("layout", ["1", "2"])
    b = k.dim("b") if lay == "2" else 1
    sh = (b, N) if lay == "2" else (N,)
    mom = k.real("mom", sh)
    width = k.real("width", pos=True, samp=(0.25, 4))
    cls = k.choice("api", ["gftool.basis.pole.gf_from_moments", "gftool.basis.PoleFct.from_moments", "gftool.basis.PoleGf.from_moments"])
    r = k.call(cls, mom, width=width)
    P, R = k.out(r.poles), k.out(r.residues)
    k.ensure_shape("residues", r.residues, sh)
    k.ensure_eq("poles", r.poles, lambda j: width * k.sin(k.pi * (2 * j + 1 - N) / (2 * N) if k.symbolic else k.pi * (2 * j + 1 - N) / (2 * N)), (N,))
    if lay == "2":
        k.ensure("moments", lambda q, l: k.eq(k.sum(lambda j: R[q, j] * k.pow(P[j], l), N), mom[q, l]), b, N)
    else:
        k.ensure("moments", lambda l: k.eq(k.sum(lambda j: R[j] * k.pow(P[j], l), N), mom[l]), N)
    k.frame()


def c_gf_from_moments_auto(k):
    """width=None: poles still interpolate the moments; largest pole = |second moment| unless < 0.1"""
    N = k.dim("N", bounded=(1, 2, 3)) if k.symbolic else k.int("N", 1, 6)
    mom = k.real("mom", (N,))
    r = k.call("gftool.basis.pole.gf_from_moments", mom, width=None)
    P, R = k.out(r.poles), k.out(r.residues)
    k.ensure_shape("residues", r.residues, (N,))
    k.ensure_shape("poles", r.poles, (N,))
    if k.symbolic:
        k.ensure("moments", lambda l: k.eq(k.sum(lambda j: R[j] * k.pow(P[j], l), N), mom[l]), N)
    else:
        k.ensure("moments", lambda l: k.abs(k.sum(lambda j: R[j] * k.pow(P[j], l), N) - mom[l]) <= k.frac(1, 10**6) * (1 + k.abs(mom[l])), N)
    if N > 1:
        m1 = mom[1]
        node = lambda j: k.sin(k.pi * (2 * j + 1 - N) / (2 * N))
        if k.symbolic:                  # the largest node is the last one: bounded
            k.ensure_eq("poles", r.poles, lambda j: k.ite(k.abs(m1) >= k.frac(1, 10), lambda: k.abs(m1) / k.amax(node, N), lambda: 1) * node(j), (N,))
            k.frame()
            return
        want = k.ite(k.abs(m1) >= k.frac(1, 10), k.abs(m1), k.sin(k.pi * (N - 1) / (2 * N)))
        k.ensure_eq("largest pole", r.poles[-1], want, ())


def c_gf_from_z_sizes(k):
    """fit to G(z) for all sizes: Chebyshev nodes, moments met exactly; without moments the normal equations hold (real code; proof: c_gf_from_z_system, c_lstsq_ec)"""
    k.only_concrete()
    nm_ = k.choice("moments", [True, False])
    nm = k.dim("n_mom", bounded=(1, 2)) if nm_ else 0
    n = nm + k.int("extra", 1, 3, bounded=(1,))
    nz = n + k.int("more", 1, 4, bounded=(1,))
    width = k.real("width", pos=True, samp=(0.5, 3))
    z = k.complex("z", (nz,), im="pos")
    g = k.complex("gf_z", (nz,))
    use_w = k.choice("weight", [False, True])
    w = k.real("w", (nz,), samp=(0.25, 2))
    mom = k.real("mom", (nm,)) if nm_ else ()
    r = k.call("gftool.basis.PoleFct.from_z" if use_w else "gftool.basis.pole.gf_from_z", z, g, n, moments=mom, width=width, weight=w if use_w else None)
    P, R = k.out(r.poles), k.out(r.residues)
    k.ensure_eq("poles are the scaled Chebyshev nodes", r.poles, lambda j: width * k.sin(k.pi * (2 * j + 1 - n) / (2 * n)), (n,))
    k.ensure_shape("residues", r.residues, (n,))
    zero = lambda x, l: k.eq(x, 0) if k.symbolic else k.abs(x) <= k.frac(1, 10**6) * (100 + k.sum(lambda j: k.abs(R[j]) * k.pow(1 + k.abs(P[j]), l), n))
    if nm_:
        k.ensure("moments met", lambda l: zero(k.sum(lambda j: R[j] * k.pow(P[j], l), n) - mom[l], l), nm)
    else:
        ww = (lambda i: w[i]**2) if use_w else (lambda i: 1)
        res = lambda i: k.sum(lambda j: R[j] / (z[i] - P[j]), n) - g[i]
        k.ensure("normal equations", lambda l: zero(k.sum(lambda i: ww(i) * (k.re(1 / (z[i] - P[l])) * k.re(res(i)) + k.im(1 / (z[i] - P[l])) * k.im(res(i))), nz), 2), n)
    k.frame()


def c_gf_from_tau_sizes(k):
    """fit to G(tau): Chebyshev nodes, moments and occupation met exactly, normal equations (real code; proof: c_gf_from_tau_system, c_lstsq_ec)"""
    k.only_concrete()
    nm_ = k.choice("moments", [True, False])
    nm = k.dim("n_mom", bounded=(1, 2)) if nm_ else 0
    n = nm + 1 + k.int("extra", 1, 3, bounded=(1,))
    nt = n + k.int("more", 1, 4, bounded=(1,))
    width = k.real("width", pos=True, samp=(0.5, 3))
    beta = k.real("beta", pos=True, samp=(0.5, 8))
    g = k.real("gf_tau", (nt,))
    use_w = k.choice("weight", [False, True])
    w = k.real("w", (nt,), samp=(0.25, 2))
    fix = k.choice("occ", ["no", "value", "zero"])
    occ = {"no": False, "value": k.real("occ", (), samp=(0, 1)), "zero": 0.0}[fix]
    mom = k.real("mom", (nm,)) if nm_ else ()
    r = k.call("gftool.basis.PoleGf.from_tau" if use_w else "gftool.basis.pole.gf_from_tau", g, n, beta, moments=mom, occ=occ, width=width, weight=w if use_w else None)
    P, R = k.out(r.poles), k.out(r.residues)
    k.ensure_eq("poles are the scaled Chebyshev nodes", r.poles, lambda j: width * k.sin(k.pi * (2 * j + 1 - n) / (2 * n)), (n,))
    k.ensure_shape("residues", r.residues, (n,))
    zero = lambda x, l: k.eq(x, 0) if k.symbolic else k.abs(x) <= k.frac(1, 10**6) * (100 + k.sum(lambda j: k.abs(R[j]) * k.pow(1 + k.abs(P[j]), l), n))
    if nm_:
        k.ensure("moments met", lambda l: zero(k.sum(lambda j: R[j] * k.pow(P[j], l), n) - mom[l], l), nm)
    if fix != "no":
        k.ensure("occupation met", zero(k.sum(lambda j: R[j] / (k.exp(beta * P[j]) + 1), n) - (occ if fix == "zero" else occ.e), 1))
    if not nm_ and fix == "no":
        ww = (lambda i: w[i]**2) if use_w else (lambda i: 1)
        a = lambda i, j: -k.exp(-(beta * i / (nt - 1)) * P[j]) / (k.exp(-beta * P[j]) + 1)
        res = lambda i: k.sum(lambda j: R[j] * a(i, j), n) - g[i]
        k.ensure("normal equations", lambda l: zero(k.sum(lambda i: ww(i) * a(i, l) * res(i), nt), 2), n)
    k.frame()


def _ec_stub(k, n, cplx=False):
    """lstsq_ec by its contract (c_lstsq_ec): some x; the system it is given is recorded"""
    seen = {}
    X = k.complex("X", (n,)) if cplx else k.real("X", (n,))

    def lstsq_ec(a, b, c, d, rcond=None):
        seen.update(a=a, b=b, c=c, d=d, rcond=rcond)
        return X.v
    def lstsq(a, b, rcond=None):        # no constraints
        seen.update(a=a, b=b, c=None, d=None, rcond=rcond)
        return X.v, None, None, None
    k.stub("gftool.linalg.lstsq_ec", lstsq_ec)
    k.hook("lstsq", lstsq)
    return X, seen


def c_gf_from_z_system(k):
    """the constrained fit hands the documented system to lstsq_ec: minimise |w (sum_j R_j/(z-P_j) - G)| with sum_j R_j P_j^l = moment_l"""
    if not k.symbolic:
        return c_gf_from_z_sizes(k)
    nm = k.dim("n_mom") if k.choice("moments", [True, False]) else 0
    n = nm + k.int("extra", 0) if not isinstance(nm, int) else k.dim("n")
    nz = k.dim("nz")
    auto = k.choice("width", ["given", "default", "auto"])
    width = k.real("width", pos=True)
    z = k.complex("z", (nz,), im="pos")
    g = k.complex("gf_z", (nz,))
    use_w = k.choice("weight", [False, True])
    w = k.real("w", (nz,))
    cplx = not isinstance(nm, int) and k.choice("type of the moments", [False, True])
    mom = () if isinstance(nm, int) else k.complex("mom", (nm,)) if cplx else k.real("mom", (nm,))
    X, seen = _ec_stub(k, n, cplx)
    r = k.call(k.choice("api", ["gftool.basis.PoleFct.from_z", "gftool.basis.pole.gf_from_z"]), z, g, n, moments=mom, weight=w if use_w else None,
               **({} if auto == "default" else {"width": width if auto == "given" else None}))
    node = lambda j: k.sin(k.pi * (2 * j + 1 - n) / (2 * n))
    wd = 1 if auto != "given" else width
    if auto == "auto" and mom != ():    # |second moment| unless it is small
        wd = k.ite(nm > 1, lambda: k.ite(k.abs(mom[1]) >= k.frac(1, 10), lambda: k.abs(mom[1]) / k.amax(node, n), lambda: 1), lambda: 1)
    P = lambda j: wd * node(j)
    k.ensure_eq("poles are the scaled Chebyshev nodes", r.poles, P, (n,))
    k.ensure_eq("residues are the solution", r.residues, lambda j: X[j], (n,))
    ww = (lambda i: w[i]) if use_w else (lambda i: 1)
    part = lambda x, i: k.ite(i < nz, lambda: k.re(x), lambda: k.im(x))
    at = lambda i: k.ite(i < nz, i, i - nz)
    k.ensure_eq("matrix", seen["a"], lambda i, j: ww(at(i)) * part(1 / (z[at(i)] - P(j)), i), (2 * nz, n))
    k.ensure_eq("right hand side", seen["b"], lambda i: ww(at(i)) * part(g[at(i)], i), (2 * nz,))
    if not isinstance(nm, int):
        k.ensure_eq("constraint matrix", seen["c"], lambda l, j: k.pow(P(j), l), (nm, n))
        k.ensure_eq("constraints", seen["d"], lambda l: mom[l], (nm,))
    k.ensure("default cut-off", seen["rcond"] is None)
    k.frame()


def c_gf_from_tau_system(k):
    """the constrained fit hands the documented system to lstsq_ec: G(tau) on the equidistant grid, moments and occupation as constraints"""
    if not k.symbolic:
        return c_gf_from_tau_sizes(k)
    nm_ = k.choice("moments", [True, False])
    fix = k.choice("occ", ["value", "zero", "no"])
    nm = k.dim("n_mom") if nm_ else 0
    no = 0 if fix == "no" else 1
    n = nm + no + k.int("extra", 0 if nm_ or no else 1)
    nt = k.dim("nt", lo=2)
    auto = k.choice("width", ["given", "default"])
    width = k.real("width", pos=True)
    beta = k.real("beta", pos=True)
    use_w, cplx = k.choice("weight, complex data", [(False, False), (True, False), (False, True)])
    g = k.complex("gf_tau", (nt,)) if cplx else k.real("gf_tau", (nt,))
    w = k.real("w", (nt,))
    occ = {"no": False, "value": k.real("occ", ()), "zero": 0.0}[fix]
    mom = k.real("mom", (nm,)) if nm_ else ()
    X, seen = _ec_stub(k, n, cplx)
    r = k.call(k.choice("api", ["gftool.basis.PoleGf.from_tau", "gftool.basis.pole.gf_from_tau"]), g, n, beta, moments=mom, occ=occ,
               weight=w if use_w else None, **({} if auto == "default" else {"width": width}))
    wd = 1 if auto == "default" else width
    P = lambda j: wd * k.sin(k.pi * (2 * j + 1 - n) / (2 * n))
    k.ensure_eq("poles are the scaled Chebyshev nodes", r.poles, P, (n,))
    k.ensure_eq("residues are the solution", r.residues, lambda j: X[j], (n,))
    ww = (lambda i: w[i]) if use_w else (lambda i: 1)
    k.ensure_eq("matrix", seen["a"], lambda i, j: -ww(i) * k.exp(-(beta * i / (nt - 1)) * P(j)) / (k.exp(-beta * P(j)) + 1), (nt, n))
    k.ensure_eq("right hand side", seen["b"], lambda i: ww(i) * g[i], (nt,))
    o = 0 if fix == "zero" else occ
    if nm_:
        k.ensure_eq("constraint matrix", seen["c"], lambda l, j: k.ite(l < nm, lambda: k.pow(P(j), l), lambda: 1 / (k.exp(beta * P(j)) + 1)), (nm + no, n))
        k.ensure_eq("constraints", seen["d"], lambda l: k.ite(l < nm, lambda: mom[l], lambda: o), (nm + no,))
    elif no:
        k.ensure_eq("constraint matrix", seen["c"], lambda l, j: 1 / (k.exp(beta * P(j)) + 1), (1, n))
        k.ensure_eq("constraints", seen["d"], lambda l: o, (1,))
    k.ensure("default cut-off", seen["rcond"] is None)
    k.frame()


c_gf_from_z_system.concrete_runs = c_gf_from_tau_system.concrete_runs = 0.1


def c_gf_from_z(k):
    """fit to G(z): constraints are met exactly, exact pole functions on the nodes are recovered, too many moments rejected"""
    k.only_concrete()
    n = k.int("n_pole", 1, 6)
    nm = k.int("n_mom", 0, 7)
    nz = k.int("nz", 12, 20)
    width = k.real("width", pos=True, samp=(0.5, 3))
    z = k.complex("z", (nz,), im="pos")
    use_w = k.choice("weight", [False, True])
    res = k.real("res", (n,))
    w = k.real("w", (nz,), samp=(0.25, 2))
    import numpy as np
    poles = float(width.e) * np.sin(0.5 * np.pi / n * np.arange(-n + 1, n + 1, 2))
    g = np.sum(np.array(res.snap) / (np.array(z.snap)[:, None] - poles), axis=-1)
    mom = [float(np.sum(np.array(res.snap) * poles**m)) for m in range(nm)]
    perturb = k.choice("perturb", [False, True])
    if perturb:
        g = g + 0.1 * np.cos(np.arange(nz)) + 0.05j
    r = k.call_raises(ValueError, nm > n, k.choice("api", ["gftool.basis.pole.gf_from_z", "gftool.basis.PoleFct.from_z"]), z, g, n, moments=mom, width=width,
                      weight=w if use_w else None)
    P, R = k.out(r.poles), k.out(r.residues)
    k.ensure_eq("poles are the scaled Chebyshev nodes", r.poles, lambda j: width * k.sin(k.pi * (2 * j + 1 - n) / (2 * n)), (n,))
    k.ensure_shape("residues", r.residues, (n,))
    sc = float(np.abs(np.array(res.snap)).max() + 1) * max(1, float(width.e))**max(nm, 1)
    k.ensure("moments met", lambda l: k.abs(k.sum(lambda j: R[j] * k.pow(P[j], l), n) - mom[l]) <= k.frac(1, 10**6) * sc * 10, nm)
    if not perturb:
        cond = np.linalg.cond(1 / (np.array(z.snap)[:, None] - poles))
        k.assume(bool(cond < 1e4))
        k.ensure_eq("exact function recovered", r.residues, lambda j: res[j], (n,), tol=1e-5, atol=1e-5)
    k.frame()


c_gf_from_z.concrete_runs = 2


def c_gf_from_tau(k):
    """fit to G(tau): moments and occupation are met exactly, exact functions are recovered"""
    k.only_concrete()
    import numpy as np
    n = k.int("n_pole", 1, 5)
    nm = k.int("n_mom", 0, 6)
    nt = k.int("nt", 20, 30)
    beta = k.real("beta", pos=True, samp=(0.5, 8))
    width = k.real("width", lo=0.5, hi=2)
    use_w = k.choice("weight", [False, True])
    fixocc = k.choice("occ", ["no", "exact", "zero", "other"])
    perturb = k.choice("perturb", [False, True])
    res = k.real("res", (n,))
    w = k.real("w", (nt,), samp=(0.25, 2))
    be, wi = float(beta.e), float(width.e)
    poles = wi * np.sin(0.5 * np.pi / n * np.arange(-n + 1, n + 1, 2))
    tau = np.linspace(0, be, nt)
    rs = np.array(res.snap)
    nF = 1 / (np.exp(be * poles) + 1)
    g = -np.sum(rs * (1 - nF) * np.exp(-tau[:, None] * poles), axis=-1)
    if perturb:
        g = g + 0.1 * np.cos(np.arange(nt))
    mom = [float(np.sum(rs * poles**m)) for m in range(nm)]
    occ = {"no": False, "exact": float(np.sum(rs * nF)), "zero": 0.0, "other": 0.37}[fixocc]
    nc = nm + (fixocc != "no")
    # n_F = 1/2 at every node for n = 1: the occupation is then not independent of the first moment
    k.assume(not (fixocc in ("zero", "other") and nc >= n))
    r = k.call_raises(ValueError, nc > n, k.choice("api", ["gftool.basis.pole.gf_from_tau", "gftool.basis.PoleGf.from_tau"]),
                      k.as_array(g), n, be, moments=mom, occ=occ, width=wi, weight=w if use_w else None)
    P, R = k.out(r.poles), k.out(r.residues)
    k.ensure_eq("poles are the scaled Chebyshev nodes", r.poles, lambda j: width * k.sin(k.pi * (2 * j + 1 - n) / (2 * n)), (n,))
    k.ensure_shape("residues", r.residues, (n,))
    sc = float(np.abs(np.asarray(r.residues)).max() + np.abs(rs).max() + 1) * 10
    A = np.array([poles**m for m in range(nm)] + ([nF] if fixocc != "no" else [])).reshape(nc, n)
    if nc:
        k.assume(bool(np.linalg.cond(A) < 1e5))
    k.ensure("moments met", lambda l: k.abs(k.sum(lambda j: R[j] * k.pow(P[j], l), n) - mom[l]) <= k.frac(1, 10**6) * sc, nm)
    if fixocc != "no":
        k.ensure("occupation met", k.abs(k.sum(lambda j: R[j] / (k.exp(beta * P[j]) + 1), n) - occ) <= k.frac(1, 10**6) * sc)
    if not perturb and fixocc in ("no", "exact"):
        mat = (1 - nF) * np.exp(-tau[:, None] * poles)
        k.assume(bool(np.linalg.cond(mat) < 1e5))
        k.ensure_eq("exact function recovered", r.residues, lambda j: res[j], (n,), tol=1e-4, atol=1e-4)


c_gf_from_tau.concrete_runs = 2


def c_gf_fit_stacked(k):
    """extra axes: every Green's function of a stack is fitted on its own, with its own moments and weights; complex data are kept"""
    k.only_concrete()
    import numpy as np
    which = k.choice("fit", ["z", "tau", "moments"])
    b = k.dim("b", lo=2)
    n = k.int("n_pole", 2, 5)
    nm = k.int("n_mom", 0 if which != "moments" else 2, 2 if which != "moments" else 4)
    nz = k.int("nz", 12, 20)
    cplx = k.choice("type", ["real", "complex"]) == "complex"
    mk = lambda name, sh: (k.complex(name, sh) if cplx else k.real(name, sh)).snap
    stack = k.choice("moments stacked", [True, False])
    mom = mk("mom", (b, nm) if stack or which == "moments" else (nm,)) if nm else ()
    row = lambda x, i: x[i] if np.ndim(x) == 2 else x
    width = k.choice("width", [1.0, 0.7, None] if which != "tau" else [1.0, 0.7])
    if which == "moments":
        f, g, kw = k.fn("gftool.basis.pole.gf_from_moments"), None, {}
        r = f(mom, width=width)
        one = lambda i: f(mom[i], width=width)
    else:
        w = k.choice("weight", ["no", "1", "2"])
        w = None if w == "no" else k.real("w", (nz,) if w == "1" else (b, nz), samp=(0.25, 2)).snap
        if which == "z":
            z = k.complex("z", (nz,), im="pos").snap
            g = k.complex("gf", (b, nz)).snap
            f = k.fn("gftool.basis.pole.gf_from_z")
            r = f(z, g, n, moments=mom, width=width, weight=w)
            one = lambda i: f(z, g[i], n, moments=row(mom, i), width=width, weight=None if w is None else row(w, i))
        else:
            g = mk("gf", (b, nz))
            beta = k.choice("beta", [1.0, 3.0])
            occ = k.choice("occ", [False, 0.3]) if nm < n else False
            f = k.fn("gftool.basis.pole.gf_from_tau")
            r = f(g, n, beta, moments=mom, occ=occ, width=width, weight=w)
            one = lambda i: f(g[i], n, beta, moments=row(mom, i), occ=occ, width=width, weight=None if w is None else row(w, i))
    for i in range(b):
        s = one(i)
        res = np.broadcast_to(r.residues, (b, s.residues.shape[-1]))[i]
        k.ensure("residues of the stack", bool(res.shape == s.residues.shape and np.allclose(res, s.residues, rtol=1e-6, atol=1e-6 * (1 + abs(s.residues).max()))))
        pol = np.broadcast_to(r.poles, (b, s.poles.shape[-1]))[i]
        k.ensure("poles of the stack", bool(np.allclose(pol, s.poles)))
        if nm:
            m = row(mom, i)
            got = [np.sum(res * pol**l) for l in range(nm)]
            k.ensure("moments met", bool(np.allclose(got, m, rtol=1e-5, atol=1e-6 * (1 + abs(res).max()))))
