"""C03 Pole Green's functions on the complex plane: value, derivative, moments"""


def _setup(k, zkind="c"):
    """shapes following numpy broadcasting: z (...), poles/weights (..., N)"""
    N = k.dim("N")
    lay = k.choice("layout", ["z0", "z1", "z2", "z1 p1", "zb"])
    n = k.dim("n") if lay != "z0" else 1
    m = k.dim("m") if lay in ("z2", "zb") else 1
    zs = {"z0": (), "z1": (n,), "z2": (m, n), "z1 p1": (n,), "zb": (m, 1)}[lay]
    ps = {"z0": (N,), "z1": (N,), "z2": (N,), "z1 p1": (n, N), "zb": (n, N)}[lay]
    out = {"z0": (), "z1": (n,), "z2": (m, n), "z1 p1": (n,), "zb": (m, n)}[lay]
    z = k.complex("z", zs, im=k.choice("half plane", ["pos", "neg"]))
    p = k.real("poles", ps, kind=k.choice("pkind", ["f", "i"]))
    w = k.real("weights", ps)
    zz = (lambda *i: z[i[0], 0]) if lay == "zb" else (lambda *i: z[i])
    off = {"z0": 0, "z1": 1, "z2": 2, "z1 p1": 0, "zb": 1}[lay]
    pp = lambda i, j: p[tuple(i[off:]) + (j,)]
    ww = lambda i, j: w[tuple(i[off:]) + (j,)]
    return N, out, z, p, w, zz, pp, ww


def c_gf_z(k):
    N, out, z, p, w, zz, pp, ww = _setup(k)
    g = k.call(k.choice("api", ["gftool.pole_gf_z", "gftool.basis.pole.gf_z"]), z, poles=p, weights=w)
    k.ensure_eq("G(z) = sum_j w_j/(z - p_j)", g, lambda *i: k.sum(lambda j: ww(i, j) / (zz(*i) - pp(i, j)), N), out)
    k.frame()


def c_gf_d1_z(k):
    N, out, z, p, w, zz, pp, ww = _setup(k)
    g = k.call(k.choice("api", ["gftool.pole_gf_d1_z", "gftool.basis.pole.gf_d1_z"]), z, poles=p, weights=w)
    k.ensure_eq("G'(z) = -sum_j w_j/(z - p_j)^2", g, lambda *i: -k.sum(lambda j: ww(i, j) / (zz(*i) - pp(i, j))**2, N), out)
    k.frame()


def c_analytic(k):
    """conjugation symmetry and sign of the imaginary part (causality)"""
    N, n = k.dim("N"), k.dim("n")
    z = k.complex("z", (n,), im="pos")
    p = k.real("poles", (N,))
    w = k.real("weights", (N,), lo=0)
    g = k.call("gftool.pole_gf_z", z, poles=p, weights=w)
    zc = k.derived("zc", (n,), "c", lambda i: k.conj(z[i]))
    gc = k.call("gftool.pole_gf_z", zc, poles=p, weights=w)
    G = k.out(g)
    k.ensure_eq("G(conj z) = conj G(z)", gc, lambda i: k.conj(G[i]), (n,))
    GR = k.out(g)
    k.ensure_eq("Im G = -Im z sum w/|z-p|^2", g.imag, lambda i: -k.im(z[i]) * k.sum(lambda j: w[j] / k.re((z[i] - p[j]) * k.conj(z[i] - p[j])), N), (n,))
    k.concrete(lambda: k.ensure("causal: Im G <= 0 on the upper half plane", lambda i: k.im(GR[i]) <= 0, n))
    k.frame()


def c_moments(k):
    N, n = k.dim("N"), k.dim("n")
    lay = k.choice("layout", ["1", "2", "w0"])
    m = k.dim("m") if lay == "2" else 1
    sh = (m, N) if lay == "2" else (N,)
    p = k.real("poles", sh, mag=1)
    w = k.real("weights", () if lay == "w0" else sh)
    order = k.real("order", (n,), kind="i", lo=1, hi=6)
    k.assume_forall(lambda *i: k.or_(p[i] > k.frac(1, 100), p[i] < -k.frac(1, 100)), *sh)
    mom = k.call(k.choice("api", ["gftool.pole_gf_moments", "gftool.basis.pole.moments"]), p, w, order)
    ww = (lambda i, j: w.e) if lay == "w0" else (lambda i, j: w[tuple(i) + (j,)])
    if lay == "2":
        k.ensure_eq("m_k = sum_j w_j p_j^(k-1)", mom, lambda b, i: k.sum(lambda j: ww((b,), j) * k.pow(p[b, j], order[i] - 1), N), (m, n))
    else:
        k.ensure_eq("m_k = sum_j w_j p_j^(k-1)", mom, lambda i: k.sum(lambda j: ww((), j) * k.pow(p[j], order[i] - 1), N), (n,))
    k.frame()


def c_objects(k):
    """methods of the pole containers agree with the functions"""
    N, n = k.dim("N"), k.dim("n")
    z = k.complex("z", (n,), im="pos")
    p = k.real("poles", (N,))
    w = k.real("weights", (N,))
    cls = k.fn(k.choice("cls", ["gftool.basis.PoleFct", "gftool.basis.PoleGf"]))
    o = cls(poles=p.v, residues=w.v)
    k.ensure_eq("eval_z", k.call(o.eval_z, z), lambda i: k.sum(lambda j: w[j] / (z[i] - p[j]), N), (n,))
    one = k.call(o.moments, 1)
    k.ensure_eq("moments(1) = sum of residues", one, lambda *i: k.sum(lambda j: w[j], N), tuple(getattr(one, "shape", ())))
    m3 = k.call(o.moments, [1, 2, 3])
    k.ensure_eq("moments([1,2,3])", m3, lambda i: k.sum(lambda j: w[j] * k.ite(k.eq(i, 0), 1, lambda: k.ite(k.eq(i, 1), p[j], lambda: p[j] * p[j])), N), (3,))
    k.frame()


def c_tail(k):
    """high-frequency tail: G(z) - sum_{k<=K} m_k/z^k = z^-K sum_j w_j p_j^K/(z-p_j)"""
    N, n = k.dim("N"), k.dim("n")
    K = k.choice("K", [1, 2, 3])
    z = k.complex("z", (n,), im="pos")
    p = k.real("poles", (N,))
    w = k.real("weights", (N,))
    g = k.call("gftool.pole_gf_z", z, poles=p, weights=w)
    mom = k.out(k.call("gftool.pole_gf_moments", p, w, list(range(1, K + 1))))

    def tail(i):
        t = mom[0] / z[i]
        for q in range(1, K):
            t = t + mom[q] / z[i]**(q + 1)
        return t + k.sum(lambda j: w[j] * p[j]**K / (z[i] - p[j]), N) / z[i]**K
    k.ensure_eq("G = truncated tail + remainder", g, tail, (n,), tol=1e-6)
