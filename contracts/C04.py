"""C04 Pole Green's functions in imaginary and real time, occupation"""


def _fermi(k, x):
    return 1 / (k.exp(x) + 1)


def c_gf_tau(k):
    """G(tau) = -sum_j w_j n_F(-p_j) exp(-tau p_j) on [0, beta]"""
    N = k.dim("N")
    lay = k.choice("layout", ["t0", "t1", "t1 p2"])
    n = k.dim("n") if lay != "t0" else 1
    m = k.dim("m") if lay == "t1 p2" else 1
    beta = k.real("beta", pos=True)
    s = k.real("s", () if lay == "t0" else (n,), lo=0, hi=1)
    ps = (m, 1, N) if lay == "t1 p2" else (N,)
    p = k.real("poles", ps)
    w = k.real("weights", ps)
    tau = k.derived("tau", s.shape, "f", lambda *i: s[i] * beta)
    k.assume_forall(lambda *i: tau[i] <= beta, *s.shape)
    g = k.call(k.choice("api", ["gftool.pole_gf_tau", "gftool.basis.pole.gf_tau"]), tau, poles=p, weights=w, beta=beta)
    if lay == "t1 p2":
        k.ensure_eq("G(tau)", g, lambda b, i: -k.sum(lambda j: w[b, 0, j] * _fermi(k, -beta * p[b, 0, j]) * k.exp(-tau[i] * p[b, 0, j]), N), (m, n))
    else:
        k.ensure_eq("G(tau)", g, lambda *i: -k.sum(lambda j: w[j] * _fermi(k, -beta * p[j]) * k.exp(-tau[i] * p[j]), N), s.shape)
    k.frame()


def c_gf_tau_large(k):
    """no overflow: finite for arbitrarily large beta*pole (bounded: replay of extreme values)"""
    N = k.dim("N")
    beta = k.real("beta", lo=1, hi=2000, special=(2000, 1000))
    t = k.real("s", (), lo=0, hi=1)
    p = k.real("poles", (N,), mag=100)
    w = k.real("weights", (N,))
    tau = k.derived("tau", (), "f", lambda: t * beta)
    k.assume(tau.e <= beta)
    g = k.call("gftool.pole_gf_tau", tau, poles=p, weights=w, beta=beta)
    k.ensure_eq("G(tau)", g, -k.sum(lambda j: w[j] * _fermi(k, -beta * p[j]) * k.exp(-tau.e * p[j]), N), ())


def c_jump(k):
    """G(0+) + G(beta-) = -sum of weights;  -G(beta-) = occupation"""
    N = k.dim("N")
    beta = k.real("beta", pos=True)
    p = k.real("poles", (N,))
    w = k.real("weights", (N,))
    g0 = k.out(k.call("gftool.pole_gf_tau", 0.0, poles=p, weights=w, beta=beta))
    gb = k.out(k.call("gftool.pole_gf_tau", beta, poles=p, weights=w, beta=beta))
    k.ensure_eq("jump", g0.e + gb.e if k.symbolic else float(g0.e + gb.e), -k.sum(lambda j: w[j], N), ())
    o = k.fn("gftool.basis.PoleGf")(poles=p.v, residues=w.v)
    occ = k.call(o.occ, beta)
    k.ensure_eq("occ = sum w n_F(p)", occ, k.sum(lambda j: w[j] * _fermi(k, beta * p[j]), N), ())
    k.ensure_eq("occ = -G(beta)", occ, -gb.e, ())


def c_gf_tau_b(k):
    """bosonic: G(tau) = -sum_j w_j (1 + n_B(p_j)) exp(-tau p_j), poles > 0"""
    N, n = k.dim("N"), k.dim("n")
    beta = k.real("beta", pos=True)
    s = k.real("s", (n,), lo=0, hi=1)
    p = k.real("poles", (N,), pos=True, samp=(0.01, 4))
    w = k.real("weights", (N,))
    tau = k.derived("tau", (n,), "f", lambda i: s[i] * beta)
    k.assume_forall(lambda i: tau[i] <= beta, n)
    g = k.call("gftool.pole_gf_tau_b", tau, poles=p, weights=w, beta=beta)
    k.ensure_eq("G_b(tau)", g, lambda i: -k.sum(lambda j: w[j] * k.exp(-tau[i] * p[j]) / (1 - k.exp(-beta * p[j])), N), (n,))
    k.frame()


def c_gf_tau_b_domain(k):
    """negative poles are rejected with ValueError"""
    N = k.dim("N")
    beta = k.real("beta", pos=True)
    p = k.real("poles", (N,))
    w = k.real("weights", (N,))
    k.assume_forall(lambda j: k.or_(p[j] > k.frac(1, 1000), p[j] < 0), N)
    k.call_raises(ValueError, k.exists(lambda j: p[j] < 0, N), "gftool.pole_gf_tau_b", 0.0, poles=p, weights=w, beta=beta)


def c_gf_ret_t(k):
    """retarded: G(t) = -i Theta(t) sum_j w_j exp(-i p_j t)"""
    N = k.dim("N")
    lay = k.choice("layout", ["t0", "t1", "t1 p2"])
    n = k.dim("n") if lay != "t0" else 1
    m = k.dim("m") if lay == "t1 p2" else 1
    t = k.real("t", () if lay == "t0" else (n,))
    ps = (m, 1, N) if lay == "t1 p2" else (N,)
    p = k.real("poles", ps)
    w = k.real("weights", ps)
    g = k.call(k.choice("api", ["gftool.pole_gf_ret_t", "gftool.basis.pole.gf_ret_t"]), t, poles=p, weights=w)
    if lay == "t1 p2":
        k.ensure_eq("G_ret(t)", g, lambda b, i: k.ite(t[i] >= 0, lambda: -k.I * k.sum(lambda j: w[b, 0, j] * k.exp(-k.I * p[b, 0, j] * t[i]), N), 0), (m, n))
    else:
        k.ensure_eq("G_ret(t)", g, lambda *i: k.ite(t[i] >= 0, lambda: -k.I * k.sum(lambda j: w[j] * k.exp(-k.I * p[j] * t[i]), N), 0), t.shape)
    k.frame()


def c_objects(k):
    N, n = k.dim("N"), k.dim("n")
    beta = k.real("beta", pos=True)
    s = k.real("s", (n,), lo=0, hi=1)
    t = k.real("t", (n,), lo=0)
    p = k.real("poles", (N,))
    w = k.real("weights", (N,))
    tau = k.derived("tau", (n,), "f", lambda i: s[i] * beta)
    k.assume_forall(lambda i: tau[i] <= beta, n)
    o = k.fn("gftool.basis.PoleGf")(poles=p.v, residues=w.v)
    k.ensure_eq("eval_tau", k.call(o.eval_tau, tau, beta), lambda i: -k.sum(lambda j: w[j] * _fermi(k, -beta * p[j]) * k.exp(-tau[i] * p[j]), N), (n,))
    k.ensure_eq("eval_ret_t", k.call(o.eval_ret_t, t), lambda i: -k.I * k.sum(lambda j: w[j] * k.exp(-k.I * p[j] * t[i]), N), (n,))
    k.frame()
