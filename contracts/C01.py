"""C01 Fermi and Bose functions"""


def _shape(k):
    r = k.choice("rank", [0, 1, 2])
    if r == 0:
        return ()
    n = k.dim("N")
    if r == 1:
        return (n,)
    return (k.dim("M"), n)


def c_fermi(k):
    sh = _shape(k)
    x = k.real("eps", sh, kind=k.choice("kind", ["f", "i"]), special=(0, 800, -800, 1e4))
    beta = k.real("beta", pos=True, kind=k.choice("kindb", ["f", "i"]))
    f = k.call("gftool.fermi_fct", x, beta)
    k.ensure_eq("n_F(eps)=1/(exp(beta eps)+1)", f, lambda *i: 1 / (k.exp(beta * x[i]) + 1), sh, rel=1e-9)
    F = k.out(f)
    k.ensure("0<=n_F<=1", lambda *i: k.and_(F[i] >= 0, F[i] <= 1), *sh)
    k.ensure_real_dtype("real result", f)
    k.frame()


def c_fermi_complex(k):
    sh = _shape(k)
    x = k.complex("eps", sh, special=(300, -300))
    beta = k.real("beta", pos=True)
    k.assume_forall(lambda *i: k.not_(k.eq(k.exp(beta * x[i]), -1)), *sh)
    k.assume_forall(lambda *i: k.abs(k.exp(beta * x[i]) + 1) > k.frac(1, 1000), *sh)
    f = k.call("gftool.fermi_fct", x, beta)
    k.ensure_eq("n_F complex", f, lambda *i: 1 / (k.exp(beta * x[i]) + 1), sh, rel=1e-9)
    k.frame()


def c_fermi_d1(k):
    sh = _shape(k)
    x = k.real("eps", sh, kind=k.choice("kind", ["f", "i"]), special=(0, 800, -800))
    beta = k.real("beta", pos=True)
    d = k.call("gftool.fermi_fct_d1", x, beta)
    k.ensure_eq("n_F'(eps)", d, lambda *i: -beta * k.exp(beta * x[i]) / (k.exp(beta * x[i]) + 1)**2, sh)
    D = k.out(d)
    k.ensure("n_F' <= 0", lambda *i: D[i] <= 0, *sh)
    k.frame()


def c_fermi_inv(k):
    sh = _shape(k)
    f = k.real("occ", sh, lo=0, hi=1, lo_open=True, hi_open=True)
    beta = k.real("beta", pos=True)
    e = k.call("gftool.fermi_fct_inv", f, beta)
    k.ensure_eq("inverse formula", e, lambda *i: (k.log(1 - f[i]) - k.log(f[i])) / beta, sh, atol=1e-9)
    back = k.call("gftool.fermi_fct", e, beta)
    k.ensure_eq("fermi_fct(fermi_fct_inv(n)) = n", back, lambda *i: f[i], sh)
    k.frame()


def c_bose(k):
    sh = _shape(k)
    x = k.real("eps", sh, kind=k.choice("kind", ["f", "i"]), special=(800, -800, 1e-9))
    beta = k.real("beta", pos=True, kind=k.choice("kindb", ["f", "i"]))
    k.assume_forall(lambda *i: k.abs(x[i] * beta) > k.frac(1, 10**15), *sh)
    f = k.call("gftool.bose_fct", x, beta)
    k.ensure_eq("n_B(eps)=1/(exp(beta eps)-1)", f, lambda *i: 1 / (k.exp(beta * x[i]) - 1), sh, rel=1e-9)
    k.frame()


def c_bose_tail(k):
    """the exponential tail keeps its relative accuracy up to the underflow"""
    n = k.dim("N")
    x = k.real("eps", (n,), lo=600, hi=703)
    f = k.call("gftool.bose_fct", x, 1.0)
    k.ensure_eq("n_B(eps)=1/(exp(eps)-1)", f, lambda i: 1 / (k.exp(x[i]) - 1), (n,), rel=1e-9)
    g = k.call("gftool.fermi_fct", x, 1.0)
    k.ensure_eq("n_F(eps)=1/(exp(eps)+1)", g, lambda i: 1 / (k.exp(x[i]) + 1), (n,), rel=1e-9)
