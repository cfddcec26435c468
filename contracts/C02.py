"""C02 Matsubara and Pade frequencies"""


def _idx(k):
    r = k.choice("rank", [0, 1, 2])
    sh = () if r == 0 else ((k.dim("N"),) if r == 1 else (k.dim("M"), k.dim("N")))
    return sh, k.real("n", sh, kind="i", samp=(-50, 50), special=(-50, -1, 0, 50))


def c_matsubara_fermi(k):
    sh, n = _idx(k)
    beta = k.real("beta", pos=True, kind=k.choice("kindb", ["f", "i"]))
    iw = k.call("gftool.matsubara_frequencies", n, beta)
    k.ensure_eq("iw_n = i pi (2n+1)/beta", iw, lambda *i: k.I * k.pi * (2 * n[i] + 1) / beta, sh)
    IW = k.out(iw)
    k.ensure("pole of the Fermi function: exp(beta iw) = -1",
             lambda *i: k.eq(k.exp(beta * IW[i]), -1), *sh)
    k.frame()


def c_matsubara_bose(k):
    sh, n = _idx(k)
    beta = k.real("beta", pos=True, kind=k.choice("kindb", ["f", "i"]))
    iv = k.call("gftool.matsubara_frequencies_b", n, beta)
    k.ensure_eq("iv_n = 2 i pi n/beta", iv, lambda *i: k.I * 2 * k.pi * n[i] / beta, sh)
    IV = k.out(iv)
    k.ensure("pole of the Bose function: exp(beta iv) = 1", lambda *i: k.eq(k.exp(beta * IV[i]), 1), *sh)
    k.frame()


def c_matsubara_rejects_float(k):
    n = k.dim("N")
    x = k.real("n", (n,), kind="f", noint=True)
    beta = k.real("beta", pos=True)
    f = k.choice("fct", ["gftool.matsubara_frequencies", "gftool.matsubara_frequencies_b"])
    k.call_raises(TypeError, True, f, x, beta)


def c_pade_frequencies(k):
    """poles/residues of the truncated continued fraction of the Fermi function (bounded: num <= 14)"""
    k.only_concrete()
    num = k.int("num", 1, 14)
    beta = k.real("beta", lo=0.1, hi=100)
    izp, res = k.call("gftool.pade_frequencies", num, beta)
    k.ensure_shape("izp", izp, (num,))
    k.ensure_shape("residues", res, (num,))
    Z, R = k.out(izp), k.out(res)
    k.ensure("positive imaginary axis", lambda i: k.and_(k.abs(k.re(Z[i])) <= k.frac(1, 10**6) * k.abs(Z[i]), k.im(Z[i]) > 0), num)
    k.ensure("ascending", lambda i: k.im(Z[i]) < k.im(Z[i + 1]), num - 1)
    k.ensure("residues >= 1", lambda i: R[i] >= 1 - k.frac(1, 10**6), num)
    k.ensure_real_dtype("residues real", res)
    x = k.real("x", lo=-8, hi=8)                 # x = beta*eps
    eps = x.e / beta.e
    approx = k.frac(1, 2) - k.sum(lambda i: R[i] * (1 / (eps - Z[i]) + 1 / (eps + Z[i])), num) / beta.e
    # tanh(y)/2 with y = x/2 as continued fraction y/(1+y^2/(3+y^2/(5+...))), 2*num levels
    y2 = x.e * x.e / 4
    t = k.frac(4 * num - 1)
    for m in range(2 * num - 2, -1, -1):
        t = (2 * m + 1) + y2 / t
    k.ensure_eq("sum over poles = [2num-1/2num] continued fraction of n_F", complex(approx), k.frac(1, 2) - x.e / 2 / t / 2, tol=1e-6)


c_pade_frequencies.bounded = True
