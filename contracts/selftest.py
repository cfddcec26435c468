"""Control obligations for tools/selftest.py: clauses named `false..` must never be discharged, the others must be."""


def c_fermi(k):
    s = k.dim("n")
    eps, beta = k.real("eps", (s,)), k.real("beta", pos=True)
    r = k.call("gftool.statistics.fermi_fct", eps, beta)
    k.ensure_eq("true: value", r, lambda i: 1 / (k.exp(beta.e * eps[i]) + 1), (s,))
    k.ensure_eq("false: bose", r, lambda i: 1 / (k.exp(beta.e * eps[i]) - 1), (s,))
    k.ensure_eq("false: sign", r, lambda i: 1 / (k.exp(-beta.e * eps[i]) + 1), (s,))
    k.ensure_eq("false: reversed", r, lambda i: 1 / (k.exp(beta.e * eps[s - 1 - i]) + 1), (s,))


def c_pole(k):
    n, m = k.dim("n"), k.dim("m")
    z, p, w = k.complex("z", (n,), im="pos"), k.real("poles", (m,)), k.real("weights", (m,))
    r = k.call("gftool.basis.pole.gf_z", z, p, w)
    k.ensure_eq("true: value", r, lambda i: k.sum(lambda j: w[j] / (z[i] - p[j]), m), (n,))
    k.ensure_eq("false: all but the last", r, lambda i: k.sum(lambda j: w[j] / (z[i] - p[j]), m - 1), (n,))
    k.ensure_eq("false: conj", r, lambda i: k.sum(lambda j: w[j] / (k.conj(z[i]) - p[j]), m), (n,))
    k.ensure("false: sign", k.im(k.sum(lambda j: w[j] / (z[0] - p[j]), m)) <= 0)


def c_precondition(k):
    """no contradiction hidden in the preconditions of inputs"""
    k.dim("n")
    x = k.real("x", (3,), lo=0, hi=1)
    z = k.complex("z", (), im="pos")
    k.ensure("false: false", k.eq(1, 2))
    k.ensure("false: bound", x[0] < 1)
    k.ensure("true: bound", x[0] <= 1)
    k.ensure("true: im", k.im(z.e) > 0)
