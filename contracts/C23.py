"""C23 model Green's functions: surface, Hubbard dimer, Hubbard-I"""
from contracts import lat


def _shape(k):
    lay = k.choice("layout", ["0", "1", "2"])
    return tuple(k.dim(d) for d in {"0": (), "1": ("n",), "2": ("n", "m")}[lay])


def c_surface(k):
    """g(z) of the end of a semi-infinite chain: t^2 g^2 - (z-eps) g + 1 = 0 on the decaying branch"""
    lay = k.choice("layout", ["0", "1", "b"])
    n = k.dim("n") if lay != "0" else 1
    m = k.dim("m") if lay == "b" else 1
    z = k.complex("z", {"0": (), "1": (n,), "b": (n, 1)}[lay], im="nonzero")
    e = k.real("eps", {"0": (), "1": (), "b": (m,)}[lay], special=(0,))
    t = k.real("hopping", pos=True, special=(1, 0.5), mag=2)
    r = k.call("gftool.surface_gf_zeps", z, e, hopping_nn=t)
    out = {"0": (), "1": (n,), "b": (n, m)}[lay]
    x = {"0": lambda i: z[i] - e.e, "1": lambda i: z[i] - e.e, "b": lambda i: z[i[0], 0] - e[i[1]]}[lay]
    k.ensure_eq("closed form", r, lambda *i: lat.g_bethe(k, x(i), 2 * t), out, tol=1e-6)
    g = k.out(r)
    k.ensure("surface self-consistency", lambda *i: k.abs(t**2 * g[i]**2 - x(i) * g[i] + 1) <= k.frac(1, 10**6) * (1 + k.abs(x(i))**2)
             if not k.symbolic else k.eq(t**2 * g[i]**2 - x(i) * g[i] + 1, 0), *out)
    k.ensure("causal", lambda *i: k.im(g[i]) * k.im(x(i)) <= 0, *out)
    k.frame()


def c_dimer(k):
    """(anti)bonding Green's function of the Hubbard dimer: two poles with weights adding to 1"""
    shape = _shape(k)
    kind = k.choice("kind", ["+", "-", "default"])
    z = k.complex("z", shape, im="nonzero")
    t = k.real("hopping", special=(1, 0.5, -1), mag=2)
    U = k.real("interaction", special=(0, 1, 4), mag=3)
    k.assume(t**2 + U**2 > 0 if k.symbolic else abs(t.e) + abs(U.e) > 0.01)
    r = k.call("gftool.hubbard_dimer_gf_z", z, hopping=t, interaction=U, **({} if kind == "default" else dict(kind=kind)))
    s = -1 if kind == "-" else 1

    def spec(*i):
        W = k.sqrt(U**2 / 4 + 4 * t**2)
        a = s * t.e / W
        return (k.frac(1, 2) + a) / (z[i] - (U / 2 - W + s * t.e)) + (k.frac(1, 2) - a) / (z[i] - (U / 2 + W + s * t.e))
    k.ensure_eq("G(z)", r, spec, shape, tol=1e-7)
    k.frame()


def c_dimer_dyson(k):
    """G^-1 = z - s t - U/2 - U^2/4 / (z - U/2 - 3 s t): the exact self-energy of the dimer at half filling (chemical potential 0)"""
    n = k.dim("n")
    kind = k.choice("kind", ["+", "-"])
    z = k.complex("z", (n,), im="nonzero")
    t = k.real("hopping", special=(1, 0.5, -1), mag=2)
    U = k.real("interaction", special=(0, 1, 4), mag=3)
    k.assume(t**2 + U**2 > 0 if k.symbolic else abs(t.e) + abs(U.e) > 0.01)
    r = k.call("gftool.hubbard_dimer_gf_z", z, hopping=t, interaction=U, kind=kind)
    s = 1 if kind == "+" else -1
    g = k.out(r)
    x = lambda i: z[i] - U / 2
    # G = (x - 3 s t + ...)/...: sum of the poles +-W + s t, product s.t. (x - s t)^2 - W^2
    k.ensure("Dyson equation", lambda i: (k.eq(g[i] * ((x(i) - s * t.e)**2 - U**2 / 4 - 4 * t**2), x(i) - s * t.e - 2 * s * t.e) if k.symbolic else
                                          k.abs(g[i] * ((x(i) - s * t.e)**2 - U**2 / 4 - 4 * t**2) - (x(i) - 3 * s * t.e)) <= k.frac(1, 10**8) * (1 + k.abs(x(i))**2 + U**2 + t**2) / k.min(1, k.abs(k.im(z[i])))), n)


def c_dimer_kind(k):
    z = k.complex("z", (), im="nonzero")
    kind = k.choice("kind", ["++", "a", "x", " +", "p"])
    k.call_raises(ValueError, True, "gftool.hubbard_dimer_gf_z", z, hopping=1.0, interaction=2.0, kind=kind)


def c_hubbard_I(k):
    """Sigma(z) = U n z/(z - U(1-n)), i.e. G = (1-n)/z + n/(z-U) for the atomic limit"""
    shape = _shape(k)
    z = k.complex("z", shape, im=k.choice("axis", ["nonzero", None]), special=(0,))
    U = k.real("U", special=(0, 1, 4), mag=3)
    occ = k.real("occ", lo=0, hi=1, special=(0, 1, 0.5))
    if shape == ():  # Python scalars: exactly on the pole of Sigma is no number
        k.assume(k.not_(k.eq(z[()], U.e * (1 - occ.e))))
    r = k.call("gftool.hubbard_I_self_z", z, U, occ)
    k.ensure_eq("Sigma(z)", r, lambda *i: U.e * occ.e * z[i] / (z[i] - U * (1 - occ.e)), shape)
    k.ensure_eq("atomic Green's function", r, lambda *i: z[i] - 1 / ((1 - occ.e) / z[i] + occ.e / (z[i] - U.e)), shape, tol=1e-6)
    k.frame()
