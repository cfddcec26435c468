"""C09 lattice Green's functions"""
from contracts import lat

_TWO = ["honeycomb", "kagome", "lieb"]


def _extra(k, name):
    if name == "bethez":
        Z = k.real("coordination", lo=2, samp=(2, 12), special=(2, 3, 4))
        return (Z.e,), dict(coordination=Z)
    if name == "rectangular":
        s = k.real("scale", pos=True, samp=(0.0625, 8), special=(1, 2, 0.5))
        return (s.e,), dict(scale=s)
    return (), {}


def _inputs(k, name, shape, im="nonzero"):
    D = k.real("half_bandwidth", pos=True, special=(1, 2), mag=2)
    z = k.complex("z", shape, im=im)
    ex, kw = _extra(k, name)
    return D, z, ex, kw


def _make(name):
    def c(k):
        lay = k.choice("layout", ["0", "1", "2"])
        shape = {"0": (), "1": ("n",), "2": ("n", "m")}[lay]
        shape = tuple(k.dim(d) for d in shape)
        D, z, ex, kw = _inputs(k, name, shape)
        fns = ["gf_z"] + (["hilbert_transform"] if name not in ("bethez", "box") else [])
        f = k.choice("function", fns)
        g = k.call(f"gftool.lattice.{name}.{f}", z, half_bandwidth=D, **kw)
        k.ensure_eq("closed form", g, lambda *i: lat.G[name](k, z[i], D.e, *ex), shape)
        k.frame()
    c.__name__ = f"c_{name}"
    c.__doc__ = f"{name}: G(z) is the closed form of the Hilbert transform, either half plane, any half bandwidth"
    return c


for _n in lat.NAMES:
    globals()[f"c_{_n}"] = _make(_n)


def _make_bz(name):
    def c(k):
        k.only_concrete()
        n = k.dim("n")
        D, z, ex, kw = _inputs(k, name, (n,))
        Df = float(D.e)
        k.assume_forall(lambda i: abs(float(k.im(z[i]))) >= Df / 24, n)
        g = k.call(f"gftool.lattice.{name}.gf_z", z, half_bandwidth=D, **kw)
        k.ensure_eq("average of 1/(z - eps_k)", g, lambda i: complex(lat.bz_gf(name, complex(z[i]), Df, *[float(e) for e in ex])), (n,), tol=1e-6)
    c.__name__ = f"c_bz_{name}"
    c.__doc__ = f"{name}: G(z) against an independent Brillouin-zone average (bounded)"
    c.concrete_runs = 0.4
    return c


for _n in lat.NAMES:
    globals()[f"c_bz_{_n}"] = _make_bz(_n)


def c_aliases(k):
    """the top level names are the lattice functions"""
    name = k.choice("lattice", ["bethe", "onedim", "square", "triangular", "honeycomb", "sc", "bcc", "fcc"])
    f = k.choice("function", ["gf_z", "hilbert_transform"])
    n = k.dim("n")
    D, z, ex, kw = _inputs(k, name, (n,))
    g = k.call(f"gftool.{name}_{f}", z, D)
    k.ensure_eq("closed form", g, lambda i: lat.G[name](k, z[i], D.e), (n,))


def _make_axis(name):
    def c(k):
        n = k.dim("n")
        D = k.real("half_bandwidth", pos=True, special=(1, 2), mag=2)
        ex, kw = _extra(k, name)
        kind = k.choice("dtype", ["float", "complex", "int"])
        x = k.real("z", (n,), kind="i" if kind == "int" else "f", mag=4)
        lo, hi = lat.band(name)
        lo, hi = k.frac(lo.numerator, lo.denominator) * D.e, k.frac(hi.numerator, hi.denominator) * D.e
        if not k.symbolic:      # keep a distance to the band edges, where the closed forms cancel
            lo, hi = lo - D.e / 64, hi + D.e / 64
        k.assume_forall(lambda i: k.or_(x[i] < lo, x[i] > hi), n)
        z = k.derived("zc", (n,), "c", lambda i: x[i] + 0 * k.I) if kind == "complex" else x
        g = k.call(f"gftool.lattice.{name}.gf_z", z, half_bandwidth=D, **kw)
        k.ensure_eq("closed form", g, lambda i: lat.G[name](k, z[i] + 0 * k.I, D.e, *ex), (n,), tol=1e-6)
        if not k.symbolic:
            k.assume(all(abs(float(x[i])) > 1.25 * float(D.e) * max(abs(lat.band(name)[0]), abs(lat.band(name)[1])) for i in range(int(n))))
            k.ensure_eq("average of 1/(z - eps_k)", g, lambda i: complex(lat.bz_gf(name, complex(z[i]), float(D.e), *[float(e) for e in ex])), (n,), tol=1e-6)
    c.__name__ = f"c_axis_{name}"
    c.__doc__ = f"{name}: G(z) on the real axis outside the band (real, integer, complex dtype)"
    c.concrete_runs = 0.3
    return c


for _n in lat.NAMES:
    globals()[f"c_axis_{_n}"] = _make_axis(_n)


def c_mp_sc(k):
    """multi-precision Green's function of the simple cubic lattice: closed form, in the precision of the mpmath context"""
    D = k.real("half_bandwidth", pos=True, special=(1, 2, 3), samp=(0.25, 4), layout=False)
    z = k.complex("z", (), im="nonzero")
    if k.symbolic:
        r = k.call("gftool.lattice.sc.gf_z_mp", z, half_bandwidth=D)
        k.ensure_eq("closed form", r, lambda: lat.G["sc"](k, z.e, D.e), ())
        return
    from mpmath import mp
    k.assume(abs(complex(z.e.v).imag) > 1e-3 and abs(complex(z.e.v)) < 50)
    D = int(k.int("D", 1, bounded=(1, 2, 3, 7))) if k.choice("D", ["int", "float"]) == "int" else float(D.e)
    with mp.workdps(60):
        zm = mp.mpc(complex(z.e.v)) / 7

        def g(z, D):
            x = 3 * z / mp.mpf(D)
            xi = mp.sqrt(1 - mp.sqrt(1 - 1 / x**2)) / mp.sqrt(1 + mp.sqrt(1 - 9 / x**2))
            d = (1 - xi)**3 * (1 + 3 * xi)
            return 3 / mp.mpf(D) * (1 - 9 * xi**4) * (2 * mp.ellipk(16 * xi**3 / d) / mp.pi)**2 / d / x
        want = g(zm, D)
    with mp.workdps(30):
        r = k.call("gftool.lattice.sc.gf_z_mp", zm, half_bandwidth=D)
    with mp.workdps(60):
        k.ensure("30 digits", bool(abs(r - want) <= mp.mpf(10)**-22 * (1 + abs(want))))
