"""C11 inverse and derivatives of lattice Green's functions, real-time functions, stress tensor transform"""
from contracts import lat


def _zd(k, shape, im="nonzero"):
    D = k.real("half_bandwidth", pos=True, special=(1, 2), mag=2)
    return D, k.complex("z", shape, im=im)


def _zd_axis(k, shape):
    """the complex plane off the real axis, or the real axis outside the band"""
    if k.choice("domain", ["plane", "axis"]) == "plane":
        return _zd(k, shape)
    D = k.real("half_bandwidth", pos=True, special=(1, 2), mag=2)
    z = k.real("z", shape, mag=4, special=(1.5, -1.5))
    f = 1 if k.symbolic else k.frac(33, 32)
    k.assume_forall(lambda *i: k.or_(z[i] > f * D.e, z[i] < -f * D.e), *shape) if shape else k.assume(k.or_(z.e > f * D.e, z.e < -f * D.e))
    return D, z


def _shape(k):
    lay = k.choice("layout", ["0", "1", "2"])
    return tuple(k.dim(d) for d in {"0": (), "1": ("n",), "2": ("n", "m")}[lay])


def c_inverse(k):
    """bethe: gf_z_inv(gf_z(z)) = z"""
    shape = _shape(k)
    D, z = _zd_axis(k, shape)
    g = k.call("gftool.lattice.bethe.gf_z", z, half_bandwidth=D)
    r = k.call("gftool.lattice.bethe.gf_z_inv", g, half_bandwidth=D)
    k.ensure_eq("inverse", r, lambda *i: z[i], shape, tol=1e-6)
    k.frame()


def c_inverse_formula(k):
    """bethe: gf_z_inv(g) = (D/2)^2 g + 1/g"""
    shape = _shape(k)
    D = k.real("half_bandwidth", pos=True, special=(1, 2), mag=2)
    g = k.complex("gf", shape, im="nonzero")
    r = k.call("gftool.lattice.bethe.gf_z_inv", g, half_bandwidth=D)
    k.ensure_eq("z", r, lambda *i: D**2 / 4 * g[i] + 1 / g[i], shape)
    k.frame()


def c_roundtrip_gf(k):
    """bethe: the physical Green's function solves z = (D/2)^2 g + 1/g"""
    shape = _shape(k)
    D, z = _zd_axis(k, shape)
    g = k.out(k.call("gftool.lattice.bethe.gf_z", z, half_bandwidth=D))
    k.ensure("self-consistency", lambda *i: k.eq(D**2 / 4 * g[i]**2 - z[i] * g[i] + 1, 0), *shape)


def c_derivatives(k):
    """bethe: gf_d1_z and gf_d2_z are the first and second derivative of gf_z:
    from z = (D/2)^2 g + 1/g follow g' = 1/((D/2)^2 - 1/g^2) and g'' = -2 g'^3/g^3"""
    shape = _shape(k)
    D, z = _zd_axis(k, shape)
    which = k.choice("order", [1, 2])
    api = k.choice("api", ["gftool.lattice.bethe.gf_d%d_z", "gftool.bethe_gf_d%d_z"])
    r = k.call(api % which, z, half_bandwidth=D)
    x = lambda i: D / z[i]
    if which == 1:
        k.ensure_eq("dG/dz", r, lambda *i: 2 / D**2 * (1 - 1 / k.sqrt(1 - x(i)**2)), shape, tol=1e-6)
    else:
        k.ensure_eq("d2G/dz2", r, lambda *i: 2 / z[i]**3 / (k.sqrt(1 - x(i)**2) * (1 - x(i)**2)), shape, tol=1e-6)
    k.frame()


def c_derivatives_numeric(k):
    """the derivatives against differentiation of the closed form (bounded)"""
    k.only_concrete()
    import mpmath
    D, z = _zd(k, (k.dim("n"),))
    which = k.choice("order", [1, 2])
    r = k.call("gftool.lattice.bethe.gf_d%d_z" % which, z, half_bandwidth=D)
    f = lambda x: lat.g_bethe(k, k.out(0).e + x, D.e).v
    k.ensure_eq("derivative", r, lambda i: mpmath.diff(lambda x: (lat.g_bethe(k, z[i] + x, D.e)).v, 0, which, h=1e-8), z.shape, tol=1e-5)


def c_stress(k):
    """square: stress tensor transform T(z) = -(z G(z) - 1)/2"""
    shape = _shape(k)
    D, z = _zd_axis(k, shape)
    r = k.call("gftool.lattice.square.stress_trafo", z, half_bandwidth=D)
    k.ensure_eq("T(z)", r, lambda *i: -(z[i] * lat.g_square(k, z[i], D.e) - 1) / 2, shape)
    k.frame()


def _ret(k, name, f):
    """the unit of `center` is the one the test suite fixes: half_bandwidth (see DESIGN.md)"""
    shape = _shape(k)
    case = k.choice("center", ["none", "scalar", "array"])
    D = k.real("half_bandwidth", pos=True, special=(1, 2), mag=2)
    t = k.real("tt", shape, special=(0, 0.5, -0.5), mag=4)
    cs = {"none": (), "scalar": (), "array": (k.dim("c"),) + (1,) * len(shape)}[case]
    c = k.real("center", cs, mag=2, special=(0,), layout="array" if case == "array" else None) if case != "none" else None
    if case == "array":     # only zeros: the code returns the result without the axes of `center`
        k.assume(k.exists(lambda i: k.not_(k.eq(c[(i,) + (0,) * len(shape)], 0)), cs[0]))
    # the series around t = 0 is compared numerically only
    if k.symbolic:
        k.assume_forall(lambda *i: k.or_(t[i] < 0, D * t[i] >= k.frac(1, 8)), *shape)
    args = dict(half_bandwidth=D)
    if c is not None:
        args["center"] = c
    r = k.call(f"gftool.lattice.{name}.gf_ret_t", t, **args)
    full = shape if case != "array" else cs[:1] + shape

    def spec(*i):
        j = i[-len(shape):] if shape else ()
        x = D * t[j]
        v = k.ite(t[j] < 0, 0, lambda: k.ite(k.eq(t[j], 0), lambda: -k.I, lambda: f(x)))
        if c is None:
            return v
        ci = c[i[:1] + (0,) * len(shape)] if case == "array" else c
        return v * k.exp(-k.I * ci * D * t[j])
    k.ensure_eq("G(t)", r, spec, full)
    k.frame()


def c_ret_bethe(k):
    """bethe: G(t) = -2i J_1(Dt)/(Dt) for t >= 0, 0 for t < 0"""
    _ret(k, "bethe", lambda x: -2 * k.I * k.jv(1, x) / x)


def c_ret_box(k):
    """box: G(t) = -i sin(Dt)/(Dt) for t >= 0, 0 for t < 0"""
    _ret(k, "box", lambda x: -k.I * k.sin(x) / x)


def c_ret_small(k):
    """the series around t=0 continues the closed form (bounded)"""
    k.only_concrete()
    n = k.dim("n")
    D = k.real("half_bandwidth", pos=True, samp=(0.25, 4))
    x = k.real("x", (n,), lo=0, hi=1, special=(0, 1))
    s = k.choice("size", [1e-6, 1e-4, 3e-4, 1e-3])
    t = k.derived("tt", (n,), "f", lambda i: x[i] * s)
    name = k.choice("lattice", ["bethe", "box"])
    r = k.call(f"gftool.lattice.{name}.gf_ret_t", t, half_bandwidth=D)
    f = (lambda y: -2 * k.I * k.jv(1, y) / y) if name == "bethe" else (lambda y: -k.I * k.sin(y) / y)
    k.ensure_eq("G(t)", r, lambda i: k.ite(k.eq(t[i], 0), lambda: -k.I, lambda: f(D * t[i])), (n,), tol=1e-9)


def c_precision(k):
    """bethe: extended precision arguments give extended precision results, double ones double (bounded)"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    from mpmath import mp
    from contracts.C17 import _dist, _quad
    f = k.choice("function", ["gf_z", "gf_d1_z", "gf_d2_z", "hilbert_transform"])
    z, zm = _quad(k, "z", (3,), im="nonzero")
    D = k.choice("half_bandwidth", [1, 2, 0.5])
    k.assume(bool(np.all(abs(z.imag) > 0.1) and np.all(abs(z) < 8)))
    r = k.call("gftool.lattice.bethe." + f, z, half_bandwidth=D)

    def spec(z):
        s = mp.sqrt(1 - (D / z)**2)
        return 2 / z / (1 + s) if f in ("gf_z", "hilbert_transform") else mp.mpf(2) / D**2 * (1 - 1 / s) if f == "gf_d1_z" else 2 / z**3 / s**3
    with mp.workdps(40):
        k.ensure("extended precision kept", r.dtype == np.clongdouble and _dist(r, [spec(w) for w in zm]) < 1e-15 * 2**-5)
    d = k.call("gftool.lattice.bethe." + f, z.astype(complex), half_bandwidth=D)
    k.ensure("double precision kept", d.dtype == complex)


c_precision.concrete_runs = 0.3
