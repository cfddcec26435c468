"""C10 densities of states"""
from contracts import lat
from contracts.C09 import _extra

HAS_MP = ["bethe", "onedim", "square", "lieb", "triangular", "honeycomb", "kagome", "sc", "bcc", "fcc"]


def _edges(k, name, D, ex):
    lo, hi = lat.band(name)
    return lo * D, hi * D


def _regular(k, name, e, D, ex):
    """neither a band edge nor a van Hove singularity"""
    pts = list(lat.band(name)) + list(lat.SINGULAR.get(name, ()))
    cs = [k.not_(k.eq(e, k.frac(p.numerator, p.denominator) * D)) for p in pts]
    if name == "rectangular":
        d = D * (ex[0] - 1) / (ex[0] + 1)
        cs += [k.not_(k.eq(e, d)), k.not_(k.eq(e, -d))]
    return k.and_(*cs)


def _spec(k, name, e, D, ex):
    lo, hi = lat.band(name)
    inside = k.and_(k.frac(lo.numerator, lo.denominator) * D < e, e < k.frac(hi.numerator, hi.denominator) * D)
    return k.ite(inside, lambda: lat.DOS[name](k, e, D, *ex), 0)


def _eps(k, name, shape):
    sp = [float(p) for p in list(lat.band(name)) + list(lat.SINGULAR.get(name, ()))] + [0.25, -0.25, 0.5, -0.5]
    return k.real("eps", shape, special=sp, mag=1.5)


def _make(name):
    def c(k):
        lay = k.choice("layout", ["0", "1", "2"])
        shape = tuple(k.dim(d) for d in {"0": (), "1": ("n",), "2": ("n", "m")}[lay])
        D = k.real("half_bandwidth", pos=True, special=(1, 2, 0.5), mag=2)
        ex, kw = _extra(k, name)
        e = _eps(k, name, shape)
        k.assume_forall(lambda *i: _regular(k, name, e[i], D.e, ex), *shape)
        if name == "sc":
            k.assume_forall(lambda *i: k.abs(e[i]) >= D / 4096, *shape)
        r = k.call(f"gftool.lattice.{name}.dos", e, half_bandwidth=D, **kw)
        k.ensure_eq("density of states", r, lambda *i: _spec(k, name, e[i], D.e, ex), shape)
        k.ensure_real_dtype("real", r)
        k.frame()
    c.__name__ = f"c_{name}"
    c.__doc__ = f"{name}: closed form of the DOS inside the band, 0 outside"
    return c


for _n in lat.NAMES:
    globals()[f"c_{_n}"] = _make(_n)


def _make_mp(name):
    def c(k):
        D = k.real("half_bandwidth", pos=True, special=(1, 2, 0.5), mag=2, layout=False)
        e = k.real("eps", (), special=[float(p) for p in lat.band(name)] + [0.25, -0.25, 0.5, -0.5], mag=1.5, layout=False)
        k.assume(_regular(k, name, e.e, D.e, ()))
        if name == "sc":
            k.assume(k.abs(e.e) >= k.frac(1, 64))
        r = k.call(f"gftool.lattice.{name}.dos_mp", e, half_bandwidth=D)
        k.ensure_eq("density of states", r, lambda: _spec(k, name, e.e, D.e, ()), ())
    c.__name__ = f"c_mp_{name}"
    c.__doc__ = f"{name}: multi-precision DOS"
    return c


for _n in HAS_MP:
    globals()[f"c_mp_{_n}"] = _make_mp(_n)


def _make_im(name):
    def c(k):
        k.only_concrete()
        n = k.dim("n")
        integer = k.choice("dtype", ["float", "int"]) == "int"
        D = k.real("half_bandwidth", pos=True, samp=(0.25, 4), special=(1, 2, 0.5, 3))
        ex, kw = _extra(k, name)
        if integer:
            e = k.real("eps", (n,), kind="i", lo=-4, hi=4)
        else:
            x = _eps(k, name, (n,))
            e = k.derived("eps2", (n,), "f", lambda i: x[i] * D)
        Df = float(D.e)
        pts = [float(p) * Df for p in list(lat.band(name)) + list(lat.SINGULAR.get(name, ()))]
        if name == "rectangular":
            d = Df * abs(float(ex[0]) - 1) / (float(ex[0]) + 1)
            pts += [d, -d]
        k.assume_forall(lambda i: all(abs(float(e[i]) - p) > 1e-4 * Df for p in pts), n)
        r = k.call(f"gftool.lattice.{name}.dos", e, half_bandwidth=D, **kw)

        def spec(i):
            v = -k.im(lat.G[name](k, e[i] + k.I * D * 1e-18, D.e, *ex)) / k.pi
            if name == "kagome":        # the flat band is not part of dos
                v = v + k.im(1 / (3 * (e[i] + k.I * D * 1e-18) + 2 * D)) / k.pi
            if name == "lieb":
                v = v + k.im(1 / (3 * (e[i] + k.I * D * 1e-18))) / k.pi
            return v
        k.ensure_eq("-Im G(eps + i0)/pi", r, spec, (n,), tol=1e-6, atol=1e-7)
        k.ensure("not negative", lambda i: k.out(r)[i] >= 0, n)
    c.__name__ = f"c_im_{name}"
    c.__doc__ = f"{name}: DOS = -Im G(eps + i0)/pi, never negative, integer and float input (bounded)"
    return c


for _n in lat.NAMES:
    globals()[f"c_im_{_n}"] = _make_im(_n)


def c_aliases(k):
    """the top level names are the lattice functions"""
    name = k.choice("lattice", ["bethe", "onedim", "square", "triangular", "honeycomb", "sc", "bcc", "fcc"])
    n = k.dim("n")
    D = k.real("half_bandwidth", pos=True, mag=2)
    e = _eps(k, name, (n,))
    k.assume_forall(lambda i: k.and_(_regular(k, name, e[i], D.e, ()), k.abs(e[i]) >= D / 4096), n)
    r = k.call(f"gftool.{name}_dos", e, D)
    k.ensure_eq("density of states", r, lambda i: _spec(k, name, e[i], D.e, ()), (n,))


def c_sc_small(k):
    """sc: the expansion around eps = 0 continues the closed form (bounded)"""
    k.only_concrete()
    n = k.dim("n")
    D = k.real("half_bandwidth", pos=True, samp=(0.25, 4), special=(1, 2, 0.5, 3))
    x = k.real("x", (n,), lo=-1, hi=1, special=(0,))
    s = k.choice("size", [1e-6, 4e-5, 2e-4])
    e = k.derived("eps", (n,), "f", lambda i: x[i] * D * s)
    k.assume_forall(lambda i: not float(e[i]) == 0 or True, n)
    r = k.call("gftool.lattice.sc.dos", e, half_bandwidth=D)
    k.ensure_eq("-Im G(eps + i0)/pi", r, lambda i: -k.im(lat.g_sc(k, k.abs(e[i]) + D * 1e-9 + k.I * D * 1e-12, D.e)) / k.pi, (n,), tol=1e-6)


def _make_edges(name, Z2=False):
    def c(k):
        k.only_concrete()
        D = k.real("half_bandwidth", pos=True, samp=(0.25, 4), special=(1, 2, 0.5, 3), layout=False)
        if Z2:                          # two neighbours: the one-dimensional chain, which diverges at its edges
            ex, kw = (k.frac(2),), dict(coordination=2)
        else:
            ex, kw = _extra(k, name)
            if name == "bethez":
                k.assume(not float(ex[0]) == 2)
        Df = float(D.e)
        edges = [float(p) for p in lat.band(name)]
        pts = edges + [float(p) for p in lat.SINGULAR.get(name, ())]
        if name == "rectangular":
            d = abs(float(ex[0]) - 1) / (float(ex[0]) + 1)
            pts += [d, -d]
        n = len(pts)
        e = k.derived("eps", (n,), "f", lambda i: pts[i] * Df)
        v = k.out(k.call(f"gftool.lattice.{name}.dos", e, half_bandwidth=D, **kw))

        def at(x):
            return float(_spec(k, name, k.frac(x), D.e, ex)) * Df

        def ok(i):
            r = float(v[i]) * Df
            if not r >= 0:              # also nan
                return False
            side = [1, -1] if pts[i] not in edges else [1] if pts[i] == min(edges) else [-1]
            far, near = max(at(float(e[i]) + s * 1e-3 * Df) for s in side), max(at(float(e[i]) + s * 1e-8 * Df) for s in side)
            if near > 1.3 * far:
                return r >= far or (pts[i] in edges and r == 0)
            # band edges +-D at which the DOS jumps: exactly representable, the value is the one from inside as in dos_mp
            jump = name in ("square", "lieb", "honeycomb", "rectangular")
            return abs(r - near) < 0.05 or (pts[i] in edges and r == 0 and not jump)
        k.ensure("limit of the DOS, never nan", ok, n)
    c.__name__ = f"c_edge_{name}{'_2' if Z2 else ''}"
    c.__doc__ = f"{name}: at band edges and van Hove points the DOS is its limit (edges: or 0), never nan (bounded)"
    c.concrete_runs = 0.3
    return c


for _n in lat.NAMES:
    globals()[f"c_edge_{_n}"] = _make_edges(_n)


c_edge_bethez_2 = _make_edges("bethez", True)


def c_mp_digits(k):
    """the multi-precision functions have the precision of the mpmath context, also next to the centre of the band (bounded)"""
    k.only_concrete()
    from mpmath import mp
    name = k.choice("lattice", HAS_MP)
    D = k.real("half_bandwidth", pos=True, samp=(0.25, 4), special=(1, 2, 0.5, 3, 7), layout=False)
    e = k.real("x", (), lo=-1.5, hi=1.5, layout=False)
    s = k.choice("size", [1, 1e-3, 3e-6, 1e-7])
    with mp.workdps(40):
        k.pi, pi = k.frac(1) * 0 + +mp.pi, k.pi
        try:
            Dm = mp.mpf(float(D.e))
            em = mp.mpf(float(e.e)) * s * Dm
            V = lambda v: k.frac(1) * 0 + v
            pts = list(lat.band(name)) + list(lat.SINGULAR.get(name, ()))
            k.assume(all(abs(em / Dm - mp.mpf(p.numerator) / p.denominator) > (1e-4 if name != "sc" or p else 1e-10) for p in pts))
            want = _spec(k, name, V(em), V(Dm), ())
            want = getattr(want, "v", want)
        finally:
            k.pi = pi
    # any number is accepted as half bandwidth
    Da = {"mpf": Dm, "float": float(D.e), "int": int(D.e) if float(D.e) == int(D.e) else float(D.e)}[k.choice("D", ["mpf", "float", "int"])]
    with mp.workdps(25):
        r = k.fn(f"gftool.lattice.{name}.dos_mp")(em, half_bandwidth=Da)
    with mp.workdps(40):
        k.ensure("25 digits", bool(abs(r - want) <= mp.mpf("1e-19") * (1 + abs(want))))


c_mp_digits.concrete_runs = 0.5
