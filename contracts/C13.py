"""C13 symmetries of lattice Green's functions: scaling, conjugation, particle-hole"""
from contracts import lat
from contracts.C09 import _inputs

BIPARTITE = ["bethe", "bethez", "box", "onedim", "square", "rectangular", "lieb", "honeycomb", "sc", "bcc"]


def _make(name):
    def c_scale(k):
        n = k.dim("n")
        D, z, ex, kw = _inputs(k, name, (n,))
        u = k.real("unit", pos=True, special=(2, 0.5), mag=2)
        z2 = k.derived("z2", (n,), "c", lambda i: u * z[i])
        D2 = k.derived("D2", (), "f", lambda: u * D)
        g = k.out(k.call(f"gftool.lattice.{name}.gf_z", z, half_bandwidth=D, **kw))
        r = k.call(f"gftool.lattice.{name}.gf_z", z2, half_bandwidth=D2, **kw)
        k.ensure_eq("G_{uD}(uz) = G_D(z)/u", r, lambda i: g[i] / u, (n,))

    def c_conj(k):
        n = k.dim("n")
        D, z, ex, kw = _inputs(k, name, (n,))
        z2 = k.derived("z2", (n,), "c", lambda i: k.conj(z[i]))
        g = k.out(k.call(f"gftool.lattice.{name}.gf_z", z, half_bandwidth=D, **kw))
        r = k.call(f"gftool.lattice.{name}.gf_z", z2, half_bandwidth=D, **kw)
        k.ensure_eq("G(z*) = G(z)*", r, lambda i: k.conj(g[i]), (n,))
        k.ensure("Im G has the sign of -Im z", lambda i: k.im(g[i]) * k.im(z[i]) < 0, n)

    def c_ph(k):
        n = k.dim("n")
        D, z, ex, kw = _inputs(k, name, (n,))
        z2 = k.derived("z2", (n,), "c", lambda i: -z[i])
        g = k.out(k.call(f"gftool.lattice.{name}.gf_z", z, half_bandwidth=D, **kw))
        r = k.call(f"gftool.lattice.{name}.gf_z", z2, half_bandwidth=D, **kw)
        k.ensure_eq("G(-z) = -G(z)", r, lambda i: -g[i], (n,))
        e = k.real("eps", (n,), mag=1)
        d1 = k.out(k.call(f"gftool.lattice.{name}.dos", e, half_bandwidth=D, **kw))
        e2 = k.derived("eps2", (n,), "f", lambda i: -e[i])
        d2 = k.call(f"gftool.lattice.{name}.dos", e2, half_bandwidth=D, **kw)
        k.ensure_eq("dos(-eps) = dos(eps)", d2, lambda i: d1[i], (n,))
    c_scale.__doc__ = f"{name}: energy scaling"
    c_conj.__doc__ = f"{name}: reflection at the real axis and causality"
    c_ph.__doc__ = f"{name}: particle-hole symmetry"
    for f in (c_scale, c_conj, c_ph):
        f.concrete_runs = 0.6
        f.__name__ = f"{f.__name__}_{name}"
        if f is not c_ph or name in BIPARTITE:
            globals()[f.__name__] = f


for _n in lat.NAMES:
    _make(_n)
