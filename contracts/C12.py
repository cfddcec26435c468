"""C12 moments of the densities of states"""
from contracts import lat

MOM = ["bethe", "box", "onedim", "square", "lieb", "triangular", "honeycomb", "kagome", "sc", "bcc", "fcc"]


def _make(name):
    def c(k):
        m = k.choice("m", list(range(0, 25)))
        D = k.real("half_bandwidth", pos=True, special=(1, 2), mag=2)
        ok = True
        try:
            unit = k.fn(f"gftool.lattice.{name}.dos_moment")(m, half_bandwidth=1.0)
        except NotImplementedError:
            ok = False
        if not ok:
            # not tabulated: must stay an error for every half bandwidth; orders 1..20 are provided
            k.ensure("orders 1 to 20 are implemented", k.not_(k.eq(1 if 1 <= m <= 20 else 0, 1)))
            k.call_raises(NotImplementedError, True, f"gftool.lattice.{name}.dos_moment", m, half_bandwidth=D)
            return
        r = k.call(f"gftool.lattice.{name}.dos_moment", m, half_bandwidth=D)
        u = k.as_array(unit)
        e = lat.moment(name, m)
        val = k.out(unit).e
        ex = k.frac(e.numerator, e.denominator)
        k.ensure("exact moment", k.abs(val - ex) <= (k.abs(ex) * k.frac(1, 10**13) if e else k.frac(0)))
        k.ensure_eq("scales as D^m", r, lambda: val * D**m if m else val * 1, ())
    c.__name__ = f"c_{name}"
    c.__doc__ = f"{name}: moments equal the exact lattice-walk counts times D^m"
    c.concrete_runs = 1.2
    return c


for _n in MOM:
    globals()[f"c_{_n}"] = _make(_n)


def c_aliases(k):
    """the top level names are the lattice functions"""
    name = k.choice("lattice", ["bethe", "onedim", "square", "triangular", "honeycomb", "sc", "bcc", "fcc"])
    m = k.choice("m", [1, 2, 3, 4, 7, 8, 19, 20])
    D = k.real("half_bandwidth", pos=True, special=(1, 2), mag=2)
    val = k.out(k.fn(f"gftool.{name}_dos_moment")(m, 1.0)).e
    e = lat.moment(name, m)
    ex = k.frac(e.numerator, e.denominator)
    k.ensure("exact moment", k.abs(val - ex) <= k.abs(ex) * k.frac(1, 10**13))
    r = k.call(f"gftool.{name}_dos_moment", m, D)
    k.ensure_eq("scales as D^m", r, lambda: val * D**m, ())
