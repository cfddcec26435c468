"""C20 chemical potential for given occupation"""
from types import SimpleNamespace


class Fct:
    """occupation error: monotonously increasing, zero at mu"""

    def __init__(self, kind, a, mu):
        self.kind, self.a, self.mu, self.log = kind, a, mu, []

    def __call__(self, x):
        import numpy as np
        self.log.append(float(x))
        y = (x - self.mu) / self.a
        if self.kind == "lin":
            return y
        if self.kind == "tanh":
            return 0.5 * np.tanh(y)
        if self.kind == "cubic":
            return y**3 + 0.125 * y
        if self.kind == "step":         # plateaus
            return np.clip(y, -0.25, 0.25)
        if self.kind == "const":        # no root
            return 0.5 + 0 * x
        raise AssertionError


def c_chemical_potential(k):
    """the root search gets a bracket with a change of sign, its root is returned; failure raises RuntimeError with the last mu"""
    if k.symbolic:
        mu0, step0 = k.real("mu0").e, k.real("step0", pos=True).e
        occ = k.ufun("occ", None, "f")
        conv = k.choice("converged", [True, False])
        state = {}

        def root_scalar(f, args=(), method=None, bracket=None, **kw):
            k.ensure("options handed on", method == "bisect" and kw == {"maxiter": 7})
            lo, hi = bracket
            fl, fh = f(lo), f(hi)
            k.ensure("bracket: change of sign", k.or_(k.and_(fl <= 0, fh >= 0), k.and_(fl >= 0, fh <= 0)))
            k.ensure("bracket: ordered", lo <= hi)
            r = k.real("root").e
            state["root"] = r
            if conv:
                k.assume(k.eq(f(r), 0))
            return SimpleNamespace(root=r, converged=conv, iterations=7, function_calls=9, flag="flag")
        k.hook("root_scalar", root_scalar)
        d = occ(mu0)
        step = lambda i: -step0 * d * k.pow(2, i)
        mu1 = lambda i: k.ite(k.eq(i, 0), lambda: mu0, lambda: mu0 + step(i - 1))
        k.need_loops()
        k.loop("gftool.density.chemical_potential",
               lambda i: {"mu1": ((), lambda: mu1(i)), "step": ((), lambda: step(i)), "loops": ((), lambda: i)},
               inv=lambda i: {"same side": k.or_(k.and_(occ(mu1(i)) > 0, d > 0), k.and_(occ(mu1(i)) < 0, d < 0))})
        ok, r = k.call_or(RuntimeError, "gftool.density.chemical_potential", occ, mu0, step0, method="bisect", maxiter=7)
        if not ok:
            if "root" in state:
                k.ensure("error only if not converged", not conv)
                k.ensure("error has the last mu", k.eq(r.mu, state["root"]))
            else:
                k.ensure("no bracket", not hasattr(r, "mu"))
                # the step was doubled often and there is still no change of sign
                n = k.iteration("gftool.density.chemical_potential")
                k.ensure("search interval", n >= 60)
                k.ensure("no change of sign", k.or_(k.and_(occ(mu0 + step(n)) > 0, d > 0), k.and_(occ(mu0 + step(n)) < 0, d < 0)))
            return
        k.ensure("root", k.eq(occ(r), 0))
        if "root" not in state:
            k.ensure("already root", k.eq(r, mu0))
        return
    import numpy as np
    kind = k.choice("fct", ["lin", "tanh", "cubic", "step", "const"])
    f = Fct(kind, float(k.real("a", lo=0.25, hi=4).e), float(k.real("mu", mag=8).e))
    mu0, step0 = float(k.real("mu0", mag=8).e), float(k.real("step0", lo=0.01, hi=10).e)
    at = k.choice("start", ["any", "far", "root"])
    if at == "far":                     # many doublings of the step are necessary
        f = Fct(kind, f.a, f.mu * 1e5) if hasattr(f, "a") else f
        step0 *= 1e-7
    if at == "root":
        mu0 = f.mu
    how = k.choice("options", ["none", "method", "few"])
    kw = {"none": {}, "method": dict(method="bisect", xtol=1e-10), "few": dict(method="bisect", maxiter=2, xtol=1e-13)}[how]
    ok, mu = k.call_or(RuntimeError, "gftool.density.chemical_potential", f, mu0, step0, **kw)
    if how == "few" and kind != "const" and at != "root" and not (ok and f(mu) == 0):
        # two bisections do not reach the tolerance
        k.ensure("options reach the search", not ok and hasattr(mu, "mu"))
    if not ok:
        if kind == "const":
            k.ensure("no bracket", not hasattr(mu, "mu"))
            k.ensure("search on the side of lower mu", max(f.log) <= mu0)
        else:
            # far away the root search may need more than its default number of iterations
            k.ensure("error only if not converged", how == "few" or (at == "far" and hasattr(mu, "mu")))
            k.ensure("error has the last mu", min(f.log) - 1e-6 <= getattr(mu, "mu", np.nan) <= max(f.log) + 1e-6)
        return
    k.ensure("no bracket: RuntimeError", kind != "const")
    k.ensure("error if not converged", how != "few" or abs(mu - f.mu) < 1e-9)
    k.ensure("root", abs(mu - f.mu) < 1e-7)
    if at == "root":
        k.ensure("already root", mu == mu0 and len(f.log) == 1)
    else:
        k.ensure("evaluated around the root", min(f.log) <= f.mu + 1e-9 and max(f.log) >= f.mu - 1e-9)




def c_decreasing(k):
    """a bracket handed on always encloses a root, also for functions without the expected monotony"""
    if k.symbolic:
        k.only_concrete()
    import numpy as np
    c = float(k.real("c", lo=1, hi=5).e)
    s = k.choice("shape", ["sin", "late"])
    f = {"sin": lambda x: np.sin(c * x) + 0.3, "late": lambda x: -1.0 if x < 40 * c else 1.0}[s]
    mu0 = float(k.real("mu0", mag=2).e)
    mu = k.call("gftool.density.chemical_potential", f, mu0, float(k.real("step0", lo=0.05, hi=1).e))
    k.ensure("root", bool(abs(f(mu)) < 1e-6 or f(mu - 1e-6) * f(mu + 1e-6) <= 0))
