#!/usr/bin/env python3
"""Self-test of the verifier (run by setup_cmd, python3-vt):
 1. the symbolic models of numpy (dv/arr.py, dv/snp.py, dv/ext.py) against the real numpy: every snippet is executed on arrays of *symbolic* shape with
    uninterpreted entries, the resulting terms are evaluated at random points and compared with numpy (shape, kind of dtype, values, modified arguments);
    a branch on symbolic values takes the side of the point;
 2. obligations that are false must not be discharged."""
import os
import random
import sys
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import numpy as np
import mpmath
import scipy.linalg
import scipy.special
from dv import loader, term as tm, kit
from dv.arr import SArr, Buf, asarr, Unsupported, dim_term
from dv.evalt import Env, ev
from dv.term import T, TRUE, FALSE, not_, fn
warnings.simplefilter("ignore")

SHIMS = loader.build_shims()
LD = loader.Loader()


class Concolic(kit.World):
    env = None

    def branch(self, c, why=None):
        if c is TRUE or c is FALSE:
            return c is TRUE
        r = self.ctx.cond(c)
        v = bool(ev(c, self.env))
        if r is not None:
            assert r == v, f"the verifier decides {tm.show(c)} as {r}, at the point it is {v}"
            return r
        self.ctx.assume(c if v else not_(c))
        return v


def value(t, env):
    v = ev(t, env) if isinstance(t, T) else t
    return v


def conv(r, env):
    """symbolic result -> numpy"""
    import itertools
    if isinstance(r, (tuple, list)):
        return type(r)(conv(x, env) for x in r) if type(r) in (tuple, list) else tuple(conv(x, env) for x in r)
    if isinstance(r, T):
        r = asarr(r)
    if isinstance(r, SArr):
        sh = tuple(int(ev(dim_term(d), env)) for d in r.sh)
        out = np.empty(sh, dtype={"b": bool, "i": int, "f": float, "c": complex}[r.kind])
        g = r.getter()
        for i in itertools.product(*map(range, sh)):
            v = ev(g(tuple(tm.num(j) for j in i)), env)
            out[i] = complex(v) if r.kind == "c" else (float(v) if r.kind == "f" else v)
        return out
    return r


def mk(name, shape, kind, w, val):
    """symbolic array with the value `val`"""
    s = {"b": "B", "i": "I", "f": "R", "c": "C"}[kind]
    w.interp[name] = lambda env, idx: (lambda x: mpmath.mpc(x) if kind == "c" else mpmath.mpf(float(x)) if kind == "f" else (bool(x) if kind == "b" else int(x)))(val[tuple(int(j) for j in idx)])
    return SArr(Buf(lambda idx: tm.app(name, tuple(idx), s), kind), shape)


SNIPPETS = """
a + b; a * d; a - 2; 2 / z; a ** 2; z ** 3; a // 1; -a; abs(z); ~m; m & (a > 0); m | (a > b); i % 3; i // 2; a @ d.T; d @ d.T; z @ z.T; i + a; i * 2; i / 2; i ** 2; m * a; m + i; 1j * a; z.real; z.imag; z.conj()
np.exp(a); np.exp(z); np.sin(a); np.cos(z); np.tanh(a); np.sqrt(abs(a)); np.sqrt(z); np.log(abs(a)); np.log(z); np.abs(z); np.sign(a); np.conj(z); np.angle(z); np.expm1(a); np.log1p(abs(a)); np.reciprocal(z); np.square(z); np.hypot(a, b); np.arctan(a); np.arcsin(a/9); np.lib.scimath.sqrt(z); np.lib.scimath.log(z)
np.sum(d); np.sum(d, axis=0); np.sum(d, axis=-1, keepdims=True); d.sum(axis=(0, 1)); np.prod(d, axis=-1); np.mean(d, axis=0); np.max(d, axis=-1); np.min(d); np.any(m); np.all(m); np.any(d > 0, axis=0); np.all(d > 0, axis=-1); np.cumsum(a); np.var(d, axis=-1); np.std(z); np.average(a, weights=abs(b)); np.trace(d @ d.T); m.sum(); i.sum(); i.mean(); np.count_nonzero(m)
a[1:]; a[:-1]; a[::-1]; a[::2]; a[1::2]; a[::-2]; a[2::2]; a[:-1:2]; d[..., ::3]; a[::2][::2]; a[1:-1][::-1]; a[:n - 1]; a[n - 2:]; a[n:]; a[-n:]; d[1, 1:]; d[::-1, ::-1]; a[-1]; d[..., 0]; d[0]; d[:, 1]; d[..., np.newaxis]; d[np.newaxis]; d.T; d[:, ::-1]; a[-2:]; d[1:, :-1]; a[i % 2]; d[0, i % 2]; a[np.array([0, 1])]; d[:, [1, 0]]
np.where(m, a, b); np.where(a > 0, a, z); np.where(m, 0, i); np.clip(a, -0.5, 0.5); np.minimum(a, b); np.maximum(a, 0); np.nan_to_num(a); np.select([a > 1, a > 0], [a, b], 0); np.piecewise(a, [a > 0], [np.exp, 0.0])
np.concatenate((a, b)); np.concatenate([d, d], axis=-1); np.stack([a, b]); np.stack([a, b], axis=-1); np.append(a, b); np.hstack([d, z]); np.vstack([a, b]); np.diag(a); np.diag(d @ d.T); np.diagonal(d @ d.T, axis1=-2, axis2=-1); np.eye(3); np.eye(n); np.eye(n, k=-1); np.tri(n); np.tril(d @ d.T); np.triu(d @ d.T, 1); np.flip(a); np.roll(a, 1); np.moveaxis(d, 0, -1); np.swapaxes(d, 0, 1); np.transpose(d); np.expand_dims(d, -1); np.squeeze(d[..., np.newaxis], -1); np.broadcast_to(a, (2, n)); np.tile(a, 2); np.repeat(a, 2); np.atleast_1d(s); np.atleast_2d(a)
np.zeros(n); np.ones((2, n)); np.full(n, 3); np.zeros_like(z); np.ones_like(i); np.empty_like(a).shape; np.arange(n); np.arange(1, n + 1); np.arange(n)[::-1]; np.linspace(0, 1, n); np.linspace(0, 2, num=n, endpoint=False); np.linspace(a[0], b[0], 5)
np.add.outer(a, b); np.subtract.outer(a, z); np.outer(a, z); np.dot(a, b); np.inner(a, b); np.vdot(z[0], z[0]); np.einsum("i,i->", a, b); np.einsum("ij,j->i", d, d[0]); np.einsum("ij,ij->i", d, d); np.einsum("ij,kj->ik", d, z @ z.T @ d); np.einsum("...j,...j->...", d, d); np.tensordot(d, d, axes=([1], [1])); np.matmul(d, d.T); np.kron(a, b); np.trapezoid(a, x=b); np.trapezoid(d); np.trapezoid(a, dx=s); np.diff(a); np.diff(d, axis=0); np.vander(a, 3); np.polynomial.polynomial.polyvander(a, deg=2); np.polynomial.polynomial.polyval(a, b)
np.fft.hfft(z[0]); np.fft.ihfft(a); np.fft.fft(z[0]); np.fft.ifft(z[0]); np.fft.rfft(a); np.linalg.norm(a); np.linalg.norm(z, axis=-1); np.linalg.norm(z, axis=-1, keepdims=True); np.iscomplexobj(z); np.isrealobj(a); np.result_type(a, z); np.shape(d); d.shape; d.ndim; d.size; np.isclose(a, a); np.allclose(a, a); np.array_equal(a, a); np.isnan(a); np.isfinite(a); np.argmax(a); np.argsort(a); np.sort(a); np.searchsorted(np.sort(a), 0.0); np.median(a); np.real_if_close(z)
a.astype(complex); i.astype(float); m.astype(int); z.real.astype(float); a.copy(); d.reshape(-1); d.ravel(); d.reshape((n, 3))[1]; np.reshape(d, (3, n)); np.array([1, 2.5]); np.array([[1, 2], [3, 4]]); np.array([a[0], z[0, 0]]); np.asarray(a); np.asanyarray(s); np.array(i, dtype=float)
"""
PROGRAMS = """
def f(np, a): a[1:] += 1; return a
def f(np, a): a[::-1][0] = 7; return a
def f(np, a): b = a[1:]; b *= 2; return a
def f(np, a): b = a.copy(); b[0] = 5; return a, b
def f(np, d): d[0] = d[1]; return d
def f(np, d): d[..., 0] -= 3; return d
def f(np, d): d.T[0] = 1; return d
def f(np, d, m): d[:, 0][d[:, 0] > 0] = -1; return d
def f(np, a, m): a[m] = 0; return a
def f(np, a, b, m): a[m] = b[m]; return a
def f(np, a, b): np.add(a, b, out=a); return a
def f(np, a, m): return np.exp(a, where=m, out=np.zeros_like(a))
def f(np, a): np.multiply(a, 2, out=a[...]); return a
def f(np, i): i += 2; return i
def f(np, i): i[0] = 3.7; return i
def f(np, d): np.fill_diagonal(d, 2); return d
def f(np, a): a[:-1] = a[1:]; return a
def f(np, a): a[1:] = a[:-1]; return a
def f(np, a): a += a[::-1]; return a
def f(np, n): x = np.zeros((n, n)); x[np.arange(n), np.arange(n)] = 1; return x
def f(np, n): x = np.zeros((n, n), dtype=complex); x[1:, :-1] += 1j; return x
def f(np, a, z): x = np.empty(z.shape, dtype=z.dtype); x[...] = a; x[0] = z[1]; return x
def f(np, z): x = np.zeros_like(z); x.real = z.imag; x.imag[0] = 4; return x
def f(np, z): z.real[z.imag > 0] = 0; return z
def f(np, a): return [x * 2 for x in a[:2]]
def f(np, a, b): np.copyto(a, b, where=b > 0); return a
def f(np, d): q = d.reshape(-1); q[0] = 9; return d
def f(np, a): x = np.broadcast_to(a, (2,) + a.shape); return x.sum(axis=0) + x[1]
def f(np, d): x = np.moveaxis(d, 0, -1); x[0] = 1; return d
def f(np, a, s): s2 = np.asarray(s); s2[()] = 3; return s2 + a
"""
LINALG = """
np.linalg.inv(h); np.linalg.solve(h, z.T[:0].sum() + h); np.linalg.solve(h, h[:, :1]); np.linalg.det(np.array([[a[0], a[1]], [b[0], b[1]]])); np.linalg.eigvalsh(h); np.linalg.eigh(h)[0]; np.linalg.svd(d, compute_uv=False); np.linalg.pinv(h); np.linalg.matrix_power(h, 2)
"""


def point(rng, n):
    p = dict(a=rng.normal(size=n), b=rng.normal(size=n), d=rng.normal(size=(3, n)), z=rng.normal(size=(3, n)) + 1j * rng.normal(size=(3, n)),
             i=rng.integers(-4, 5, size=n), m=rng.random(n) > .5, s=np.array(rng.normal()), n=n)
    h = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    p["h"] = h + h.conj().T + 4 * np.eye(n)
    return p


def same(x, y, what):
    if isinstance(y, (tuple, list)):
        assert isinstance(x, (tuple, list)) and len(x) == len(y), what
        for p, q in zip(x, y):
            same(p, q, what)
        return
    if isinstance(y, np.dtype):
        return
    x, y = np.asarray(x), np.asarray(y)
    assert x.shape == y.shape, f"{what}: shape {x.shape}, numpy {y.shape}"
    assert x.dtype.kind == y.dtype.kind or {x.dtype.kind, y.dtype.kind} <= {"i", "u"}, f"{what}: dtype {x.dtype}, numpy {y.dtype}"
    assert np.allclose(x, y, rtol=1e-9, atol=1e-11, equal_nan=True), f"{what}: {x} numpy {y}"


def run(src, names, call, n, seed):
    rng = np.random.default_rng(seed)
    p = point(rng, n)
    w = Concolic([], False, LD, seed)
    env = Env({}, w.interp)
    env.interp = w.interp
    w.env = env
    nt = tm.var("n", "I")
    env.vars["n"] = n
    w.ctx.assume(tm.le(tm.num(2), nt))
    three = tm.num(3)
    sh = dict(a=(nt,), b=(nt,), d=(three, nt), z=(three, nt), i=(nt,), m=(nt,), s=(), h=(nt, nt))
    kinds = dict(a="f", b="f", d="f", z="c", i="i", m="b", s="f", h="c")
    from dv.arr import dim_out
    args = {k: (dim_out(nt) if k == "n" else mk(k, sh[k], kinds[k], w, p[k].copy())) for k in names}
    real = {k: (p[k].copy() if k != "n" else n) for k in names}
    want = call(np, real)
    got = conv(call(SHIMS["numpy"], args), env)
    same(got, want, src)
    for k in names:
        if k != "n":
            same(conv(args[k], env), real[k], src + " (argument %s)" % k)


def main():
    import re
    bad, ok, skip = [], 0, []
    jobs = []
    for ln in (SNIPPETS + LINALG).strip().splitlines():
        for e in filter(None, map(str.strip, ln.split(";"))):
            co = compile(e.strip(), "<snippet>", "eval")
            names = [v for v in co.co_names if v in "abdzimsnh" and len(v) == 1]
            jobs.append((e, names, lambda np_, v, co=co: eval(co, {"np": np_, **LD_builtins()}, v)))
    for ln in PROGRAMS.strip().splitlines():
        ns = {}
        exec(ln, ns)
        names = re.match(r"def f\(np,? ?(.*?)\)", ln).group(1).split(", ")
        jobs.append((ln, names, lambda np_, v, f=ns["f"]: f(np_, **v)))
    for e, names, call in jobs:
        for n, seed in ((2, 1), (4, 2), (5, 3)):
            try:
                run(e, names, call, n, seed)
                ok += 1
            except Unsupported as x:
                skip.append(f"{e}: {x}")
                break
            except Exception as x:
                bad.append(f"{e} [n={n}]: {type(x).__name__}: {x}")
                if "-v" in sys.argv:
                    import traceback
                    traceback.print_exc()
                break
    print(f"numpy models: {ok} comparisons agree, {len(bad)} differ, {len(skip)} snippets outside the fragment")
    if "-v" in sys.argv:
        print("\n".join("outside: " + s for s in skip))
    for b in bad:
        print("  DIFFERS", b)
    nf = false_obligations()
    return 1 if bad or nf else 0


def LD_builtins():
    return {"abs": abs}


def false_obligations():
    from dv.run import run_contract
    from contracts import selftest
    import time
    n = tot = 0
    for name, c in vars(selftest).items():
        if name.startswith("c_"):
            r = run_contract(name, c, lambda: LD, deadline=time.time() + 60, per_ob=6)
            assert r.obs, (name, r.unsupported)
            for o in r.obs:
                must = o["name"].startswith("false")
                tot += 1
                if must == (o["status"] == "proved"):
                    print("  UNSOUND" if must else "  WEAK", name, o["name"], o["status"], o["choice"])
                    n += must
    print(f"control obligations: {tot}, false ones discharged: {n}")
    return n


if __name__ == "__main__":
    sys.exit(main())
