"""Lattice specifications shared by C09..C13: closed forms (both back ends) and independent Brillouin-zone
sums / exact moments (numbers only)."""
from fractions import Fraction
from math import comb
import functools

NAMES = ["bethe", "bethez", "box", "onedim", "square", "rectangular", "lieb", "triangular", "honeycomb", "kagome", "sc", "bcc", "fcc"]
# band edges in units of half_bandwidth
BAND = dict(lieb=(-1, 1), triangular=(Fraction(-2, 3), Fraction(4, 3)), kagome=(Fraction(-2, 3), Fraction(4, 3)), fcc=(Fraction(-1, 2), Fraction(3, 2)))


def band(name):
    return BAND.get(name, (-1, 1))


# --------------------------------------------------------------------------- closed forms
def g_bethe(k, z, D):
    x = z / D
    return 2 / D * x * (1 - k.sqrt(1 - 1 / x**2))


def g_bethez(k, z, D, Z):
    return 2 * (Z - 1) / (z * (Z - 2 + Z * k.sqrt(1 - (D / z)**2)))


def g_box(k, z, D):
    return k.log((z + D) / (z - D)) / (2 * D)


def g_onedim(k, z, D):
    return 1 / (z * k.sqrt(1 - (D / z)**2))


def g_square(k, z, D):
    return 2 / (k.pi * z) * k.ellipk((D / z)**2)


def g_rectangular(k, z, D, s):
    d = D / (1 + s)
    x = z / d
    return 2 / (k.pi * d * x) / k.sqrt(1 - ((s - 1) / x)**2) * k.ellipk(4 * s / (x**2 - (s - 1)**2))


def g_bcc(k, z, D):
    m = (1 - k.sqrt(1 - (D / z)**2)) / 2
    return 4 / (k.pi**2 * z) * k.ellipk(m)**2


def g_sc(k, z, D):
    x = 3 * z / D
    q = 1 / x**2
    xi = k.sqrt(1 - k.sqrt(1 - q)) / k.sqrt(1 + k.sqrt(1 - 9 * q))
    den = (1 - xi)**3 * (1 + 3 * xi)
    return 3 / D * (1 - 9 * xi**4) * (2 / k.pi * k.ellipk(16 * xi**3 / den))**2 / den / x


def _ssqrt_tri(k, z):
    return k.ite(k.and_(k.re(z) < 0, k.im(z) < 0), -1, 1) * k.sqrt(z)


def g_triangular_ret(k, z, D):
    """upper half plane"""
    d = 4 * D / 9
    x = z / d
    r = _ssqrt_tri(k, 2 * x + 3)
    g = 4 / (_ssqrt_tri(k, r - 1)**3 * _ssqrt_tri(k, r + 3))
    kk = _ssqrt_tri(k, r) * g
    m = kk**2
    K = k.ellipk(m) + k.ite(k.im(kk) > 0, lambda: 2 * k.I * k.ellipk(1 - m), 0)
    return g * K / (k.pi * d)


def _ssqrt_fcc(k, z):
    return k.ite(k.re(z) < 0, lambda: -k.I * k.sqrt(-z), lambda: k.sqrt(z))


def g_fcc_adv(k, z, D):
    """lower half plane"""
    d = D / 2
    x = z / d
    p = 1 / _ssqrt_fcc(k, x + 1)**3
    s1 = 4 * _ssqrt_fcc(k, x) * p
    s2 = (x - 1) * _ssqrt_fcc(k, x - 3) * p
    mp, mm = (1 + s1 - s2) / 2, (1 - s1 - s2) / 2
    K = k.ellipk(mp) + k.ite(k.im(mp) < 0, lambda: 2 * k.I * k.ellipk(1 - mp), 0)
    return 4 / (k.pi**2 * d * (x + 1)) * k.ellipk(mm) * K


def g_triangular(k, z, D):
    return k.ite(k.im(z) < 0, lambda: k.conj(g_triangular_ret(k, k.conj(z), D)), lambda: g_triangular_ret(k, z, D))


def g_fcc(k, z, D):
    return k.ite(k.im(z) > 0, lambda: k.conj(g_fcc_adv(k, k.conj(z), D)), lambda: g_fcc_adv(k, z, D))


def g_honeycomb(k, z, D, tri=g_triangular):
    d = 2 * D / 3
    x = z / d
    return 2 / d * x * tri(k, 2 * x**2 - k.frac(3, 2), k.frac(9, 4))


def g_kagome(k, z, D, tri=g_triangular):
    return 1 / (3 * z + 2 * D) + k.frac(2, 3) * g_honeycomb(k, z - D / 3, D, tri)


def g_lieb(k, z, D, sq=g_square):
    return 1 / (3 * z) + 16 * z / (3 * D**2) * sq(k, 8 * z**2 / D**2 - 4, 4)


G = dict(bethe=g_bethe, bethez=g_bethez, box=g_box, onedim=g_onedim, square=g_square, rectangular=g_rectangular, bcc=g_bcc, sc=g_sc,
         triangular=g_triangular, fcc=g_fcc, honeycomb=g_honeycomb, kagome=g_kagome, lieb=g_lieb)


# --------------------------------------------------------------------------- Brillouin zone sums (floats)
def bz_gf(name, z, D, extra=None):
    """local Green's function as average over the Brillouin zone; needs |Im z| >= D/32 or so"""
    import numpy as np
    n = 1024
    c = np.cos(2 * np.pi * (np.arange(n) + 0.5) / n)

    def a1(w, a):        # average of 1/(w - a cos k)
        return 1 / (w * np.sqrt(1 - (a / w)**2))

    def half(f, m=512):  # average over one more angle
        cc = np.cos(np.pi * (np.arange(m) + 0.5) / m)
        return f(cc)
    if name == "bethe":
        th = np.pi * np.arange(1, n) / n
        return np.sum(np.sin(th)**2 / (z - D * np.cos(th))) * 2 / n
    if name == "bethez":
        Z = extra
        t2 = D**2 / (4 * (Z - 1))
        f = 1 / z
        for _ in range(4000):
            f = 1 / (z - (Z - 1) * t2 * f)
        return 1 / (z - Z * t2 * f)
    if name == "box":
        x, w = np.polynomial.legendre.leggauss(400)
        return np.sum(w / (z - D * x)) / 2
    if name == "onedim":
        return np.mean(1 / (z - D * c))
    if name == "square":
        return np.mean(a1(z - D / 2 * c, D / 2))
    if name == "rectangular":
        d = D / (1 + extra)
        return np.mean(a1(z - d * extra * c, d))
    if name == "triangular":     # 2t (cos kx + 2 cos(kx/2) cos(ky))
        th = 2 * np.pi * (np.arange(n) + 0.5) / n
        t = 2 * D / 9
        return np.mean(a1(z - 2 * t * np.cos(th), 4 * t * np.cos(th / 2)))
    if name == "honeycomb":      # t^2 |1 + 2 exp(i kx/2)cos(ky)|^2 = t^2 (1 + 4 cos(kx/2) cos ky + 4 cos^2 ky)
        t2 = (D / 3)**2
        th = 2 * np.pi * (np.arange(n) + 0.5) / n
        cy = np.cos(th)
        return np.mean(z * a1(z**2 - t2 * (1 + 4 * cy**2), 4 * t2 * cy))
    if name == "kagome":
        return 1 / (3 * z + 2 * D) + 2 / 3 * bz_gf("honeycomb", z - D / 3, D)
    if name == "lieb":
        return 1 / (3 * z) + 2 / 3 * np.mean(z * a1(z**2 - D**2 / 4 * (2 + c), D**2 / 4))
    cc = np.cos(np.pi * (np.arange(512) + 0.5) / 512)
    x, y = cc[:, None], cc[None, :]
    if name == "sc":
        return np.mean(a1(z - D / 3 * (x + y), D / 3))
    if name == "bcc":
        return np.mean(a1(z, D * x * y))
    if name == "fcc":
        return np.mean(a1(z - D / 2 * x * y, D / 2 * (x + y)))
    raise KeyError(name)


# --------------------------------------------------------------------------- exact moments (half_bandwidth = 1)
def _pmul(a, b):
    r = {}
    for i, x in a.items():
        for j, y in b.items():
            e = tuple(p + q for p, q in zip(i, j))
            r[e] = r.get(e, 0) + x * y
    return r


@functools.lru_cache(None)
def _ct(name, m):
    """constant term of P**m for the hopping polynomial P"""
    P = dict(tri={(1, 0): 1, (-1, 0): 1, (0, 1): 1, (0, -1): 1, (1, 1): 1, (-1, -1): 1})[name]
    r = {(0, 0): 1}
    half = m // 2
    for _ in range(half):
        r = _pmul(r, P)
    s = _pmul(r, P) if m % 2 else r
    return sum(v * s.get(tuple(-a for a in e), 0) for e, v in r.items())


def _c1(m):
    """<cos^m>"""
    return Fraction(comb(m, m // 2), 2**m) if m % 2 == 0 else Fraction(0)


@functools.lru_cache(None)
def moment(name, m):
    F = Fraction
    if name == "box":
        return F(0) if m % 2 else F(1, m + 1)
    if name == "bethe":
        return F(0) if m % 2 else F(comb(m, m // 2), m // 2 + 1) / 2**m
    if name == "onedim":
        return _c1(m)
    if name == "square":
        return sum(comb(m, a) * _c1(a) * _c1(m - a) for a in range(m + 1)) / F(2)**m
    if name == "bcc":
        return _c1(m)**3
    if name == "sc":
        return sum(comb(m, a) * comb(m - a, b) * _c1(a) * _c1(b) * _c1(m - a - b) for a in range(m + 1) for b in range(m - a + 1)) / F(3)**m
    if name == "fcc":   # ((xy + yz + zx)/2)^m
        s = F(0)
        for a in range(m + 1):
            for b in range(m - a + 1):
                c = m - a - b
                s += comb(m, a) * comb(m - a, b) * _c1(a + c) * _c1(a + b) * _c1(b + c)
        return s / 2**m
    if name == "triangular":
        return F(_ct("tri", m)) * F(2, 9)**m
    if name == "honeycomb":   # E^2 = (3 + P)/9
        if m % 2:
            return F(0)
        h = m // 2
        return sum(comb(h, a) * 3**(h - a) * _ct("tri", a) for a in range(h + 1)) / F(9)**h
    if name == "kagome":
        return F(1, 3) * F(-2, 3)**m + F(2, 3) * sum(comb(m, a) * F(1, 3)**(m - a) * moment("honeycomb", a) for a in range(m + 1))
    if name == "lieb":        # E^2 = (2 + cx + cy)/4 = (1 + sq)/2
        if m == 0:
            return F(1)
        if m % 2:
            return F(0)
        h = m // 2
        return F(2, 3) * sum(comb(h, a) * moment("square", a) for a in range(h + 1)) / F(2)**h
    raise KeyError(name)


# --------------------------------------------------------------------------- densities of states, inside the band
def d_bethe(k, e, D):
    return 2 / (k.pi * D) * k.rsqrt(1 - (e / D)**2)


def d_bethez(k, e, D, Z):
    x2 = (e / D)**2
    return 2 * Z * (Z - 1) / (k.pi * D) * k.rsqrt(1 - x2) / (Z**2 - 4 * (Z - 1) * x2)


def d_box(k, e, D):
    return 1 / (2 * D)


def d_onedim(k, e, D):
    return 1 / (k.pi * D * k.rsqrt(1 - (e / D)**2))


def d_square(k, e, D):
    return 2 / (k.pi**2 * D) * k.ellipk(1 - (e / D)**2)


def d_rectangular(k, e, D, s):
    m = 4 * s / ((1 + s)**2 * (1 - (e / D)**2))
    return k.abs((1 + s) / (k.pi**2 * D * k.rsqrt(s)) * k.rsqrt(m) * k.re(k.ellipk(m + 0 * k.I)))


def d_bcc(k, e, D):
    m = k.frac(1, 2) - k.I / 2 * k.rsqrt((D / e)**2 - 1)
    return -4 / (k.pi**3 * k.abs(e)) * k.im(k.ellipk(m)**2)


def d_sc(k, e, D):
    return -1 / k.pi * k.im(g_sc(k, k.abs(e), D))


def d_triangular(k, e, D):
    d = 4 * D / 9
    r = k.rsqrt(2 * e / d + 3)
    a, b = (r + 1)**3 * (3 - r), (r - 1)**3 * (3 + r)
    return 2 / (k.pi**2 * d) * k.ite(e / d <= -1, lambda: 2 / k.rsqrt(a) * k.ellipk(1 + b / a),
                                     lambda: k.frac(1, 2) / k.rsqrt(r) * k.ellipk(1 - b / (16 * r)))


def d_fcc(k, e, D):
    return k.abs(k.im(g_fcc_adv(k, e + 0 * k.I, D))) / k.pi


def d_honeycomb(k, e, D):
    d = 2 * D / 3
    return 2 / d * k.abs(e / d) * d_triangular(k, 2 * (e / d)**2 - k.frac(3, 2), k.frac(9, 4))


def d_kagome(k, e, D):
    return k.frac(2, 3) * d_honeycomb(k, e - D / 3, D)


def d_lieb(k, e, D):
    return 4 / (3 * D) * k.abs(e / D) * d_square(k, 2 * (e / D)**2 - 1, 1)


DOS = dict(bethe=d_bethe, bethez=d_bethez, box=d_box, onedim=d_onedim, square=d_square, rectangular=d_rectangular, bcc=d_bcc, sc=d_sc,
           triangular=d_triangular, fcc=d_fcc, honeycomb=d_honeycomb, kagome=d_kagome, lieb=d_lieb)
# points (in units of half_bandwidth) where the density of states is singular or its value is a convention
SINGULAR = dict(bethe=(), bethez=(), box=(), onedim=(), square=(0,), bcc=(0,), sc=(), triangular=(Fraction(-4, 9),), fcc=(0,),
                honeycomb=(Fraction(1, 3), Fraction(-1, 3), 0), kagome=(0, Fraction(2, 3), Fraction(1, 3)), lieb=(0,))
