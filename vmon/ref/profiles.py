"""Independent reference for halo profiles: documented shapes + numerical quadrature only."""
from __future__ import annotations

import numpy as np
from scipy.integrate import quad
from scipy.special import gamma

GL = {n: np.polynomial.legendre.leggauss(n) for n in (16, 32, 64)}


def shape(name, p):
    """f(x) from the documented formula of each class."""
    base = name.removesuffix("Inf")
    if base == "NFW":
        return lambda x: 1 / (x * (1 + x) ** 2)
    if base == "Hernquist":
        return lambda x: 1 / (x * (1 + x) ** 3)
    if base == "Moore":
        return lambda x: 1 / (x**1.5 * (1 + x**1.5))
    if base == "Constant":
        return lambda x: np.ones_like(np.asarray(x, dtype=float))
    if base == "GeneralizedNFW":
        a = p.get("alpha", 1)
        return lambda x: 1 / (x**a * (1 + x) ** (3 - a))
    if base == "Einasto":
        a = p.get("alpha", 0.18)
        return lambda x: np.exp(-2 / a * (x**a - 1))
    if base == "CoredNFW":
        return lambda x: 1 / ((x + 0.75) * (1 + x) ** 2)
    if base == "PowerLawWithExpCut":
        a, b = p.get("a", 0.049), p.get("b", 2.248)
        return lambda x: x**-b * np.exp(-a * x)
    raise KeyError(name)


def _panels(hi, npan, q=6.0, n=32, lo=0.0):
    """Gauss-Legendre nodes on [lo,hi] with x = hi*t^q clustering at 0."""
    x0, w0 = GL[n]
    t0 = (lo / hi) ** (1 / q)
    e = np.linspace(t0, 1, npan + 1)
    mid, half = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
    t = (mid[:, None] + half[:, None] * x0).ravel()
    w = (half[:, None] * w0).ravel()
    return hi * t**q, w * hi * q * t ** (q - 1)


def h(f, c):
    x, w = _panels(c, 12)
    return float(np.sum(w * x**2 * f(x)))


def p(f, c, K):
    """int_0^c x^2 f(x) sin(Kx)/(Kx) dx (truncated)."""
    npan = int(12 + 6 * K * c / np.pi)
    x, w = _panels(c, npan)
    return float(np.sum(w * x**2 * f(x) * np.sinc(K * x / np.pi)))


def p_inf(f, K):
    a = np.pi / K * 2
    x, w = _panels(a, 40)
    s = float(np.sum(w * x**2 * f(x) * np.sinc(K * x / np.pi)))
    tail = quad(lambda y: y * f(y) / K, a, np.inf, weight="sin", wvar=K, limit=400, limlst=200, epsabs=1e-12)[0]
    return s + tail


# int z f(z) dz
_Z = {"NFW": lambda z: -1 / (1 + z), "Hernquist": lambda z: -0.5 / (1 + z) ** 2}


def selfconv(name, x, c=None):
    """l(x) = int d^3y f(y) f(|x-y|), y and |x-y| < c (c=None: untruncated)."""
    base = name.removesuffix("Inf")
    f = shape(name, {})
    F = _Z[base]
    top = np.inf if c is None else c
    if x >= 2 * top:
        return 0.0

    def integ(y):
        z1 = abs(x - y)
        z2 = min(x + y, top)
        return y * f(y) * (F(z2) - F(z1)) if z2 > z1 else 0.0

    if c is None:
        s = quad(integ, 0, x, points=[x / 2], limit=300, epsrel=1e-10)[0]
        s += quad(integ, x, 20 * x + 20, limit=400, epsrel=1e-10)[0]
        s += quad(integ, 20 * x + 20, np.inf, limit=400, epsrel=1e-9)[0]
    else:
        pts = sorted({v for v in (x, c - x, x - c) if 0 < v < c})
        edges = [0.0, *pts, c]
        s = sum(quad(integ, a, b, limit=300, epsrel=1e-10)[0] for a, b in zip(edges[:-1], edges[1:]))
    return 2 * np.pi / x * s


def h_powerlaw_total(a, b):
    return gamma(3 - b) * a ** (b - 3)
