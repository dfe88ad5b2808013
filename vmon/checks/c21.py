"""C21: spline_integral equals the integral of the underlying function between any limits."""
from __future__ import annotations

import warnings

import numpy as np
from scipy.integrate import quad
from scipy.interpolate import CubicSpline

PROPERTY = "C21"
RULE = ("Random smooth integrands (power laws, exponential cut-offs, lognormals, polynomials) on random grids and random "
        "limits (grid points, between grid points, first/last cell, zero, absent); the returned integral is compared with "
        "adaptive quadrature of the closed form, with itself over split ranges, scaled and shifted.")
REQUIRED = ["value", "additive", "linear", "continuous", "no-limits", "input-unchanged"]


def make(rng, kind):
    if kind == "powercut":
        s, c = rng.uniform(-2, 1.5), rng.uniform(3, 30)
        return lambda x: x**s * np.exp(-x / c)
    if kind == "lognormal":
        mu, sg = rng.uniform(-1, 2), rng.uniform(0.6, 1.5)
        return lambda x: np.exp(-((np.log(np.maximum(x, 1e-300)) - mu) ** 2) / (2 * sg**2))
    if kind == "poly":
        a = rng.normal(size=4)
        return lambda x: a[0] + a[1] * x / 5 + a[2] * (x / 5) ** 2 + a[3] * (x / 9) ** 3
    if kind == "wave":
        w = rng.uniform(0.1, 0.4)
        return lambda x: 1.2 + np.sin(w * x)
    a = rng.uniform(0.5, 2)
    return lambda x: a * x**-1.0


def cases(rng, tier):
    n = 2000 if tier == "quick" else 8000
    return [dict(kind=str(rng.choice(["powercut", "lognormal", "poly", "wave", "inv"])), log=bool(rng.random() < 0.6),
                 n=int(rng.choice([80, 150, 400, 1200])), amp=float(rng.choice([-1, 1]) * 10 ** rng.uniform(-20, 20)) if rng.random() < 0.3 else 1.0) for _ in range(n)]


def run(case, mon):
    from halomod.tools import spline_integral

    warnings.simplefilter("ignore")
    rng = np.random.default_rng(case["seed"])
    f1 = make(rng, case["kind"])
    f = f1 if case.get("amp", 1) == 1 else (lambda t: case["amp"] * f1(t))
    log = case["log"]
    n = case["n"]
    if log:
        lo, hi = 10 ** rng.uniform(-2, 0.3), 10 ** rng.uniform(0.8, 2)
        x = np.geomspace(lo, hi, n)
    else:
        lo, hi = rng.uniform(0.0, 1.5), rng.uniform(8, 30)
        if case["kind"] in ("inv", "powercut", "lognormal"):
            lo = rng.uniform(1.5, 3)
        x = np.linspace(lo, hi, n)
        if case["kind"] in ("poly", "wave") and rng.random() < 0.5:
            x = np.linspace(-3, 7, n)  # limits of either sign, and zero
            lo, hi = -3.0, 7.0
    y = f(x)
    x0, y0 = x.copy(), y.copy()

    def truth(a, b):
        return quad(f, a, b, epsrel=1e-11, epsabs=0, limit=300)[0] if not log else quad(lambda u: f(np.exp(u)) * np.exp(u), np.log(a), np.log(b), epsrel=1e-11, epsabs=0, limit=300)[0]

    def I(a=None, b=None, yy=None):
        return float(spline_integral(x, y if yy is None else yy, xmin=a, xmax=b, log=log))

    scale = abs(quad(lambda u: abs(f(u)), lo, hi, limit=300, epsrel=1e-6)[0])
    key = "log" if log else "linear"
    # interpolation error inherent in the tabulated data, from an independent spline
    cs = CubicSpline(np.log(x), x * y) if log else CubicSpline(x, y)

    def val(clause, got, a, b, key):
        w = truth(a, b)
        err = abs(cs.integrate(np.log(a), np.log(b)) - w if log else cs.integrate(a, b) - w)
        mon.close(clause, got, w, rtol=1e-7, atol=1e-8 * scale + 2 * err, key=key)

    pts = [float(v) for v in np.sort(rng.uniform(lo, hi, 3))]
    pts += [float(x[0] + 0.3 * (x[1] - x[0])), float(x[-2] + 0.6 * (x[-1] - x[-2])), float(x[n // 2]), float(x[1])]
    if lo < 0:
        pts.append(0.0)
    pts = sorted(set(pts))
    val("no-limits", I(), float(x[0]), float(x[-1]), key)
    for a in pts:
        val("value", I(a=a), a, float(x[-1]), key + "|lower")
        val("value", I(b=a), float(x[0]), a, key + "|upper")
        mon.close("additive", I(b=a) + I(a=a), I(), rtol=1e-9, atol=1e-11 * scale, key=key)
    for a in pts:
        for b in pts:
            if b > a and rng.random() < 0.4:
                val("value", I(a, b), a, b, key + "|both")
                m = rng.uniform(a, b)
                mon.close("additive", I(a, m) + I(m, b), I(a, b), rtol=1e-9, atol=1e-11 * scale, key=key + "|mid")
    mon.close("value", I(lo, hi), I(), rtol=1e-12, key=key + "|full")
    a = pts[2]
    mon.close("value", I(a, a), 0.0, atol=1e-12 * scale, key=key + "|empty")
    g = make(rng, "lognormal" if lo > 0 else "wave")(x)
    c1, c2 = rng.normal(), rng.normal()
    mon.close("linear", I(a, None, c1 * y + c2 * g), c1 * I(a) + c2 * I(a, None, g), rtol=1e-9, atol=1e-9 * (scale + np.max(np.abs(g)) * hi), key=key)
    mon.close("linear", I(None, a, 7.5 * y), 7.5 * I(None, a), rtol=1e-10, atol=1e-12 * scale, key=key + "|scale")
    # continuity as a limit crosses a grid point and within a cell
    for c in (float(x[n // 3]), float(0.5 * (x[n // 3] + x[n // 3 + 1])), *([0.0] if lo < 0 else [])):
        d = 1e-6 * (hi - lo) if c == 0 or not log else 1e-6 * c
        jump = I(a=c - d) - I(a=c + d)
        mon.close("continuous", jump, 2 * d * float(f(np.array(c))), rtol=1e-3, atol=1e-9 * scale, key=key)
        jump = I(b=c + d) - I(b=c - d)
        mon.close("continuous", jump, 2 * d * float(f(np.array(c))), rtol=1e-3, atol=1e-9 * scale, key=key + "|upper")
    mon.check("input-unchanged", np.array_equal(x, x0) and np.array_equal(y, y0), key=key)
