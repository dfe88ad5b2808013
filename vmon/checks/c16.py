"""C16: power spectrum <-> correlation function transforms against closed forms and brute-force quadrature."""
from __future__ import annotations

import warnings

import numpy as np
from scipy.integrate import simpson
from scipy.special import gamma, spherical_jn

PROPERTY = "C16"
RULE = ("Random analytic transform pairs (Gaussian, Lorentzian, exponential, k^-1 exponential, sign-changing k^2 exponential) and "
        "random cosmological shapes, random amplitude, length scale, grid and integrator step; each of the real transforms is run "
        "in both directions and compared with the closed form or with dense direct quadrature.")
REQUIRED = ["hankel-r", "hankel-k", "p2c-ogata", "c2p-ogata", "p2c-simpson", "quadrature", "roundtrip", "linear", "rescale",
            "pointwise", "types", "2d-power", "window", "input-unchanged", "truncated"]


def pair(name, A, L):
    if name == "gauss":
        return (lambda k: A * np.exp(-(k * L) ** 2 / 2), lambda r: A / ((2 * np.pi) ** 1.5 * L**3) * np.exp(-((r / L) ** 2) / 2))
    if name == "lorentz":
        return (lambda k: A / (k**2 + L**-2), lambda r: A * np.exp(-r / L) / (4 * np.pi * r))
    if name == "exp":
        return (lambda k: A * np.exp(-L * k), lambda r: A * L / (np.pi**2 * (L**2 + r**2) ** 2))
    if name == "expk":
        return (lambda k: A * np.exp(-L * k) / k, lambda r: A / (2 * np.pi**2 * (L**2 + r**2)))
    if name == "k2exp":
        return (lambda k: A * k**2 * np.exp(-L * k), lambda r: A * 12 * L * (L**2 - r**2) / (np.pi**2 * (L**2 + r**2) ** 4))
    raise KeyError(name)


PAIRS = ["gauss", "lorentz", "exp", "expk", "k2exp"]
# relative accuracy of the nominal (h=0.005) and fine (h=0.001) quadrature on r/L in [0.4, 6], k*L in [0.3, 4]
TOL = {0.005: 6e-4, 0.001: 2e-5}


def cases(rng, tier):
    n = 140 if tier == "quick" else 3000
    out = []
    for _ in range(n):
        out.append(dict(kind=str(rng.choice(["pair", "pair", "pair", "shape", "cut"])), pair=str(rng.choice(PAIRS)),
                        h=float(rng.choice([0.005, 0.001])), lgA=float(rng.uniform(1, 5)), lgL=float(rng.uniform(-0.7, 1.2)),
                        dt=str(rng.choice(["float", "int"]))))
    return out


def run(case, mon):
    from halomod import tools as T

    warnings.simplefilter("ignore")
    rng = np.random.default_rng(case["seed"])
    h, A, L = case["h"], 10 ** case["lgA"], 10 ** case["lgL"]
    tol = TOL[h]
    r = np.sort(rng.uniform(0.4, 6, 9)) * L
    q = np.sort(rng.uniform(0.3, 4, 9)) / L

    if case["kind"] == "cut":
        # tables that end before (and begin after) what the integral needs: the rest continues as a power law
        for _ in range(6):
            n, g, hh = rng.uniform(-1.8, -0.9), rng.uniform(1.0, 1.75), float(rng.choice([0.005, 0.002, 0.001]))
            nt = int(rng.choice([80, 150, 600]))
            kt = np.geomspace(10 ** rng.uniform(-5, -1.3), 10 ** rng.uniform(-0.3, 2), nt) / L
            want = A * gamma(n + 2) * np.sin((n + 2) * np.pi / 2) / (2 * np.pi**2) / r ** (n + 3)
            mon.close("truncated", T.power_to_corr_ogata(A * kt**n, kt, r, h=hh), want, rtol=2e-3, key="p2c-ogata")
            re = rng.uniform(2, 150, 60) * np.pi / kt[-1]  # with the end of the table anywhere between two nodes
            want = A * gamma(n + 2) * np.sin((n + 2) * np.pi / 2) / (2 * np.pi**2) / re ** (n + 3)
            if kt[0] * re.max() < 1:
                mon.close("truncated", T.power_to_corr_ogata(A * kt**n, kt, re, h=hh), want, rtol=2e-3, key="p2c-ogata|end")
            xt = np.geomspace(10 ** rng.uniform(-3.5, -0.7), 10 ** rng.uniform(0.5, 3), nt) * L
            want = 4 * np.pi * A * gamma(2 - g) * np.sin((2 - g) * np.pi / 2) / q ** (3 - g)
            mon.close("truncated", T.corr_to_power_ogata(A * xt**-g, xt, q, h=hh, power_pos=(True, True)), want, rtol=2e-3, key="c2p-ogata")
        return

    if case["kind"] == "shape":
        n, k0, kc, b = rng.uniform(0.6, 1.2), rng.uniform(0.3, 2) / L, rng.uniform(3, 8) / L, rng.uniform(1.5, 3)
        P = lambda k: A * k**n / (1 + (k / k0) ** 2) ** b * np.exp(-((k / kc) ** 2))
        kk = np.linspace(0, 7 * kc, 200001)
        with np.errstate(all="ignore"):
            base = kk**2 * P(kk)
        base[0] = 0
        want = np.array([simpson(base * np.sinc(kk * rr / np.pi), x=kk) for rr in r]) / (2 * np.pi**2)
        sc = np.array([simpson(base / np.maximum(1, kk * rr), x=kk) for rr in r]) / (2 * np.pi**2)
        mon.close("quadrature", T.hankel_transform(P, r, "r", h=h), want, rtol=tol / 3, atol=tol * 0.02 * sc, key="hankel")
        kg = np.geomspace(1e-6, 1e4, 2500) / L
        mon.close("quadrature", T.power_to_corr_ogata(P(kg), kg, r, h=h), want, rtol=5e-4, atol=1e-4 * sc, key="p2c-ogata")
        rs = r * 3  # Simpson rule: stated accuracy 1e-5, for k in units where mink=1e-6 is small
        ws = np.array([simpson(base * np.sinc(kk * rr / np.pi), x=kk) for rr in rs]) / (2 * np.pi**2)
        ss = np.array([simpson(base / np.maximum(1, kk * rr), x=kk) for rr in rs]) / (2 * np.pi**2)
        mon.close("quadrature", T.power_to_corr(lambda lk: P(np.exp(lk)), rs), ws, rtol=3e-4, atol=1e-4 * ss, key="p2c-simpson")
        return

    P, X = pair(case["pair"], A, L)
    key = case["pair"]
    kp = 1.0 if key == "k2exp" else 0.0  # vanishing P(k -> 0) is a cancellation: absolute accuracy only
    pa, xa = 1e-6 * np.max(np.abs(P(q))), 1e-6 * np.max(np.abs(X(r)))
    sx = np.maximum(np.abs(X(r)), 0.02 * np.abs(X(0.7 * L)) * np.minimum(1, (L / r) ** 6)) if key == "k2exp" else None
    got = T.hankel_transform(P, r, "r", h=h)
    mon.close("hankel-r", got, X(r), rtol=tol, atol=xa, scale=sx, key=key)
    gk = T.hankel_transform(X, q, "k", h=h)
    mon.close("hankel-k", gk, P(q), rtol=2 * tol, atol=pa + kp * 3 * tol * np.max(P(q)), key=key)
    kg = np.geomspace(1e-6, 1e5, 3000) / L
    rg = np.geomspace(1e-5, 1e5, 3000) * L
    og = T.power_to_corr_ogata(P(kg), kg, r, h=h)
    mon.close("p2c-ogata", og, X(r), rtol=5e-4, atol=xa * 10, scale=sx, key=key)
    cg = T.corr_to_power_ogata(X(rg), rg, q, h=h)
    mon.close("c2p-ogata", cg, P(q), rtol=max(tol, 2e-3), atol=pa * 100 + kp * 5e-3 * np.max(P(q)), key=key)
    pf = lambda lk: P(np.exp(lk))
    sg = None
    if key != "lorentz" and L < 8:
        # steps of 1/8 of a half-period at the last oscillation; smooth and damped integrands only
        sg = T.power_to_corr(pf, r)
        mon.close("p2c-simpson", sg, X(r), rtol=1e-5, atol=1e-7 * np.abs(X(0.5 * L)), key=key)

    # linear in the input
    f = 10 ** rng.uniform(-2, 2)
    P2, X2 = pair("exp", A * f, L * rng.uniform(0.5, 2))
    both = T.hankel_transform(lambda k: P(k) - P2(k), r, "r", h=h)
    other = T.hankel_transform(P2, r, "r", h=h)
    sc = np.abs(got) + np.abs(other)
    mon.close("linear", both, got - other, atol=tol * 0.02 * sc, key="hankel-r")
    mon.close("linear", T.hankel_transform(lambda k: f * P(k), r, "r", h=h), f * got, rtol=tol * 0.02, atol=f * xa * 0.1, key="hankel-amplitude")
    mon.close("linear", T.power_to_corr_ogata(f * P(kg), kg, r, h=h), f * og, rtol=1e-9, atol=f * xa * 1e-3, key="p2c-ogata")
    mon.close("linear", T.corr_to_power_ogata(f * X(rg), rg, q, h=h), f * cg, rtol=1e-9, atol=f * pa * 1e-3, key="c2p-ogata")
    if sg is not None:
        mon.close("linear", T.power_to_corr(lambda lk: f * pf(lk), r), f * sg, rtol=1e-9, key="p2c-simpson")

    mon.close("linear", T.hankel_transform(lambda k: -P(k), r, "r", h=h), -got, rtol=1e-9, key="hankel-sign")
    mon.close("linear", T.hankel_transform(lambda t: -X(t), q, "k", h=h), -gk, rtol=1e-9, key="hankel-sign")
    mon.close("linear", T.power_to_corr_ogata(-P(kg), kg, r, h=h), -og, rtol=1e-3, atol=10 * xa, key="p2c-ogata-sign")
    mon.close("linear", T.corr_to_power_ogata(-X(rg), rg, q, h=h), -cg, rtol=2e-3, atol=100 * pa, key="c2p-ogata-sign")
    if sg is not None:
        mon.close("linear", T.power_to_corr(lambda lk: -pf(lk), r), -sg, rtol=1e-9, key="p2c-simpson-sign")

    # lengths rescaled by b: P(kb) <-> X(r/b)/b^3
    b = 10 ** rng.uniform(-0.5, 0.5)
    Pb = lambda k: P(k * b)
    mon.close("rescale", T.hankel_transform(Pb, r * b, "r", h=h) * b**3, got, rtol=tol * 0.01, atol=xa * 0.01, key="hankel-r")
    Xb = lambda t: X(t * b)
    mon.close("rescale", T.hankel_transform(Xb, q * b, "k", h=h) * b**3, gk, rtol=tol * 0.05, atol=pa, key="hankel-k")
    mon.close("rescale", T.power_to_corr_ogata(P(kg), kg / b, r * b, h=h) * b**3, og, rtol=1e-6, atol=xa, key="p2c-ogata")
    mon.close("rescale", T.corr_to_power_ogata(X(rg), rg / b, q * b, h=h) * b**3, cg, rtol=1e-6, atol=pa, key="c2p-ogata")

    # both directions recover the input
    rt = np.geomspace(1e-3, 1e3, 700) * L
    if key in ("gauss", "exp", "lorentz"):
        xt = T.hankel_transform(P, rt[150:-150], "r", h=0.001)
        lo = T.ExtendedSpline(rt[150:-150], xt, lower_func="power_law" if key == "lorentz" else "boundary", upper_func=lambda q: np.zeros(np.shape(q)))
        back = T.hankel_transform(lo, q, "k", h=0.001)
        mon.close("roundtrip", back, P(q), rtol=5e-3, atol=2e-3 * np.max(P(q)), key=key + "|hankel")
    xo = T.power_to_corr_ogata(P(kg), kg, rt, h=0.001)
    ok = (rt > 0.02 * L) & (rt < (5 if key == "gauss" else 40) * L)
    bo = T.corr_to_power_ogata(xo[ok], rt[ok], q, h=0.001)
    if key == "exp":
        mon.close("roundtrip", bo, P(q), rtol=2e-2, atol=5e-3 * np.max(P(q)), key=key + "|ogata")

    # a point's value does not depend on the other points, their order, number or type
    i = int(rng.integers(len(r)))
    p = rng.permutation(len(r))
    for nm, fn in (("hankel-r", lambda v: T.hankel_transform(P, v, "r", h=h)), ("p2c-ogata", lambda v: T.power_to_corr_ogata(P(kg), kg, v, h=h)),
                   ("p2c-simpson", lambda v: T.power_to_corr(pf, v))):
        full = fn(r)
        mon.close("pointwise", fn(r[p]), full[p], rtol=1e-10, atol=1e-4 * xa, key=nm + "|order")
        mon.close("pointwise", fn(r[i:i + 1]), full[i:i + 1], rtol=1e-10, atol=1e-4 * xa, key=nm + "|single")
        if rng.random() < 0.2:
            many = rng.permutation(np.concatenate([r, rng.uniform(0.4, 6, int(rng.choice([100, 101, 300]))) * L]))
            pick = [int(np.flatnonzero(many == v)[0]) for v in r[:4]]
            mon.close("pointwise", fn(many)[pick], full[:4], rtol=1e-10, atol=1e-4 * xa, key=nm + "|many")
        ri = np.array([2, 5, 3])
        if 0.4 * L < 2 and 5 < 6 * L:
            mon.close("types", fn(ri), fn(ri.astype(float)), rtol=1e-10, atol=1e-300, key=nm + "|int")
        mon.close("types", fn(r.astype(np.float32)), fn(r.astype(np.float32).astype(float)), rtol=2e-3, atol=10 * xa, key=nm + "|float32")
    mon.close("types", T.power_to_corr(pf, float(r[i])), T.power_to_corr(pf, r[i:i + 1]), rtol=1e-12, key="p2c-simpson|scalar")
    mon.close("types", T.power_to_corr(pf, list(r)), T.power_to_corr(pf, r), rtol=1e-12, key="p2c-simpson|list")
    fk = lambda v: T.hankel_transform(X, v, "k", h=h)
    mon.close("pointwise", fk(q[p]), fk(q)[p], rtol=1e-10, key="hankel-k|order")

    # one spectrum per separation
    amp = rng.uniform(0.5, 2, len(r))
    two = T.power_to_corr_ogata(np.outer(amp, P(kg)), kg, r, h=h)
    mon.close("2d-power", two, amp * og, rtol=1e-9, atol=1e-3 * xa, key="p2c-ogata")
    fs = [(lambda k, a=a: a * P(k)) for a in amp]
    mon.close("2d-power", T.hankel_transform(fs, r, "r", h=h), amp * got, rtol=tol * 0.05, atol=xa * 0.1, key="hankel")

    # top-hat window
    x = 10 ** rng.uniform(-1.5, 2, 20)
    mon.close("window", T.exclusion_window(x / L, L), 3 * spherical_jn(1, x) / x, rtol=1e-6, atol=1e-7, key="W")

    kg0, pk0, r0 = kg.copy(), P(kg), r.copy()
    pk = pk0.copy()
    T.power_to_corr_ogata(pk, kg, r, h=h)
    T.corr_to_power_ogata(pk, kg, r, h=h)
    T.hankel_transform(P, r, "r")
    mon.check("input-unchanged", np.array_equal(kg, kg0) and np.array_equal(pk, pk0) and np.array_equal(r, r0), key="arrays")
    mon.raises("types", lambda: T.hankel_transform(P, r, "x"), key="bad-variable")
