"""C23: angular correlations against a Gauss-Legendre Limber integral of the 3-D correlation."""
from __future__ import annotations

import copy
import warnings

import numpy as np
from scipy.special import gamma

from ..core import rng_for
from . import modelgen as G

PROPERTY = "C23"
RULE = ("angular_corr_gal is given random correlation functions, selections (flat, peaked, unnormalised, splines, of redshift or of distance, one or two), "
        "cosmologies, angles and grids, and compared with Gauss-Legendre quadrature and the closed form of a power law; random angular models are compared with "
        "the same quadrature over their own 3-D correlations, exchanged, re-gridded and updated.")
REQUIRED = ["quadrature", "closed-form", "exchange", "normalised", "unchecked-scale", "angle-grid", "default-cosmology", "model-gal", "model-matter", "model-grid",
            "model-update", "model-grids"]
CASE_TIMEOUT = 120

NODES, WEIGHTS = np.polynomial.legendre.leggauss(40)


def panels(a, b, n):
    w = (b - a) / n
    return (a + (np.arange(n)[:, None] + (NODES + 1) / 2) * w).ravel(), np.tile(WEIGHTS, n) * w / 2


def distance(cosmo, z):
    """Comoving distance in Mpc/h from the expansion rate itself."""
    z = np.atleast_1d(np.asarray(z, float))
    x, w = np.polynomial.legendre.leggauss(60)
    t = (x[None, :] + 1) / 2 * z[:, None]
    return 2997.92458 * np.sum(w * cosmo.inv_efunc(t), axis=1) * z / 2


def limber(theta, xi, p1, p2, zmin, zmax, umin, umax, cosmo, of_z=True, norm=True):
    if of_z:
        z, w = panels(zmin, zmax, 8)
        x = distance(cosmo, z)
        f1, f2 = np.array(p1(z), float) + 0 * z, np.array(p2(z), float) + 0 * z
        jac = cosmo.efunc(z) / 2997.92458
    else:
        lo, hi = distance(cosmo, [zmin, zmax])
        x, w = panels(lo, hi, 8)
        f1, f2, jac = np.array(p1(x), float) + 0 * x, np.array(p2(x), float) + 0 * x, 1.0
    if norm:
        n1, n2 = np.sum(w * f1), np.sum(w * f2)
        f1 = f1 / n1 if abs(n1 - 1) > 0.01 else f1
        f2 = f2 / n2 if abs(n2 - 1) > 0.01 else f2
    v, wv = panels(np.log(umin), np.log(umax), 12)
    u = np.exp(v)
    # integral over dx of p(x)^2, either way
    line = f1 * f2 * jac * w
    out, mag = [], []
    for t in theta:
        q = np.sqrt(u[None, :] ** 2 + (x * t)[:, None] ** 2)
        k = xi(q.ravel()).reshape(q.shape)
        out.append(2 * line @ (k @ (u * wv)))
        mag.append(2 * np.abs(line) @ (np.abs(k) @ (u * wv)))
    return np.array(out), np.array(mag)


def cases(rng, tier):
    n = 400 if tier == "quick" else 2000
    out = [dict(kind="function", rep=i, cost=0.3) for i in range(n)]
    m = 70 if tier == "quick" else 300
    out += [dict(kind="model", rep=i, cost=3) for i in range(m)]
    return out


def run(case, mon):
    rng = rng_for("c23", case["seed"])
    warnings.simplefilter("ignore")
    globals()["run_" + case["kind"]](case, mon, rng)


class Gauss:
    """A peaked selection; a class so that it can be pickled."""

    def __init__(self, m, s, a=1.0):
        self.m, self.s, self.a = m, s, a

    def __call__(self, z):
        return self.a * np.exp(-0.5 * ((np.asarray(z) - self.m) / self.s) ** 2) / (self.s * np.sqrt(2 * np.pi))


def selection(rng, lo, hi, style):
    from scipy.interpolate import InterpolatedUnivariateSpline as S

    w = hi - lo
    if style == "flat":
        from halomod.integrate_corr import flat_z_dist

        return flat_z_dist(lo, hi)
    if style == "unnormalised":
        a = float(rng.uniform(0.1, 20))
        return Gauss(lo + w * rng.uniform(0.3, 0.7), w * rng.uniform(0.15, 0.4), a)
    if style == "spline":
        z = np.linspace(lo, hi, 40)
        return S(z, 1 + rng.uniform(-0.8, 0.8) * np.sin(np.pi * (z - lo) / w) + z / w * 0.1)
    return Gauss(lo + w / 2, w / 9)


STYLES = ["flat", "peaked", "unnormalised", "spline"]


def run_function(case, mon, rng):
    from astropy.cosmology import FlatLambdaCDM, LambdaCDM, Planck15
    from hmf import Cosmology

    from halomod.integrate_corr import angular_corr_gal

    i = case["rep"]
    cosmo = [None, Planck15, FlatLambdaCDM(H0=float(rng.uniform(55, 85)), Om0=float(rng.uniform(0.2, 0.45))),
             LambdaCDM(H0=70, Om0=0.3, Ode0=float(rng.uniform(0.5, 0.69)))][i % 4]
    used = Cosmology().cosmo if cosmo is None else cosmo
    zmin = float(rng.uniform(0.05, 1.5))
    zmax = zmin + float(rng.uniform(0.05, 0.6))
    of_z = bool(i // 4 % 3)
    lo, hi = (zmin, zmax) if of_z else (used.comoving_distance([zmin, zmax]) * used.h).value
    s1, s2 = STYLES[i // 2 % 4], STYLES[int(rng.integers(4))]
    p1 = selection(rng, lo, hi, s1)
    p2 = selection(rng, lo, hi, s2) if i % 3 else None
    r0, g = rng.uniform(3, 8), rng.uniform(1.4, 2.3)
    power = i % 2 == 0
    rc = rng.uniform(20, 60)
    xi = (lambda r: (r / r0) ** -g) if power else (lambda r: (r / r0) ** -g * (1 - (r / 90) ** 2) * np.exp(-((r / rc) ** 2)))
    theta = np.sort(10 ** rng.uniform(-4, -1, int(rng.integers(1, 8))))
    if rng.random() < 0.3:
        theta = rng.permutation(theta)
    lu = (-4 - rng.uniform(0, 1), (4 if power else 2.3) + rng.uniform(0, 0.5))
    kw = dict(znum=int(rng.integers(101, 260)), unum=int(rng.integers(300, 700)), p_of_z=of_z)
    w = angular_corr_gal(theta, xi, p1, zmin, zmax, *lu, p2=p2, cosmo=cosmo, **kw)
    q2 = p1 if p2 is None else p2
    want, mag = limber(theta, xi, p1, q2, zmin, zmax, 10 ** lu[0], 10 ** lu[1], used, of_z)
    key = f"{'power' if power else 'cut'}|{'z' if of_z else 'x'}|{s1}|{s2 if p2 is not None else 'auto'}"
    mon.close("quadrature", w, want, rtol=0, atol=4e-3 * mag, key=key)
    if cosmo is None:
        mon.close("default-cosmology", w, angular_corr_gal(theta, xi, p1, zmin, zmax, *lu, p2=p2, cosmo=used, **kw), rtol=1e-12, key=key)
    if power:
        x, wt = (lambda z_w: (distance(used, z_w[0]), z_w[1] * used.efunc(z_w[0]) / 2997.92458))(panels(lo, hi, 8)) if of_z else panels(lo, hi, 8)
        y, yw = panels(lo, hi, 8)
        n1, n2 = np.sum(yw * p1(y)), np.sum(yw * q2(y))
        n1, n2 = [n if abs(n - 1) > 0.01 else 1.0 for n in (n1, n2)]
        A = np.sqrt(np.pi) * gamma((g - 1) / 2) / gamma(g / 2) * r0**g
        closed = A * theta ** (1 - g) * np.sum(wt * p1(y) * q2(y) * x ** (1 - g)) / n1 / n2
        tail = 2 * r0**g * (10 ** lu[1]) ** (1 - g) / (g - 1) * np.sum(wt * p1(y) * q2(y)) / n1 / n2
        head = 2 * (10 ** lu[0]) / (theta * x.min()) * closed
        mon.close("closed-form", w + tail, closed, rtol=6e-3, atol=head + 0.02 * tail, key=key)
    if p2 is not None:
        mon.close("exchange", angular_corr_gal(theta, xi, p2, zmin, zmax, *lu, p2=p1, cosmo=cosmo, **kw), w, rtol=1e-10, atol=1e-12 * mag.max(), key=key)
    a = float(rng.choice([0.2, 0.9, 1.7, 40.0]))
    mon.close("normalised", angular_corr_gal(theta, xi, lambda z: a * p1(z), zmin, zmax, *lu, p2=p2, cosmo=cosmo, **kw), w, rtol=0,
              atol=(0.025 if p2 is None else 0.015) * mag, key=key)
    u0 = angular_corr_gal(theta, xi, p1, zmin, zmax, *lu, p2=p2, cosmo=cosmo, check_p_norm=False, **kw)
    raw, rmag = limber(theta, xi, p1, q2, zmin, zmax, 10 ** lu[0], 10 ** lu[1], used, of_z, norm=False)
    mon.close("unchecked-scale", u0, raw, rtol=0, atol=4e-3 * rmag, key=key)
    mon.close("unchecked-scale", angular_corr_gal(theta, xi, lambda z: a * p1(z), zmin, zmax, *lu, p2=p2, cosmo=cosmo, check_p_norm=False, **kw),
              u0 * (a if p2 is not None else a * a), rtol=1e-9, atol=1e-12 * rmag.max(), key=key)
    keep = rng.random(len(theta)) < 0.6
    if keep.any():
        mon.close("angle-grid", angular_corr_gal(theta[keep], xi, p1, zmin, zmax, *lu, p2=p2, cosmo=cosmo, **kw), w[keep], rtol=1e-10, key=key)


def judge(mon, hm, cur, tag):
    sel = cur.get("p1")
    flat = lambda z: np.where((z >= cur["zmin"] - 1e-12) & (z <= cur["zmax"] + 1e-12), 1 / (cur["zmax"] - cur["zmin"]), 0)
    p1 = sel or flat
    p2 = cur.get("p2") or p1
    of_z = cur.get("p_of_z", True) or (sel is None and cur.get("p2") is None)
    theta = np.array(hm.theta)
    cosmo = hm.cosmo
    for q, fn in (("gal", hm.corr_auto_tracer_fnc), ("matter", hm.corr_auto_matter_fnc)):
        got = np.array(getattr(hm, f"angular_corr_{q}"))
        want, mag = limber(theta, fn, p1, p2, cur["zmin"], cur["zmax"], 10.0 ** cur["logu_min"], 10.0 ** cur["logu_max"], cosmo, of_z, cur.get("check_p_norm", True))
        mon.close(f"model-{q}", got, want, rtol=0, atol=8e-3 * mag, key=tag)
    grid = np.logspace(np.log10(cur["theta_min"]), np.log10(cur["theta_max"]), cur["theta_num"]) if cur.get("theta_log", True) else \
        np.linspace(cur["theta_min"], cur["theta_max"], cur["theta_num"])
    mon.close("model-grids", theta, grid, rtol=1e-10, key="theta")
    z = np.linspace(cur["zmin"], cur["zmax"], cur["znum"])
    mon.close("model-grids", np.array(hm.zvec), z, rtol=1e-12, key="z")
    mon.close("model-grids", np.array(hm.xvec), distance(cosmo, z), rtol=1e-4, key="x")
    mon.close("model-grids", np.array(hm.uvec), np.logspace(cur["logu_min"], cur["logu_max"], cur["unum"]), rtol=1e-10, key="u")
    r = np.array(hm.r)
    near = np.hypot(10.0 ** cur["logu_min"], grid.min() * distance(cosmo, cur["zmin"])[0])
    far = np.hypot(10.0 ** cur["logu_max"], grid.max() * distance(cosmo, cur["zmax"])[0])
    mon.close("model-grids", [r[0], r[-1]], [near, far], rtol=1e-4, key="r")


def run_model(case, mon, rng):
    i = case["rep"]
    kw = G.draw(rng, "tracer", grid="medium", exclusion=False, sdbias=False, inf=False, hods=[h for h in G.HODS if h != "Spinelli19"], masks=True)
    for k in ("rmin", "rmax", "rlog"):
        kw.pop(k, None)
    zmin = G.U(rng, 0.1, 1.2)
    ang = dict(zmin=zmin, zmax=zmin + G.U(rng, 0.1, 0.5), znum=int(rng.integers(60, 140)), logu_min=G.U(rng, -3.5, -2), logu_max=G.U(rng, 1.8, 2.3),
               unum=int(rng.integers(150, 300)), theta_min=float(10 ** rng.uniform(-5, -3)), theta_max=G.U(rng, 5e-3, 3e-2), theta_num=int(rng.integers(2, 8)))
    kw.update(ang)
    kw["z"] = (kw["zmin"] + kw["zmax"]) / 2
    s = i % 4
    if s == 1:
        kw["p1"] = selection(rng, kw["zmin"], kw["zmax"], "peaked")
    elif s == 2:
        kw["p1"] = selection(rng, kw["zmin"], kw["zmax"], "unnormalised")
        kw["p2"] = selection(rng, kw["zmin"], kw["zmax"], "peaked")
    elif s == 3:
        kw["p_of_z"] = False
        if i % 8 == 3:
            lo, hi = 2997.9 * kw["zmin"] * 0.8, 2997.9 * kw["zmax"] * 0.8
            kw["p1"] = Gauss((lo + hi) / 2, (hi - lo) / 3)
    if rng.random() < 0.2:
        kw["check_p_norm"] = False
    if rng.random() < 0.3:
        kw["theta_log"] = False
    cls = G.model_class("Angular")
    try:
        hm = G.build(cls, kw)
        hm.dndm
    except Exception as e:  # noqa: BLE001
        mon.note(f"rejected {type(e).__name__}")
        return
    tag = f"{'flat' if s == 0 else 'custom'}"
    judge(mon, hm, kw, tag)
    cur = copy.deepcopy(kw)
    # other angle grids of the same model
    v = {**kw, "theta_min": float(hm.theta[0]), "theta_max": float(hm.theta[-1]), "theta_num": 2}
    o = G.build(cls, v)
    for q in ("gal", "matter"):
        a = np.array(getattr(hm, f"angular_corr_{q}"))
        mon.close("model-grid", getattr(o, f"angular_corr_{q}"), a[[0, -1]], rtol=1e-6, atol=1e-12 * np.abs(a).max(), key=q)
    if kw.get("p2"):
        o = G.build(cls, {**kw, "p1": kw["p2"], "p2": kw["p1"]})
        mon.close("exchange", o.angular_corr_gal, hm.angular_corr_gal, rtol=1e-9, atol=1e-12 * np.abs(np.array(hm.angular_corr_gal)).max(), key="model")
    for u in rng.choice(["zmin", "zmax", "both", "cosmo", "p1", "theta", "u", "num", "log", "norm", "hod", "p2"], 4, replace=False):
        up = {"zmin": dict(zmin=cur["zmin"] - 0.05), "zmax": dict(zmax=cur["zmax"] + 0.1), "both": dict(zmin=cur["zmin"] + 0.01, zmax=cur["zmax"] + 0.05),
              "cosmo": dict(cosmo_params=dict(Om0=G.U(rng, 0.25, 0.35))), "p1": dict(p1=None if cur.get("p1") else Gauss((cur["zmin"] + cur["zmax"]) / 2, 0.05)),
              "theta": dict(theta_min=float(10 ** rng.uniform(-5, -3)), theta_num=3), "u": dict(logu_max=G.U(rng, 1.7, 2.2)), "num": dict(znum=90, unum=220),
              "log": dict(theta_log=not cur.get("theta_log", True)), "norm": dict(check_p_norm=not cur.get("check_p_norm", True)),
              "hod": dict(hod_params=G.hod_params(rng, kw["hod_model"], n=1)),
              "p2": dict(p2=None if cur.get("p2") else Gauss((cur["zmin"] + cur["zmax"]) / 2, 0.1))}[u]
        if not cur.get("p_of_z", True) and u in ("p1", "p2"):
            continue
        G.update(hm, up)
        cur = G.merge(cur, up)
        mon.observe("model-update", u)
        judge(mon, hm, cur, f"update|{u}")
    fresh = G.build(cls, cur)
    for q in ("angular_corr_gal", "angular_corr_matter", "r", "xvec", "theta"):
        mon.close("model-update", getattr(hm, q), getattr(fresh, q), rtol=1e-8, atol=1e-12, key=f"fresh|{q}")
