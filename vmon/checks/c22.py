"""C22: projected correlations against a dense line-of-sight integral of the 3-D correlation."""
from __future__ import annotations

import copy
import warnings

import numpy as np
from scipy.special import gamma

from ..core import rng_for
from . import modelgen as G

PROPERTY = "C22"
RULE = ("projected_corr_gal is given random correlation functions (power laws, broken and cut-off power laws, oscillating, sign changing) on random grids and "
        "compared with Gauss-Legendre quadrature along the line of sight and closed forms; random projected models (cold, warm, updated, several output grids of "
        "the same model) are compared with the same quadrature over their own 3-D correlation function.")
REQUIRED = ["power-law", "closed-form", "quadrature", "linear", "towards-limit", "grid-subset", "model", "model-grid", "model-update", "model-limit", "model-warm"]
CASE_TIMEOUT = 120

NODES, WEIGHTS = np.polynomial.legendre.leggauss(48)


def los(xi, rp, rlim):
    """2 int_0^sqrt(rlim^2-rp^2) xi(sqrt(rp^2+y^2)) dy with y = rp sinh(t), panels in t."""
    out = []
    for p in rp:
        T = np.arccosh(max(rlim / p, 1.0))
        n = 12
        t = (np.arange(n)[:, None] + (NODES + 1) / 2)[:] * T / n
        r = p * np.cosh(t)
        out.append(2 * np.sum(xi(r.ravel()).reshape(r.shape) * r * WEIGHTS) * T / n / 2)
    return np.array(out)


def cases(rng, tier):
    n = 500 if tier == "quick" else 2500
    out = [dict(kind="function", rep=i, cost=0.2) for i in range(n)]
    m = 60 if tier == "quick" else 300
    out += [dict(kind="model", rep=i, cost=3) for i in range(m)]
    return out


def run(case, mon):
    rng = rng_for("c22", case["seed"])
    warnings.simplefilter("ignore")
    globals()["run_" + case["kind"]](case, mon, rng)


def shape(rng, kind):
    r0, g = rng.uniform(2, 8), rng.uniform(1.2, 2.6)
    if kind == "power":
        return (lambda r: (r / r0) ** -g), (r0, g)
    if kind == "cutoff":
        rc = rng.uniform(10, 60)
        return (lambda r: (r / r0) ** -g * np.exp(-r / rc)), None
    if kind == "broken":
        g2, rb = rng.uniform(0.9, 1.8), rng.uniform(0.5, 4)
        return (lambda r: (r / r0) ** -g / (1 + (r / rb) ** 2) ** ((g2 - g) / 2)), None
    if kind == "negative":
        rz = rng.uniform(30, 120)
        return (lambda r: (r / r0) ** -g * (1 - (r / rz) ** 2) * np.exp(-((r / 60) ** 2))), None
    a = rng.uniform(0.05, 0.3)
    return (lambda r: (r / r0) ** -g * (1 + a * np.sin(2 * np.log(r)))), None


def run_function(case, mon, rng):
    from halomod.integrate_corr import projected_corr_gal

    kind = ["power", "cutoff", "broken", "negative", "wiggle"][case["rep"] % 5]
    xi, pl = shape(rng, kind)
    lo = 10 ** rng.uniform(-2.3, -0.3)
    rlim = float(10 ** rng.uniform(1.5, 2.3))
    r = np.logspace(np.log10(lo), np.log10(rlim), int(rng.integers(150, 500)))
    n = int(rng.integers(1, 25))
    hi = rlim / 3
    style = case["rep"] // 5 % 5
    rp = np.sort(np.exp(rng.uniform(np.log(lo), np.log(hi), n)))
    if style == 0:
        rp = None
    elif style == 1:
        rp = rng.permutation(rp)
    elif style == 2:
        rp = np.arange(1, max(2, int(hi)))
    elif style == 3:
        rp = np.linspace(lo, hi, n + 1)
    got = projected_corr_gal(r, xi(r), rlim, rp)
    x = r if rp is None else rp
    ok = x <= rlim / 3
    x = np.asarray(x, float)[ok]
    want = los(xi, x, rlim)
    mag = los(lambda q: np.abs(xi(q)), x, rlim)
    key = f"{kind}|{['none', 'shuffled', 'integers', 'linear', 'log'][style]}"
    mon.close("power-law" if pl else "quadrature", got[ok], want, rtol=0.0, atol=0.025 * mag, key=key)
    far = np.asarray(r if rp is None else rp, float)
    w = los(xi, far[~ok], rlim)
    mon.close("towards-limit", got[~ok], w, rtol=0.025, atol=0.04 * far[~ok] * np.abs(xi(far[~ok])) + 0.025 * los(lambda q: np.abs(xi(q)), far[~ok], rlim), key=key)
    end = projected_corr_gal(r, xi(r), rlim, np.array([lo, rlim / 2, rlim, 1.5 * rlim]))
    mon.check("towards-limit", np.isfinite(end).all() and (end[2:] == 0).all(), key="end", msg=str(end))
    if pl:
        r0, g = pl
        # what lies beyond the limit: bounded by the power law seen face on
        inf = np.sqrt(np.pi) * x * (x / r0) ** -g * gamma((g - 1) / 2) / gamma(g / 2)
        beyond = 2 * r0**g * rlim ** (1 - g) / (g - 1)
        mon.close("closed-form", got[ok] + beyond, inf, rtol=0.025, atol=beyond * (x / rlim) ** 2 * 2, key=key)
    lam = rng.uniform(0.2, 5)
    mon.close("linear", projected_corr_gal(r, lam * xi(r), rlim, rp), lam * got, rtol=1e-9, atol=1e-12 * np.max(np.abs(got)), key=key)
    if rp is not None and len(rp) > 2:
        keep = np.sort(rng.choice(len(rp), len(rp) // 2, replace=False))
        sub = projected_corr_gal(r, xi(r), rlim, np.asarray(rp)[keep])
        s = ok[keep]
        mon.close("grid-subset", sub[s], got[keep][s], rtol=0, atol=0.025 * mag[np.searchsorted(np.flatnonzero(ok), keep[s])], key=key)


def proj(hm):
    return np.array(hm.projected_corr_gal)


def judge(mon, hm, clause, key):
    rp, rlim = np.array(hm.rp), float(hm.rlim)
    fn = hm.corr_auto_tracer_fnc
    got = proj(hm)
    if not mon.check(clause, got.shape == rp.shape, key="shape", msg=f"{got.shape} {rp.shape}"):
        return None
    ok = rp <= rlim / 3
    want = los(fn, rp[ok], rlim)
    mag = los(lambda r: np.abs(fn(r)), rp[ok], rlim)
    mon.close(clause, got[ok], want, rtol=0, atol=0.02 * mag, key=key)
    return rp[ok], got[ok], mag


def run_model(case, mon, rng):
    i = case["rep"]
    warm = i % 5 == 4
    kw = G.draw(rng, "tracer", grid="medium", exclusion=False, sdbias=False, inf=False, hods=[h for h in G.HODS if h != "Spinelli19"], masks=not warm)
    for k in ("rmin", "rmax", "rnum", "rlog"):
        kw.pop(k, None)
    kw["dr_table"] = 0.05
    kw["rnum"] = int(rng.integers(120, 260))
    kw["rp_min"], kw["rp_max"], kw["rp_num"] = G.U(rng, 0.02, 0.5), G.U(rng, 5, 30), int(rng.integers(5, 30))
    if rng.random() < 0.3:
        kw["rp_log"] = False
    if rng.random() < 0.4:
        kw["proj_limit"] = float(rng.choice([40.0, 60.0, 100.0, 150.0]))
    cls = G.model_class("Projected")
    if warm:
        from halomod.wdm import ProjectedCFWDM, TracerHaloModelWDM

        cls = ProjectedCFWDM
        kw.update(wdm_mass=G.U(rng, 1, 5))
        if rng.random() < 0.5 and kw["halo_concentration_model"] in ("Duffy08", "Bullock01Power"):
            kw["halo_concentration_model"] += "WDM"
        kw.setdefault("halo_concentration_model", "Duffy08")
    try:
        hm = G.build(cls, kw)
        hm.dndm
    except Exception as e:  # noqa: BLE001
        mon.note(f"rejected {type(e).__name__}")
        return
    key = kw["hod_model"] + ("|warm" if warm else "")
    R = judge(mon, hm, "model-warm" if warm else "model", key)
    if R is None:
        return
    rlim = float(hm.rlim)
    lim = kw.get("proj_limit")
    mon.close("model-limit", rlim, lim if lim else max(80.0, 5 * np.max(hm.rp)), rtol=1e-12, key=str(bool(lim)))
    want = (np.logspace(np.log10(kw["rp_min"]), np.log10(kw["rp_max"]), kw["rp_num"]) if kw.get("rp_log", True)
            else np.linspace(kw["rp_min"], kw["rp_max"], kw["rp_num"]))
    mon.close("model-grid", np.array(hm.rp), want, rtol=1e-12, key="rp")
    # the same model on other output grids with the same limit
    rp, got, mag = R
    sub = np.sort(rng.choice(len(rp), max(2, len(rp) // 2), replace=False))
    v = {**kw, "rp_min": [float(x) for x in rp[sub]] if rng.random() < 0.5 else rp[sub], "proj_limit": rlim}
    v["rnum"] = int(kw["rnum"] * rng.uniform(0.8, 1.5))
    other = G.build(cls, v)
    mon.close("model-grid", proj(other), got[sub], rtol=0, atol=0.025 * mag[sub], key=key)
    # updates are followed
    ups = []
    for u in rng.choice(["rp_min", "rp_max", "rp_num", "rp_log", "proj_limit", "rnum", "hod", "z"], 3, replace=False):
        ups.append({"rp_min": dict(rp_min=G.U(rng, 0.03, 0.4)), "rp_max": dict(rp_max=G.U(rng, 6, 25)), "rp_num": dict(rp_num=int(rng.integers(4, 20))),
                    "rp_log": dict(rp_log=not kw.get("rp_log", True)), "proj_limit": dict(proj_limit=None if lim else 90.0), "rnum": dict(rnum=150),
                    "hod": dict(hod_params=G.hod_params(rng, kw["hod_model"], n=1)), "z": dict(z=G.U(rng, 0, 1))}[u])
    cur = copy.deepcopy(kw)
    for u in ups:
        G.update(hm, u)
        cur = G.merge(cur, u)
        judge(mon, hm, "model-update", f"{next(iter(u))}")
    fresh = G.build(cls, cur)
    mon.close("model-update", proj(hm), proj(fresh), rtol=1e-8, atol=1e-12, key="fresh")
    mon.close("model-update", np.array(hm.r), np.array(fresh.r), rtol=1e-12, key="fresh-r")
