"""C18: 1-halo power spectra and correlation functions against dense independent mass integrals."""
from __future__ import annotations

import warnings

import numpy as np

from ..core import rng_for
from . import modelgen as G
from .refint import Halos, transform

PROPERTY = "C18"
RULE = ("Random models (occupation, profiles, concentrations, cosmology, mass definitions, turnover on and off) are built, every 1-halo quantity is read at "
        "random wavenumbers and separations and compared with a dense mass integral over hand-built occupation and the profile functions, and with the "
        "brute-force Fourier transform of the power; the turnover is compared with the same model without it.")
REQUIRED = ["power-matter", "power-cs", "power-ss", "power-total", "power-cross", "corr-cs", "corr-ss", "corr-total", "corr-matter", "corr-cross",
            "transform", "non-negative", "turnover-cut", "turnover-only-removes", "turnover-unchanged"]
CASE_TIMEOUT = 120


def cases(rng, tier):
    n = 154 if tier == "quick" else 600
    return [dict(kind="model", rep=i, hod=i % 11, cost=2) for i in range(n)]


def run(case, mon):
    rng = rng_for("c18", case["seed"])
    warnings.simplefilter("ignore")
    kw = G.draw(rng, "tracer", grid="medium", exclusion=False, sdbias=False, inf=True, hods=[G.HODS[case["hod"]]], masks=True)
    kw.update(rmin=0.02, rmax=60, rnum=6, rlog=True, hc_spectrum="linear")
    turn = bool(case["rep"] % 2)
    kw["force_1halo_turnover"] = turn
    hn = kw["hod_model"]
    if hn == "Spinelli19":
        kw["hod_params"]["central"] = False
    pn, tn = kw["halo_profile_model"], kw.get("tracer_profile_model") or kw["halo_profile_model"]
    try:
        hm = G.build(G.model_class("Tracer"), kw)
        hm.dndm
    except Exception as e:  # noqa: BLE001
        mon.note(f"base rejected: {type(e).__name__}")
        return
    R = Halos(hm, kw)
    if not R.n > 0:
        mon.note("no tracers")
        return
    key = f"{hn}|{tn}"
    kk = np.array(hm.k)
    # uniform spheres ring in mass at larger wavenumbers
    hi = 2.0 if "Constant" in (pn, tn) else 12.0
    kk = np.sort(rng.choice(kk[(kk > 0.003) & (kk < hi)], 6, replace=False))
    uh, ut = R.uh(kk), R.ut(kk)
    d, M, n, rho = R.dndm, R.M, R.n, R.rho0
    cut = [4 * np.pi / 3 * rho * hm.halo_overdensity_mean * (np.pi / 10 / k) ** 3 if turn else None for k in kk]

    def power(f, norm, host=True, extra=None):
        """Integral over haloes that host the tracer and are above the turnover mass; and what unresolved steps may do."""
        want, tol = [], []
        for i in range(len(kk)):
            g = f[i] * d
            lim = cut[i]
            if host:
                g = np.where(R.keep, g, 0)
                low = 10**R.h.mmin if R.sharp else None
                lim = max([x for x in (lim, low) if x is not None], default=None)
            want.append(R.above(g, lim) / norm)
            tol.append(R.step_error(g) / norm + 3e-3 * R.above(np.abs(g), None) / norm * bool(turn))
        return np.array(want), np.array(tol)

    dn2 = 2 * R.step_error(d * R.tot) / n if n else 0
    checks = dict(
        matter=(M**2 * uh**2, rho**2, False, hm.power_1h_auto_matter_fnc),
        cs=(2 * R.cs * ut, n**2, True, hm.power_1h_cs_auto_tracer_fnc),
        ss=(R.ss * ut**2, n**2, True, hm.power_1h_ss_auto_tracer_fnc),
        total=(2 * R.cs * ut + R.ss * ut**2, n**2, True, hm.power_1h_auto_tracer_fnc),
    )
    for q, (f, norm, host, fn) in checks.items():
        want, tol = power(f, norm, host)
        if not host:
            tol = 1e-4 * turn * np.array([R.above(g * d, None) for g in f]) / norm
        mon.close(f"power-{q}", fn(kk), want, rtol=4e-3 + dn2 * host, atol=tol + 1e-12, key=(pn if q == "matter" else key) + ("|turnover" if turn else ""), kw=kw)
        if q in ("matter", "ss"):
            # up to ringing where the turnover drops by many orders between neighbouring wavenumbers
            v = fn(np.array(hm.k_hm))
            steps = (R.step_error(d * R.tot) > 0) * host
            mon.check("non-negative", np.min(v) >= -(3e-2 if steps else 1e-3 if turn else 1e-4) * np.max(np.abs(v)), key=f"{q}|{key}", msg=str(np.min(v)))
    old, cut = cut, [None] * len(kk)
    want, tol = power(M * uh * (R.cen + R.sat * ut), n * rho)
    mon.close("power-cross", hm.power_1h_cross_tracer_matter_fnc(kk), want, rtol=4e-3 + dn2, atol=tol + 1e-12, key=key)

    # real space
    # (at nodes of the internal table, where it is not interpolated)
    rr = np.exp(rng.uniform(np.log(0.03), np.log(2.0), 5))
    table = getattr(hm, "_r_table", None)
    if table is not None:
        rr = np.sort(rng.choice(table[(table > 0.03) & (table < 2)], 5, replace=False))
    loose = 1.0 if table is not None else 10.0
    rho_t = hm.tracer_profile.rho(rr, M, norm="m", c=R.ct)
    lamt = hm.tracer_profile.lam(rr, M, norm="m", c=R.ct) if hm.tracer_profile.has_lam else None
    lamh = hm.halo_profile.lam(rr, M, norm="m", c=R.ch) if hm.halo_profile.has_lam else None

    def corr(f, norm, host=True):
        want = np.array([(R.integ if host else R.integ_all)(g * d) / norm for g in f])
        return want, np.array([R.step_error(g * d) / norm for g in f]) * host

    rt = 1.5e-2 * loose
    cs, tol = corr(2 * R.cs * rho_t, n**2)
    # a truncated profile is a step in mass, somewhere between grid points
    def edge(p, f):
        i = np.flatnonzero(p > 0)
        if not len(i) or i[0] == 0:
            return 0.0
        return np.max(np.where(np.abs(R.x - R.x[i[0]]) < 1.5 * R.cell, np.abs(f), 0)) * R.cell * 0.6

    tol = tol + np.array([edge(p, 2 * R.cs * p * d * M) / n**2 for p in rho_t])
    if (cs < 0).any():
        mon.violation("non-negative", f"reference|{key}", "negative reference")
    mon.check("non-negative", (hm.corr_1h_cs_auto_tracer_fnc(rr) + 1 >= -2 * tol - 1e-2).all(), key=f"corr-cs|{key}")
    mon.close("corr-cs", hm.corr_1h_cs_auto_tracer_fnc(rr) + 1, cs, rtol=rt + dn2, atol=2 * tol + 1e-2, key=key)
    if lamt is not None:
        ss, tol2 = corr(R.ss * lamt, n**2)
        mon.close("corr-ss", hm.corr_1h_ss_auto_tracer_fnc(rr) + 1, ss, rtol=rt + dn2, atol=2 * tol2 + 1e-2, key=key)
        mon.close("corr-total", hm.corr_1h_auto_tracer_fnc(rr), ss + cs, rtol=rt + dn2, atol=2 * (tol + tol2) + 1e-2, key=key)
    if lamh is not None:
        mm, _ = corr(M**2 * lamh, rho**2, False)
        mon.close("corr-matter", hm.corr_1h_auto_matter_fnc(rr) + 1, mm, rtol=rt, atol=1e-2, key=pn)
    # the correlation is the transform of the power
    # (the nominal quadrature step of the transform is too coarse below a tenth of the halo size)
    rr = rr[rr > 0.12]
    if not len(rr):
        rr = np.array([table[np.searchsorted(table, 0.4)] if table is not None else 0.4])
    tm = transform(hm.power_1h_cross_tracer_matter_fnc, rr)
    mon.close("corr-cross", hm.corr_1h_cross_tracer_matter_fnc(rr), tm, rtol=rt, atol=1e-2, key=key)
    if lamt is None:
        t = transform(hm.power_1h_ss_auto_tracer_fnc, rr)
        sc = transform(hm.power_1h_ss_auto_tracer_fnc, rr, scale=True)
        mon.close("transform", hm.corr_1h_ss_auto_tracer_fnc(rr) + 1, t, rtol=rt, atol=1e-2 + 2e-3 * sc, key="ss|" + key)
    elif not turn:
        t = transform(hm.power_1h_auto_tracer_fnc, rr)
        mon.close("transform", hm.corr_1h_auto_tracer_fnc(rr), t, rtol=3 * rt, atol=5e-2, key="total|" + key)
    if not turn or lamh is None:
        t = transform(hm.power_1h_auto_matter_fnc, rr)
        mon.close("transform", hm.corr_1h_auto_matter_fnc(rr) + 1, t, rtol=3 * rt, atol=5e-2, key="matter|" + pn)

    # the turnover against the same model without it
    kall = np.array(hm.k)
    other = G.build(G.model_class("Tracer"), {**kw, "force_1halo_turnover": not turn})
    on, off = (hm, other) if turn else (other, hm)
    dens = 4 * np.pi / 3 * rho * hm.halo_overdensity_mean
    for q in ("power_1h_auto_matter_fnc", "power_1h_cs_auto_tracer_fnc", "power_1h_ss_auto_tracer_fnc"):
        a, b = getattr(on, q)(kall), getattr(off, q)(kall)
        low = float(hm.m[0]) if "matter" in q or not R.sharp else max(float(hm.m[0]), 10**R.h.mmin)
        same = dens * (np.pi / 10 / kall) ** 3 < low
        mon.close("turnover-unchanged", a[same], b[same], rtol=1e-9, atol=1e-300, key=q)
        if "Inf" not in tn + pn and "Constant" not in tn:
            mon.check("turnover-only-removes", (a <= b + (4e-2 if R.step_error(d * R.tot) > 0 else 1e-3) * np.max(np.abs(b))).all(), key=q, msg=str(np.max(a / b)))
        gone = dens * (np.pi / 10 / kall) ** 3 > hm.m[-1]
        if gone.any():
            mon.check("turnover-cut", np.all(np.abs(a[gone]) <= 1e-12 * np.max(np.abs(b))), key=q, msg=str(a[gone]))
        small = kall[0] * 0.5
        if gone.any():
            mon.check("turnover-cut", getattr(on, q)(small) == 0, key=q + "|below")
    for q in ("corr_1h_auto_tracer_fnc", "power_1h_cross_tracer_matter_fnc", "corr_2h_auto_tracer_fnc"):
        if q.startswith("corr_1h") and lamt is None:
            continue
        mon.close("turnover-unchanged", getattr(on, q)(rr), getattr(off, q)(rr), rtol=1e-9, atol=1e-300, key=q)
