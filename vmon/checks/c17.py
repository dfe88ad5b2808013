"""C17: 2-halo terms against independent bias integrals and halo-centre spectra."""
from __future__ import annotations

import warnings

import numpy as np

from ..core import rng_for
from . import modelgen as G
from .refint import Halos, transform

PROPERTY = "C17"
RULE = ("Random models without exclusion and scale-dependent bias (occupation, profiles, bias relation, mass function, cosmology, mass definition, halo-centre "
        "spectrum, unity option): each 2-halo power is compared with the halo-centre spectrum built from the tabulated spectra times a dense profile-weighted bias "
        "integral, its low-wavenumber limit with the effective bias, and each 2-halo correlation with the brute-force transform of the power.")
REQUIRED = ["power-tracer", "power-matter", "power-cross", "low-k", "matter-bias", "spectrum", "halo-power", "transform", "large-r", "after-update"]
CASE_TIMEOUT = 120


def cases(rng, tier):
    n = 160 if tier == "quick" else 700
    return [dict(kind="model", rep=i, hod=i % 11, hc=["linear", "nonlinear", "filtered-lin", "filtered-nl"][(i // 3) % 4], cost=2) for i in range(n)]


def tophat(x):
    return np.where(x > 1e-2, 3 * (np.sin(x) - x * np.cos(x)) / x**3, 1 - x**2 / 10)


def centre(hm, hc):
    """Halo-centre power on the wavenumber table, and the alternative that is a known deviation."""
    k = np.array(hm.k)
    p = np.array(hm.nonlinear_power if "n" == hc[0] or hc == "filtered-nl" else hm.power)
    if not hc.startswith("filtered"):
        return p, None

    def filt(R):
        q = p * tophat(k * R)
        q[np.maximum.accumulate(q <= 0)] = 0
        return q

    return filt(2.0), (filt(3.0) if hc == "filtered-nl" else None)


def judge(mon, hm, kw, rng, upd=False):
    hn, hc = kw["hod_model"], kw["hc_spectrum"]
    pn, tn = kw["halo_profile_model"], kw.get("tracer_profile_model") or kw["halo_profile_model"]
    R = Halos(hm, kw)
    if not R.n > 0:
        mon.note("no tracers")
        return
    key = f"{hn}|{tn}|{hc}"
    kt = np.array(hm.k)
    pc, alt = centre(hm, hc)
    sel = (kt > 2e-4) & (kt < (2.0 if "Constant" in (pn, tn) else 12.0)) & (pc > 1e-6 * pc.max())
    idx = np.sort(rng.choice(np.flatnonzero(sel), 7, replace=False))
    kk = kt[idx]
    d, M, n, rho = R.dndm, R.M, R.n, R.rho0
    uh, ut = R.uh(kk), R.ut(kk)

    # the spectrum itself, through the halo-halo power in a mass range
    lo, hi = np.sort(rng.uniform(np.log10(hm.m[0]), np.log10(hm.m[-1]), 2))
    b = [float(np.trapezoid((R.bias * d * M)[s], R.x[s]) / np.trapezoid((d * M)[s], R.x[s])) if s.sum() > 2 else np.nan
         for s in ((M >= 10**lo) & (M <= 10**hi),)][0]
    one = float(np.interp(0.5 * (lo + hi) * np.log(10), R.x, R.bias))
    cen = 0.5 * (lo + hi)
    got = hm.power_hh(kk, mmin=cen, mmax=cen)
    mon.close("halo-power", got, one**2 * hm.power_hh(kk, mmin=cen, mmax=cen, mmin2=lo, mmax2=lo) / one / np.interp(lo * np.log(10), R.x, R.bias), rtol=2e-3, key="two masses")
    stale = alt is not None and np.allclose(got / one**2, alt[idx], rtol=5e-3, atol=1e-12 * np.max(pc)) and not np.allclose(got / one**2, pc[idx], rtol=5e-3, atol=1e-12 * np.max(pc))
    mon.close("spectrum", got / one**2, pc[idx], rtol=5e-3, atol=1e-12 * np.max(pc), key=hc + ("|3 instead of 2 Mpc/h" if stale else ""))
    if stale:
        pc = alt
    else:
        mon.close("halo-power", got, one**2 * pc[idx], rtol=5e-3, atol=1e-12 * np.max(pc), key="single mass|" + hc)
    if hc.startswith("filtered"):
        # nothing is left beyond the first zero of the window
        gone = kt[(pc == 0) & (kt < 30)][2:]
        if len(gone):
            kz = rng.choice(gone, min(len(gone), 8), replace=False)
            mon.close("spectrum", hm.power_hh(kz, mmin=cen, mmax=cen) / one**2, np.zeros(len(kz)), rtol=0, atol=1e-8 * np.max(pc), key=hc + "|beyond the window")
    if hi - lo > 0.8 and np.isfinite(b):
        # the ends are only resolved to a mass cell
        e = []
        for a0, a1 in ((lo - 0.1, hi), (lo + 0.1, hi), (lo, hi - 0.1), (lo, hi + 0.1)):
            s = (M >= 10**a0) & (M <= 10**a1)
            e.append(float(np.trapezoid((R.bias * d * M)[s], R.x[s]) / np.trapezoid((d * M)[s], R.x[s])))
        slack = 2 * max(abs(x - b) for x in e) / b
        mon.close("halo-power", hm.power_hh(kk, mmin=lo, mmax=hi), b**2 * pc[idx], rtol=0.02 + 2 * slack, atol=1e-12 * np.max(pc), key="range|" + hc)
        mon.close("halo-power", hm.power_hh(kk, mmin=lo, mmax=hi, mmin2=cen, mmax2=cen), b * one * pc[idx], rtol=0.02 + 2 * slack, atol=1e-12 * np.max(pc), key="cross range|" + hc)
    # limits exactly on masses of the table: both ends belong to the range
    gm = np.array(hm.m)
    on = np.array([i for i in np.flatnonzero((gm > 1e11) & (gm < 1e15)) if 10 ** float(np.log10(gm[i])) == gm[i]], dtype=int)
    for i in rng.permutation(on)[:3]:
        later = on[(on >= i + 4) & (on <= i + 9)]
        if not len(later):
            continue
        j = int(G.pick(rng, list(later)))
        a0, a1 = float(np.log10(gm[i])), float(np.log10(gm[j]))
        mon.close("halo-power", hm.power_hh(kk, mmin=a0, mmax=a1), hm.power_hh(kk, mmin=a0 - 1e-6, mmax=a1 + 1e-6), rtol=1e-4, key="range of grid masses")
        break
    P = pc[idx]
    eps = 1e-12 * np.max(pc)

    # tracers
    bt = np.array([R.integ(d * R.bias * R.tot * ut[i]) for i in range(len(kk))]) / n
    et = np.array([R.step_error(d * R.bias * R.tot * ut[i]) for i in range(len(kk))]) / n + R.step_error(d * R.tot) / n * np.abs(bt)
    mon.close("power-tracer", hm.power_2h_auto_tracer_fnc(kk), P * bt**2, rtol=1.5e-2 if kw.get("hod_model") == "Leauthaud11" else 6e-3, atol=P * (2 * et * np.abs(bt) + et**2) + 1e-5 * P + eps, key=key, kw=kw)
    # matter
    bm0 = np.array([R.integ_all(d * M * R.bias * uh[i]) for i in range(len(kk))])
    tot, rho_h = R.integ_all(d * M * R.bias), R.integ_all(d * M)
    bm = bm0 / tot if kw.get("force_unity_dm_bias", True) else bm0 / rho_h
    # the density in haloes is the one the model reports, which may extend the mass function
    dens = hm.mean_density_in_halos
    if not kw.get("force_unity_dm_bias", True):
        bm = bm0 / dens
        mon.close("matter-bias", hm.bias_effective_matter, tot / dens, rtol=5e-3, key="computed")
        mon.check("matter-bias", 0.8 * rho_h <= dens <= 1.3 * max(rho_h, rho), key="density", msg=f"{dens} vs {rho_h}")
    else:
        mon.close("matter-bias", hm.bias_effective_matter, 1.0, key="unity")
    mon.close("power-matter", hm.power_2h_auto_matter_fnc(kk), P * bm**2, rtol=6e-3, atol=1e-5 * P + eps, key=f"{pn}|{hc}|unity={kw.get('force_unity_dm_bias', True)}", kw=kw)
    # tracer-matter
    bc = np.array([R.integ(d * R.bias * (R.cen + R.sat * ut[i])) for i in range(len(kk))]) / n
    ec = np.array([R.step_error(d * R.bias * (R.cen + R.sat * np.abs(ut[i]))) for i in range(len(kk))]) / n + R.step_error(d * R.tot) / n * np.abs(bc)
    mon.close("power-cross", hm.power_2h_cross_tracer_matter_fnc(kk), P * bc * bm0 / rho, rtol=6e-3, atol=P * (ec * np.abs(bm0 / rho)) + 1e-5 * P + eps, key=key, kw=kw)

    # very large scales: effective bias and linear power
    k0 = np.array([1.1e-7, 1e-5, 2e-4])
    if "Inf" not in tn and "Inf" not in pn and tn != "PowerLawWithExpCut" and pn != "PowerLawWithExpCut":
        lin = hm.linear_power_fnc(k0)
        if hc in ("linear", "filtered-lin"):
            mon.close("low-k", hm.power_2h_auto_tracer_fnc(k0), hm.bias_effective_tracer**2 * lin, rtol=1e-2, atol=4 * R.step_error(d * R.bias * R.tot) / n * bt[0] * lin, key=f"tracer|{key}")
            bb = 1.0 if kw.get("force_unity_dm_bias", True) else tot / dens
            mon.close("low-k", hm.power_2h_auto_matter_fnc(k0), bb**2 * lin, rtol=1e-2, key=f"matter|{pn}")
        mon.close("low-k", hm.bias_effective_tracer, R.integ(d * R.bias * R.tot) / n, rtol=5e-3 + 3 * R.step_error(d * R.bias * R.tot) / n, key="effective")

    # real space
    table = getattr(hm, "_r_table", None)
    rr = np.exp(rng.uniform(np.log(0.5), np.log(60), 4))
    if table is not None:
        rr = np.sort(rng.choice(table[(table > 0.5) & (table < 60)], 4, replace=False))
    loose = 1 if table is not None else 5
    for q in ("auto_tracer", "auto_matter", "cross_tracer_matter"):
        f = getattr(hm, f"power_2h_{q}_fnc")
        t, sc = transform(f, rr), transform(f, rr, scale=True)
        mon.close("transform", getattr(hm, f"corr_2h_{q}_fnc")(rr), t, rtol=3e-2 * loose, atol=3e-3 * loose * sc, key=f"{q}|{hc}")
    if hc in ("linear",) and "Inf" not in tn:
        r = np.array([30.0, 45.0])
        xi = transform(hm.linear_power_fnc, r)
        if hm.dlog10m < 0.15 and tn in ("NFW", "Hernquist", "CoredNFW", "Constant"):
            mon.close("large-r", hm.corr_2h_auto_tracer_fnc(r), hm.bias_effective_tracer**2 * xi, rtol=0.04, atol=4 * R.step_error(d * R.bias * R.tot) / n * np.abs(xi) * bt[0] + 1e-4, key=hn)
    if upd:
        mon.observe("after-update", key)


def run(case, mon):
    rng = rng_for("c17", case["seed"])
    warnings.simplefilter("ignore")
    kw = G.draw(rng, "tracer", grid="medium", exclusion=False, sdbias=False, inf=True, hods=[G.HODS[case["hod"]]], masks=True)
    kw.update(rmin=0.02, rmax=60, rnum=6, rlog=True, hc_spectrum=case["hc"])
    if kw["hod_model"] == "Spinelli19":
        kw["hod_params"]["central"] = False
    try:
        hm = G.build(G.model_class("Tracer"), kw)
        hm.dndm
    except Exception as e:  # noqa: BLE001
        mon.note(f"base rejected: {type(e).__name__}")
        return
    judge(mon, hm, kw, rng)
    if case["rep"] % 2:
        ups = G.draw_update(rng, kw, "tracer", G.pick(rng, ["z", "sigma_8", "hc_spectrum", "unity", "bias", "hod_params", "n", "profile", "tprofile", "cosmo_params"]), grid="medium")
        for up in ups:
            kw = G.merge(kw, up)
            G.update(hm, up)
        if kw["hod_model"] == "Spinelli19":
            return
        judge(mon, hm, kw, rng, True)
