"""C29: linear and nonlinear matter statistics used by the halo model are consistent."""
from __future__ import annotations

import warnings

import numpy as np

from ..core import rng_for
from . import modelgen as G
from .refint import transform

PROPERTY = "C29"
RULE = ("Random cosmologies, redshifts, amplitudes, spectral indices, transfer functions, wavenumber ranges and model classes, built at once or reached by "
        "updates; the power functions are read on, between, below and above the tabulated wavenumbers and compared with hmf's own tables, the primordial power "
        "law and independent normalisation integrals; the correlations are compared with brute-force transforms of those tables; scalings with amplitude, "
        "growth, spectral index and independence of all halo options are compared between models.")
REQUIRED = ["tabulated", "hmf", "below", "above", "between", "sigma8", "transform", "amplitude", "growth", "index", "halo-options", "nonlinear-limit", "array",
            "corr-amplitude", "corr-growth", "corr-range", "mean-correlation"]
CASE_TIMEOUT = 120
TRANSFER = ["EH", "EH_NoBAO", "BBKS", "BondEfs"]


def cases(rng, tier):
    q = tier == "quick"
    out = [dict(kind="power", rep=i) for i in range(120 if q else 1200)]
    out += [dict(kind="corr", rep=i, cost=2) for i in range(80 if q else 800)]
    out += [dict(kind="scale", rep=i, cost=2) for i in range(90 if q else 900)]
    out += [dict(kind="options", rep=i, cost=3) for i in range(30 if q else 250)]
    return out


def draw(rng, wdm=None):
    kw = dict(transfer_model=G.pick(rng, TRANSFER), dlnk=G.pick(rng, [0.03, 0.05, 0.07]), dlog10m=0.2, dr_table=G.pick(rng, [0.03, 0.05]),
              z=G.pick(rng, [0.0, 0.0, 0.4, 1.0, 2.3, 4.0]), n=G.U(rng, 0.85, 1.1), sigma_8=G.U(rng, 0.55, 1.05),
              cosmo_params=dict(Om0=G.U(rng, 0.2, 0.45), H0=G.U(rng, 55, 80), Ob0=G.U(rng, 0.03, 0.06)), takahashi=bool(rng.random() < 0.6))
    if rng.random() < 0.4:
        kw.update(lnk_min=G.U(rng, -13, -7.5), lnk_max=G.U(rng, 6, 10))
    if rng.random() < 0.3:
        kw["growth_model"] = "Carroll1992"
    if rng.random() < 0.2:
        kw["cosmo_model"] = G.pick(rng, ["Planck15", "WMAP9", "Planck13"])
    if rng.random() < 0.5:
        kw["hc_spectrum"] = G.pick(rng, ["nonlinear", "filtered-lin", "filtered-nl"])
    kw.update(rmin=G.U(rng, 0.01, 0.1), rmax=G.U(rng, 20, 200), rnum=int(rng.integers(3, 12)), rlog=bool(rng.random() < 0.7))
    return kw


def make(cname, kw, rng, mon):
    """A model with these parameters: built, or reached from others."""
    if cname.endswith("WDM"):
        kw.setdefault("wdm_mass", G.U(rng, 0.3, 5))
    klass = G.model_class(cname)
    if rng.random() < 0.5:
        return G.build(klass, kw)
    far = draw(rng)
    start = {k: v for k, v in kw.items()}
    for k in ("z", "n", "sigma_8", "cosmo_params", "transfer_model", "takahashi", "rmin"):
        if rng.random() < 0.6:
            start[k] = far[k]
    hm = G.build(klass, start)
    for n in ("power", "nonlinear_power", "linear_power_fnc", "nonlinear_power_fnc", "corr_linear_mm", "corr_halofit_mm_fnc"):
        if rng.random() < 0.5:
            getattr(hm, n)
    G.update(hm, {k: kw[k] for k in start if start[k] != kw[k]})
    return hm


def hmf_of(cname, kw):
    """hmf's own tables for these parameters."""
    import hmf
    from hmf.alternatives.wdm import MassFunctionWDM

    keys = ("transfer_model", "dlnk", "z", "n", "sigma_8", "cosmo_params", "takahashi", "lnk_min", "lnk_max", "growth_model", "cosmo_model", "wdm_mass")
    cls = MassFunctionWDM if cname.endswith("WDM") else hmf.MassFunction
    base = dict(lnk_min=DEFAULT["lnk_min"], lnk_max=DEFAULT["lnk_max"])
    return G.build(cls, {**base, **{k: kw[k] for k in keys if k in kw}})


DEFAULT = {}


def warmup():
    import halomod

    m = halomod.DMHaloModel(transfer_model="EH")
    DEFAULT.update(lnk_min=m.lnk_min, lnk_max=m.lnk_max)


def run(case, mon):
    rng = rng_for("c29", case["seed"])
    warnings.simplefilter("ignore")
    if not DEFAULT:
        warmup()
    with np.errstate(all="ignore"):
        globals()["run_" + case["kind"]](case, mon, rng)


CLASSES = ["DM", "Tracer", "DM", "WDM", "TracerWDM", "Projected"]


def run_power(case, mon, rng):
    cname = CLASSES[case["rep"] % 6]
    kw = draw(rng)
    hm = make(cname, kw, rng, mon)
    ctx = dict(kw=kw, cls=cname)
    ref = hmf_of(cname, kw)
    k = np.array(ref.k)
    mon.close("hmf", hm.k, k, rtol=1e-12, key=f"k|{cname}", **ctx)
    warm = cname.endswith("WDM")
    for lab, fn, tab in (("linear", hm.linear_power_fnc, np.array(ref.power)), ("nonlinear", hm.nonlinear_power_fnc, np.array(ref.nonlinear_power))):
        key = f"{lab}|{'warm' if warm else 'cold'}"
        ok = np.isfinite(tab)
        mon.close("hmf", (hm.power if lab == "linear" else hm.nonlinear_power), tab, rtol=1e-9, atol=1e-300, key=key, **ctx)
        if not ok.all():
            mon.note(f"{lab} table undefined")
            continue
        mon.close("tabulated", fn(k), tab, rtol=1e-8, atol=1e-13 * tab.max(), key=key, **ctx)
        i = int(rng.integers(len(k)))
        mon.close("tabulated", fn(float(k[i])), tab[i], rtol=1e-8, atol=1e-13 * tab.max(), key=key + "|scalar", **ctx)
        # primordial below the table
        x = k[0] * 10 ** -np.sort(rng.uniform(0.01, 6, 5))[::-1]
        mon.close("below", fn(x), tab[0] * (x / k[0]) ** kw["n"], rtol=1e-8, key=key, **ctx)
        # the final slope above it
        if not warm:
            lx, ly = np.log(k[-10:]), np.log(tab[-10:])
            s = np.polyfit(lx, ly, 1)
            y = k[-1] * 10 ** rng.uniform(0.01, 3, 5)
            mon.close("above", fn(y), np.exp(np.polyval(s, np.log(y))), rtol=2e-2, key=key, **ctx)
        # between the wavenumbers: hmf on a grid eight times as fine
        if lab == "linear":
            fine = hmf_of(cname, {**kw, "dlnk": kw["dlnk"] / 8})
            q = np.array(fine.k)
            norm = np.interp(np.log(k[5:-5]), np.log(q), np.log(np.array(fine.power))) - np.log(tab[5:-5])
            norm = np.median(norm)
            sel = rng.choice(np.flatnonzero((q > k[2]) & (q < min(k[-3], 30.0))), 40)
            want = np.array(fine.power)[sel] * np.exp(-norm)
            mon.close("between", fn(q[sel]), want, rtol=1e-2, atol=1e-9 * tab.max(), key=key, **ctx)
    # the amplitude of fluctuations in spheres of 8 Mpc/h today
    x = np.exp(np.linspace(np.log(1e-6), np.log(200.0), 60000))
    w = 3 * (np.sin(8 * x) - 8 * x * np.cos(8 * x)) / np.maximum((8 * x) ** 3, 1e-300)
    w[8 * x < 1e-2] = 1 - (8 * x[8 * x < 1e-2]) ** 2 / 10
    s8 = np.sqrt(np.trapezoid(x**3 * hm.linear_power_fnc(x) * w**2, np.log(x)) / (2 * np.pi**2))
    if not warm:
        mon.close("sigma8", s8, kw["sigma_8"] * gf(hm), rtol=5e-3, key="cold", **ctx)
    else:
        mon.check("sigma8", s8 <= kw["sigma_8"] * gf(hm) * 1.005, key="warm", msg=f"{s8}", **ctx)
    # on the largest scales nothing is nonlinear
    x = np.array([1e-4, 5e-4, 2e-3])
    mon.close("nonlinear-limit", hm.nonlinear_power_fnc(x), hm.linear_power_fnc(x), rtol=3e-2, key="large scales", **ctx)


def run_corr(case, mon, rng):
    cname = CLASSES[case["rep"] % 6]
    kw = draw(rng)
    hm = make(cname, kw, rng, mon)
    ctx = dict(kw=kw, cls=cname)
    r = np.concatenate([10 ** rng.uniform(-0.5 if cname.endswith("WDM") else -1.1, 0.3, 3), 10 ** rng.uniform(0.3, 1.8, 3), 10 ** rng.uniform(1.8, 2.1, 1)])
    ref = hmf_of(cname, kw)
    warm = cname.endswith("WDM")
    for lab, fn, arr, tab in (("linear", hm.corr_linear_mm_fnc, hm.corr_linear_mm, np.array(ref.power)),
                              ("nonlinear", hm.corr_halofit_mm_fnc, hm.corr_halofit_mm, np.array(ref.nonlinear_power))):
        key = f"{lab}|{'warm' if warm else 'cold'}"
        mon.close("array", arr, fn(hm.r), rtol=1e-12, atol=1e-300, key=key, **ctx)
        if not (tab > 0).all():
            mon.note(f"{lab} table has zeros")
            continue
        # an independent interpolation of hmf's table, primordial below and a power law above
        lk, lp = np.log(np.array(ref.k)), np.log(tab)
        top = np.polyfit(lk[-10:], lp[-10:], 1)[0]

        def power(q, lk=lk, lp=lp, top=top, n=kw["n"]):
            y = np.log(q)
            out = np.interp(y, lk, lp)
            out = np.where(y < lk[0], lp[0] + n * (y - lk[0]), out)
            return np.exp(np.where(y > lk[-1], lp[-1] + top * (y - lk[-1]), out))

        want = transform(power, r, damp=500.0)
        # (the nodes of the quadrature miss some of the acoustic oscillations between 2 and 9 Mpc/h)
        mon.close("transform", fn(r), want, rtol=0, atol=ATOL + np.where((r > 2) & (r < 9), 6e-2, 4e-2 if warm else 2e-2) * np.abs(want), key=key, **ctx)
        # the mean correlation in a sphere is an integral over the spectrum that does not oscillate to first order
        R = 10 ** rng.uniform(-0.5, 1.5)
        s = np.linspace(0, 1, 4001)[1:]
        mean = 3 * np.trapezoid(s**2 * fn(R * s), s)
        x = np.exp(np.linspace(np.log(1e-5), np.log(3e3 / R), 60000))
        z = x * R
        w = np.where(z < 1e-2, 1 - z**2 / 10, 3 * (np.sin(z) - z * np.cos(z)) / np.maximum(z, 1e-9) ** 3)
        mw = np.trapezoid(x**3 * power(x) * w, np.log(x)) / (2 * np.pi**2)
        mon.close("mean-correlation", mean, mw, rtol=1.5e-2, atol=ATOL, key=key, **ctx)
        # beyond the internal table
        lo, hi = np.array([3e-4, 6e-4]), np.array([1e4, 1e5])
        v = fn(np.concatenate([lo, hi]))
        mon.check("corr-range", np.isfinite(v).all() and (warm or (v[:2] >= 0.5 * fn(np.array([5e-3]))).all()) and (np.abs(v[2:]) < 1e-3).all(), key=key, msg=str(v), **ctx)


ATOL = 2e-4


def run_scale(case, mon, rng):
    """Amplitude, growth and index of otherwise equal models."""
    cname = CLASSES[case["rep"] % 6]
    warm = cname.endswith("WDM")
    kw = draw(rng)
    if warm:
        kw["wdm_mass"] = G.U(rng, 0.5, 5)
    what = ["amplitude", "growth", "index"][case["rep"] // 6 % 3]
    a = make(cname, kw, rng, mon)
    ctx = dict(kw=kw, cls=cname)
    x = 10 ** rng.uniform(-7, 3, 12)
    r = 10 ** rng.uniform(-2, 2.2, 8)
    A, C = a.linear_power_fnc(x), a.corr_linear_mm_fnc(r)
    if what == "amplitude":
        f = G.pick(rng, [2.0, 0.5, 1.3])
        b = make(cname, {**kw, "sigma_8": kw["sigma_8"] * np.sqrt(f)}, rng, mon)
        mon.close("amplitude", b.linear_power_fnc(x), f * A, rtol=1e-6, atol=1e-11 * A.max(), key=cname, **ctx)
        mon.close("corr-amplitude", b.corr_linear_mm_fnc(r), f * C, rtol=1e-3, atol=2e-5, key=cname, **ctx)
        mon.check("corr-amplitude", not np.allclose(a.corr_halofit_mm_fnc(r[:1] * 0 + 1.0), b.corr_halofit_mm_fnc(r[:1] * 0 + 1.0), rtol=1e-3), key="nonlinear", msg="same", **ctx)
    elif what == "growth":
        z2 = G.pick(rng, [0.0, 0.7, 1.5, 3.0])
        b = make(cname, {**kw, "z": z2}, rng, mon)
        d = growth(a, z2) / growth(a, kw["z"])
        tol = 1.5e-2
        mon.close("growth", b.linear_power_fnc(x), d**2 * A, rtol=tol, atol=1e-11 * A.max(), key=cname, z2=z2, **ctx)
        # exactly the growth factor the model reports
        g = gf(b) / gf(a)
        mon.close("growth", b.linear_power_fnc(x), g**2 * A, rtol=1e-7, atol=1e-11 * A.max(), key=f"own|{cname}", z2=z2, **ctx)
        mon.close("corr-growth", b.corr_linear_mm_fnc(r), g**2 * C, rtol=1e-3, atol=2e-5, key=cname, z2=z2, **ctx)
    else:
        n2 = G.U(rng, 0.85, 1.1)
        b = make(cname, {**kw, "n": n2}, rng, mon)
        kk = np.array(a.k)
        x = np.exp(rng.uniform(np.log(kk[0]) - 5, np.log(min(kk[-1], 20.0)), 12))
        q = b.linear_power_fnc(x) / a.linear_power_fnc(x)
        # the transfer function of warm matter cuts off by many decades
        ok = a.linear_power_fnc(x) > 1e-9 * a.power.max() if warm else np.ones(len(x), bool)
        s = np.log(q[ok]) - (n2 - kw["n"]) * np.log(x[ok])
        mon.close("index", s, np.median(s) + 0 * s, rtol=0, atol=3e-4, key=cname, n2=n2, **ctx)


def growth(m, z):
    """Linear growth in a universe of matter and a cosmological constant, with the model's densities."""
    c = m.cosmo
    a = np.linspace(1e-4, 1 / (1 + z), 4000)
    e = c.efunc(1 / a - 1)
    return float(e[-1] * np.trapezoid(1 / (a * e) ** 3, a))


def run_options(case, mon, rng):
    """What haloes and tracers are does not matter to the matter itself."""
    kw = {**G.draw(rng, "tracer", grid="light"), **draw(rng)}
    for k in ("mdef_model", "mdef_params", "disable_mass_conversion"):
        kw.pop(k, None)
    a = G.build(G.model_class("Tracer"), {**{k: v for k, v in draw(rng).items() if k == "rmin"}, **kw})
    ref = G.build(G.model_class("DM"), {k: kw[k] for k in draw(rng) if k in kw} | {k: kw[k] for k in ("lnk_min", "lnk_max", "growth_model", "cosmo_model", "hc_spectrum") if k in kw})
    names = ["corr_linear_mm", "corr_halofit_mm", "power", "nonlinear_power"]
    fns = ["linear_power_fnc", "nonlinear_power_fnc", "corr_linear_mm_fnc", "corr_halofit_mm_fnc"]
    if rng.random() < 0.6:
        for n in ("corr_auto_tracer", "power_2h_auto_tracer", "mean_tracer_den", "halo_bias"):
            if rng.random() < 0.5:
                G.read(a, n)
    if rng.random() < 0.6:
        cur = dict(kw)
        for _ in range(int(rng.integers(1, 4))):
            w = G.pick(rng, ["profile", "conc", "bias", "hod", "hod_params", "tprofile", "excl", "hc_spectrum", "turnover", "unity", "sd", "kgrid"])
            for up in G.draw_update(rng, cur, "tracer", which=w):
                try:
                    G.update(a, up)
                except Exception as e:  # noqa: BLE001
                    mon.note(f"update rejected: {type(e).__name__}")
                    return
                cur = G.merge(cur, up)
                if rng.random() < 0.4:
                    G.read(a, "corr_halofit_mm")
    for n in names + fns:
        why = G.differ(G.read(a, n), G.read(ref, n), 1e-10)
        mon.check("halo-options", not why, key=n, msg=why, kw=kw)


def gf(m):
    return float(np.ravel(m.growth_factor)[0])
