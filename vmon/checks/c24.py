"""C24: warm dark matter models against cold ones, against their own mass budget and against the documented sums."""
from __future__ import annotations

import copy
import warnings

import numpy as np
from scipy.interpolate import CubicSpline

from ..core import rng_for
from . import modelgen as G
from .refint import transform

PROPERTY = "C24"
RULE = ("Random warm models of every class (particle mass, transfer and recalibration models, redshift, profiles, concentrations, occupation) are observed: with "
        "very heavy particles against the cold model of the same parameters, at any mass against their own mass budget, dense mass integrals of the documented "
        "halo-halo, halo-smooth and smooth-smooth sums, and the documented suppression of the base concentration, also after changes of the particle mass.")
REQUIRED = ["cold-limit", "cold-approach", "fraction", "budget", "hh", "sh", "ss", "weighted-sum", "bias-budget", "concentration", "concentration-model",
            "concentration-update", "suppression", "half-mode", "matter-function"]
CASE_TIMEOUT = 150
RESCALABLE = ["Bullock01", "Bullock01Power", "Maccio07", "Duffy08", "Zehavi11", "Ludlow16", "Ludlow16Empirical"]
ONLY_WARM = {"f_halos", "bias_smooth", "mean_density_halos", "mean_density_smooth", "power_auto_matter", "power_auto_matter_hh", "power_auto_matter_sh",
             "power_auto_matter_ss", "wdm_mass", "power_auto_matter_fnc", "corr_auto_matter", "corr_auto_matter_fnc"}


def cases(rng, tier):
    k = 3 if tier == "quick" else 9
    out = []
    for i in range(12 * k):
        out.append(dict(kind="cold", cls=["WDM", "TracerWDM", "ProjectedWDM"][i % 3], rep=i, cost=5))
    for i in range(50 * k):
        out.append(dict(kind="budget", rep=i, cost=2))
    for i in range(30 * k):
        out.append(dict(kind="concentration", rep=i, cost=1))
    for i in range(24 * k):
        out.append(dict(kind="model", cls=["WDM", "TracerWDM", "ProjectedWDM"][i % 3], rep=i, cost=2))
    for i in range(14 * k):
        out.append(dict(kind="suppression", rep=i, cost=2))
    return out


def run(case, mon):
    rng = rng_for("c24", case["seed"])
    warnings.simplefilter("ignore")
    globals()["run_" + case["kind"]](case, mon, rng)


def draw(rng, cls="WDM", grid="light", **k):
    kind = "dm" if cls == "WDM" else "tracer"
    kw = G.draw(rng, kind, grid=grid, inf=False, masks=False, **k)
    if cls == "ProjectedWDM":
        for q in ("rmin", "rmax", "rlog"):
            kw.pop(q, None)
        kw.update(rnum=30, rp_min=0.2, rp_max=15.0, rp_num=5)
    return kw


def warm(rng):
    out = {}
    if rng.random() < 0.3:
        out["wdm_model"] = "Bode01"
    if rng.random() < 0.25:
        out["wdm_params"] = dict(mu=G.U(rng, 1.0, 1.3))
    if rng.random() < 0.4:
        out["alter_model"] = G.pick(rng, ["Schneider12_vCDM", "Schneider12", "Lovell14"])
    return out


def cold_class(cls):
    return G.model_class(cls.replace("WDM", "") or "DM")


def try_build(mon, cls, kw, need="dndm"):
    try:
        m = G.build(cls, kw)
        getattr(m, need)
        return m
    except Exception as e:  # noqa: BLE001
        mon.note(f"base rejected: {type(e).__name__}")
        return None


def run_cold(case, mon, rng):
    cls = case["cls"]
    kw = draw(rng, cls, sdbias=True, exclusion=True)
    C = try_build(mon, cold_class(cls), kw)
    if C is None:
        return
    names = [n for n in G.names(cold_class(cls)) if n not in ONLY_WARM]
    tracer = cls != "WDM"
    want = G.snapshot(C, names, tracer)
    add = warm(rng)
    dist = {}
    for mx in (3e1, 3e3, 3e5):
        W = G.build(G.model_class(cls), dict(kw, wdm_mass=mx, **add))
        got = G.snapshot(W, names, tracer)
        tot = 0.0
        for n in want:
            a, b = got[n], want[n]
            if isinstance(b, str) or b is None:
                mon.check("cold-limit", type(a) is type(b) and (a is None or a == b), key=f"{cls}|{n}", msg=f"{a!r:.60} vs {b!r:.60}", kw=kw, add=add)
                continue
            if isinstance(a, str) or a is None or a.shape != b.shape:
                mon.check("cold-limit", False, key=f"{cls}|{n}", msg=f"{G._show(a)} vs {G._show(b)}", kw=kw, add=add)
                continue
            fin = np.isfinite(b)
            if not fin.any():
                continue
            scale = np.abs(b[fin]).max() or 1.0
            err = np.abs(a - b)[fin] / (np.abs(b[fin]) + 1e-4 * scale)
            tot = max(tot, float(err.max()) if n.startswith(("power", "corr")) and "1h" not in n else 0.0)
            if mx == 3e5:
                mon.close("cold-limit", a[fin], b[fin], rtol=2e-3, atol=1e-6 * scale, key=f"{cls}|{n}", msg=f"{n}:", kw=kw, add=add)
        dist[mx] = tot
    mon.check("cold-approach", dist[3e5] <= dist[3e3] + 1e-6 and dist[3e3] <= dist[3e1] + 1e-4, key=cls, msg=str(dist), kw=kw)


def run_budget(case, mon, rng):
    """The mass split and the documented sums."""
    kw = draw(rng, "WDM", grid="medium", exclusion=False, sdbias=False)
    kw.update(hc_spectrum=G.pick(rng, ["linear", "nonlinear"]), wdm_mass=float(f"{10 ** rng.uniform(-0.9, 1.5):.4g}"), **warm(rng))
    if rng.random() < 0.5:
        kw["Mmin"] = G.U(rng, 5, 10)
    cls = G.model_class("WDM")
    hm = try_build(mon, cls, kw)
    if hm is None:
        return
    if rng.random() < 0.4:
        hm.power_auto_matter
        new = dict(wdm_mass=float(f"{10 ** rng.uniform(-0.9, 1.5):.4g}"))
        kw.update(new)
        G.update(hm, new)
    p = kw["halo_profile_model"]
    key = f"{p}"
    m, d = np.array(hm.m), np.array(hm.dndm)
    rho = hm.cosmo.Om0 * 2.77536627e11
    mon.close("fraction", hm.mean_density0, rho, rtol=1e-3, key="comoving")
    f = float(hm.f_halos)
    # dense mass integral, plus what lies above the last mass
    if not (np.isfinite(d).all() and d[0] > 0 and np.isfinite(hm.halo_bias).all()):
        mon.note("mass function undefined")
        return
    x = np.log(m)
    pos = d > 0
    X = np.linspace(x[pos][0], x[pos][-1], 20 * len(x))
    D = np.exp(CubicSpline(x[pos], np.log(d[pos]))(X))
    M = np.exp(X)
    # (the recalibrated mass functions are corrected at small masses where they become steep)
    mine = np.trapezoid(D * M**2, X) / rho
    tail = D[-1] * M[-1] ** 2 / rho * 1.2
    mon.check("fraction", 0 < f <= 1.01 + tail, key="range", msg=f"f_halos {f}", kw=kw)
    mon.close("fraction", f, mine, rtol=5e-3, atol=tail, key="integral", kw=kw)
    mon.close("budget", hm.mean_density_halos, f * hm.mean_density0, rtol=1e-9, key="halos")
    mon.close("budget", hm.mean_density_halos + hm.mean_density_smooth, rho, rtol=1e-3, key="total", kw=kw)
    b = float(hm.bias_effective_matter)
    bs = float(hm.bias_smooth)
    if not (abs(b) < 30 and abs(bs) < 30):
        # (formulas of the bias diverge at extremely rare peaks)
        mon.note("bias out of range")
        return
    if abs(1 - f) > 1e-3:
        mon.close("bias-budget", f * b + (1 - f) * bs, 1.0, rtol=1e-8, key="", kw=kw)
    # the halo bias averaged over haloes, by dense integral
    B = CubicSpline(x, np.array(hm.halo_bias))(X)
    beff = np.trapezoid(D * M**2 * B, X) / np.trapezoid(D * M**2, X)
    if not np.trapezoid(D * M**2 * np.abs(B), X) / np.trapezoid(D * M**2, X) < 30:
        mon.note("bias out of range")
        return
    if kw.get("force_unity_dm_bias", True):
        mon.close("bias-budget", b, 1.0, rtol=1e-12, key="unity")
    else:
        mon.close("bias-budget", b, beff, rtol=1e-2, atol=5 * tail, key="average", kw=kw)
    k = np.array(hm.k_hm)
    lin = (hm.nonlinear_power_fnc if kw["hc_spectrum"] == "nonlinear" else hm.linear_power_fnc)(k)
    c = np.asarray(hm.halo_concentration.cm(M, hm.z))
    if not (np.isfinite(c) & (c > 0)).all():
        # (no mass has collapsed at this redshift: the concentration of a halo is undefined)
        mon.note("concentration undefined")
        return
    u = hm.halo_profile.u(k, M, c=c)
    ringing = p == "Constant"
    w = D * M**2 * B * u
    pch = np.trapezoid(w, X, axis=-1) / (f * rho)
    coarse = 8e-3
    mag = np.trapezoid(np.abs(w), X, axis=-1) / (f * rho) * np.abs(bs) * lin
    mon.close("ss", hm.power_auto_matter_ss, bs**2 * lin, rtol=1e-6, key=key, kw=kw)
    mon.close("sh", hm.power_auto_matter_sh, bs * lin * pch, rtol=0, atol=coarse * mag * (8 if ringing else 1) + 1e-9 * mag.max(), key=key, kw=kw)
    p1, p2 = np.array(hm.power_1h_auto_matter), np.array(hm.power_2h_auto_matter)
    mon.close("hh", hm.power_auto_matter_hh, p1 / f**2 + p2, rtol=1e-9, key="sum|" + key, kw=kw)
    if not kw.get("force_1halo_turnover", True):
        one = np.trapezoid(D * M**3 * u**2, X, axis=-1) / rho**2
        low = k < (2 if ringing else 12)
        mon.close("hh", (np.array(hm.power_auto_matter_hh) - p2)[low] * f**2, one[low], rtol=1e-2, atol=1e-9 * one.max(), key="1-halo|" + key, kw=kw)
    full = (1 - f) ** 2 * bs**2 * lin + 2 * f * (1 - f) * np.asarray(hm.power_auto_matter_sh) + f**2 * np.asarray(hm.power_auto_matter_hh)
    mon.close("weighted-sum", hm.power_auto_matter, full, rtol=1e-9, atol=1e-12 * np.max(np.abs(full)), key=key, kw=kw)
    # parts recombined independently
    full = (1 - f) ** 2 * bs**2 * lin + 2 * f * (1 - f) * bs * lin * pch + p1 + f**2 * p2
    mon.close("weighted-sum", hm.power_auto_matter, full, rtol=1e-4, atol=2 * coarse * f * abs(1 - f) * mag * (12 if ringing else 2.5) + 1e-12 * np.max(np.abs(full)),
              key="independent|" + key, kw=kw)
    total = np.array(hm.power_auto_matter)
    mon.close("matter-function", hm.power_auto_matter_fnc(k), total, rtol=1e-3, atol=1e-4 * np.abs(total).max() * ringing, key="power_auto_matter_fnc", kw=kw)
    # the correlation of all matter, smooth and clumped
    if not ringing:
        r = np.array([0.4, 1.5, 5.0, 15.0, 40.0])
        one = hm.power_1h_auto_matter_fnc
        sm = transform(lambda q: hm.power_auto_matter_fnc(q) - one(q), r, damp=1000.0)
        got = np.array(hm.corr_auto_matter_fnc(r)) - np.array(hm.corr_1h_auto_matter_fnc(r)) - 1
        mon.close("matter-function", got, sm, rtol=1e-2, atol=1e-3 + 3e-3 * np.abs(sm).max(), key="corr_auto_matter", kw=kw)


def rescaled(base, par, mhm, m, z):
    g1, g2, b0, b1 = (par.get(q, v) for q, v in (("g1", 60), ("g2", 0.17), ("beta0", 0.026), ("beta1", 0.04)))
    return base * (1 + g1 * mhm / m) ** (-g2) * (1 + z) ** (b0 * z - b1)


def pars(rng, name):
    own = {q: G.U(rng, *r) for q, r in dict(g1=(10, 90), g2=(0.05, 0.4), beta0=(0.0, 0.06), beta1=(0.0, 0.1)).items() if rng.random() < 0.5}
    base = G.jitter(rng, G.CM_PAR[name]) if rng.random() < 0.5 else {}
    return base, own


def run_concentration(case, mon, rng):
    """The relation on its own."""
    import halomod.concentration as HC
    from halomod.wdm import CMRelationWDMRescaled

    name = RESCALABLE[case["rep"] % len(RESCALABLE)]
    if name.startswith("Ludlow"):
        name = "Duffy08"
    base, own = pars(rng, name)
    mhm = float(f"{10 ** rng.uniform(5, 12):.5g}")
    before = copy.deepcopy(getattr(HC, name)._defaults)
    cls = CMRelationWDMRescaled(name if rng.random() < 0.5 else name + "WDM")
    import halomod

    ref = halomod.DMHaloModel(**G.GRID["light"], z=0)
    o = ref.halo_concentration
    dep = dict(filter0=o.filter, growth=o.growth, delta_c=1.686)
    dep.update(cosmo=ref.halo_concentration.cosmo, mdef=ref.mdef, profile=ref.halo_profile)
    a = cls(m_hm=mhm, **dep, **base, **own)
    b = getattr(HC, name)(**dep, **base)
    mon.equal("concentration", getattr(HC, name)._defaults, before, key=f"{name}|defaults of the base relation")
    for z in (0, float(G.U(rng, 0, 3))):
        m = np.sort(10 ** rng.uniform(6, 15.5, 9))
        with np.errstate(all="ignore"):
            bb = np.asarray(b.cm(m, z))
            mon.close("concentration", a.cm(m, z), rescaled(bb, own, mhm, m, z), rtol=1e-9, key=name, own=own, base=base)
    one = a.cm(np.array([1e9]), 0.0)
    mon.close("concentration", a.cm(1e9, 0.0), one, rtol=1e-9, key=f"{name}|scalar")
    a.m_hm = 0.0
    mon.close("concentration", a.cm(m, 0.0), b.cm(m, 0.0), rtol=1e-12, key=f"{name}|no suppression")


def run_model(case, mon, rng):
    """The relation inside models of every class."""
    cls = case["cls"]
    kw = draw(rng, cls, sdbias=False, exclusion=False)
    i = case["rep"] // 3
    name = RESCALABLE[i % len(RESCALABLE)]
    if name == "Ludlow16":
        kw["halo_profile_model"] = "NFW"
        kw["halo_profile_params"] = {}
        kw.pop("tracer_profile_model", None), kw.pop("tracer_profile_params", None)
    base, own = pars(rng, name)
    kw["halo_concentration_model"] = name
    kw["halo_concentration_params"] = base
    kw["wdm_mass"] = float(f"{10 ** rng.uniform(-0.8, 1.2):.4g}")
    kw.update({k: v for k, v in warm(rng).items() if k != "alter_model"})
    where = "tracer" if cls != "WDM" and rng.random() < 0.5 else "halo"
    if where == "tracer":
        kw["halo_concentration_model"], kw["halo_concentration_params"] = "Duffy08", {}
        kw["tracer_concentration_model"], kw["tracer_concentration_params"] = name, base
    else:
        kw.pop("tracer_concentration_model", None), kw.pop("tracer_concentration_params", None)
    klass = G.model_class(cls)
    B = try_build(mon, klass, kw, "cmz_relation")
    if B is None:
        return
    key = f"{cls}|{where}"
    with mon.guard("concentration-model", key=key + "|build", kw=kw):
        W = G.build(klass, {**kw, f"{where}_concentration_model": name + "WDM", f"{where}_concentration_params": {**base, **own}})

        def cm(model):
            return np.asarray(getattr(model, f"{where}_concentration").cm(np.array(model.m), model.z))

        def judge(clause):
            mhm = float(W.wdm.m_hm)
            want = rescaled(cm(B), own, mhm, np.array(B.m), B.z)
            mon.close(clause, cm(W), want, rtol=1e-6, key=key, kw=kw, own=own)
            # (relations may bound the concentration from below; the attribute is the same function)
            rel = "cmz_relation" if where == "halo" else "tracer_cmz_relation"
            mon.close(clause, getattr(W, rel), want, rtol=1e-6, key=key + "|" + rel, kw=kw, own=own)
            return mhm

        mhm = judge("concentration-model")
        if rng.random() < 0.5:
            W.power_1h_auto_matter
        new = dict(wdm_mass=round(kw["wdm_mass"] * float(rng.choice([0.5, 2.0, 5.0])), 5))
        if rng.random() < 0.3:
            new["z"] = 0.7
        G.update(W, new)
        G.update(B, new)
        after = judge("concentration-update")
        if "z" not in new:
            mon.check("half-mode", (after < mhm) == (new["wdm_mass"] > kw["wdm_mass"]), key=key, msg=f"{mhm} {after}")


def run_suppression(case, mon, rng):
    """Lighter particles: less small-scale power, fewer small haloes, larger half-mode mass, by the documented scalings."""
    kw = draw(rng, "WDM", exclusion=False, sdbias=False)
    kw["Mmin"] = 7
    kw["transfer_model"] = "EH"
    mx = sorted({float(f"{10 ** x:.4g}") for x in rng.uniform(-0.7, 1.3, 4)})
    C = try_build(mon, G.model_class("DM"), kw)
    if C is None:
        return
    last = None
    for q in mx:
        W = G.build(G.model_class("WDM"), dict(kw, wdm_mass=q))
        if not np.isfinite(W.dndm).all():
            mon.note("mass function undefined")
            return
        h, om = W.cosmo.h, W.cosmo.Om0 - W.cosmo.Ob0
        # Viel et al. 2005; the transfer function squared
        nu = 1.12
        lam = 0.049 * q**-1.11 * ((om) / 0.25) ** 0.11 * (h / 0.7) ** 1.22
        k = np.array(C.k)
        T = (1 + (lam * k) ** (2 * nu)) ** (-10 / nu)
        ratio = np.array(W.power) / np.array(C.power)
        # (normalised to the same sigma_8)
        s = ratio[0]
        good = T > 1e-12
        if good.sum() > 3:
            mon.close("suppression", np.log(ratio / s)[good], np.log(T)[good], rtol=0.02, atol=5e-3, key="transfer", kw=kw, mx=q)
        mon.check("suppression", s >= 1 - 1e-6 and (ratio / s <= 1 + 1e-9).all(), key="never enhanced", msg=f"{s} {ratio.max()}", mx=q)
        mhm = 4 * np.pi / 3 * W.mean_density0 * (lam * (2 ** (nu / 5) - 1) ** (-0.5 / nu) * np.pi) ** 3
        mon.close("half-mode", np.log(W.wdm.m_hm), np.log(mhm * (1 + W.z) ** 3), atol=0.3, key="scale", mx=q)
        n = np.array(W.dndm)[:10] / np.array(C.dndm)[:10]
        if last is not None:
            mon.check("half-mode", W.wdm.m_hm < last[0], key="falls with mass")
            mon.check("suppression", W.power[-1] >= last[1] * (1 - 1e-9), key="small scales", mx=mx)
        last = (W.wdm.m_hm, W.power[-1], n)
