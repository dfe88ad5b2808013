"""C06: halo sizes and components follow the model's own mass definition, cosmology, redshift and grid."""
from __future__ import annotations

import copy
import warnings

import numpy as np

from ..core import rng_for
from . import modelgen as G

PROPERTY = "C06"
RULE = ("(1) Profiles built by hand with random mass definitions, cosmologies and redshifts: radius<->mass inverse, enclosed overdensity against closed-form "
        "overdensities and densities.  (2) Random models of every class, also after random updates: every component and the quantities it feeds are compared "
        "with the same component built by hand from an independently built mass function with the reported parameters.")
REQUIRED = ["inverse", "overdensity", "component-radius", "concentration", "bias", "profile", "tracer-profile", "tracer-concentration", "hod",
            "grid", "scale-radius", "derived", "after-update", "colossus"]
CASE_TIMEOUT = 120


def cases(rng, tier):
    k = 3 if tier == "quick" else 12
    out = [dict(kind="geometry", rep=i, cost=0.3) for i in range(60 * k)]
    out += [dict(kind="model", cls=["Tracer", "Tracer", "DM", "Projected"][i % 4], rep=i, cost=3) for i in range(40 * k)]
    out += [dict(kind="solver", rep=i, cost=3) for i in range(24 * k)]
    return out


def run(case, mon):
    rng = rng_for("c06", case["seed"])
    warnings.simplefilter("ignore")
    globals()[f"run_{case['kind']}"](case, mon, rng)


def run_solver(case, mon, rng):
    """A relation that is solved with the density profile, for haloes and tracers with profiles and parameters of their own."""
    kw = G.draw(rng, "tracer", grid="light", masks=True, exclusion=False, sdbias=False, rich=0.3)
    for k in [k for k in kw if k.startswith(("tracer_profile", "tracer_conc", "halo_profile", "halo_conc"))]:
        kw.pop(k)
    kw["dlog10m"] = 0.25
    shapes = ["GeneralizedNFW", "Einasto", "NFW", "Hernquist"]
    for side in ("halo", "tracer"):
        if side == "halo" or rng.random() < 0.7:
            pn = G.pick(rng, shapes[:2] if rng.random() < 0.7 else shapes)
            if side == "tracer" and rng.random() < 0.4:
                pn = kw["halo_profile_model"]
            par = G.profile_params(rng, pn, p=0.8)
            if side == "tracer" and rng.random() < 0.4:
                par = dict(use_interp=False) if pn == "Einasto" else {}
            kw[f"{side}_profile_model"], kw[f"{side}_profile_params"] = pn, par
    which = case["rep"] % 3
    if which != 1:
        kw["halo_concentration_model"] = "Ludlow16"
        if rng.random() < 0.5:
            kw["halo_concentration_params"] = G.jitter(rng, G.CM_PAR["Ludlow16"])
    if which != 0:
        kw["tracer_concentration_model"] = "Ludlow16"
        if rng.random() < 0.5:
            kw["tracer_concentration_params"] = G.jitter(rng, G.CM_PAR["Ludlow16"])
    try:
        hm = G.build(G.model_class("Tracer"), kw)
        hm.dndm
    except Exception as e:  # noqa: BLE001
        mon.note(f"base rejected: {type(e).__name__}")
        return
    judge(mon, hm, kw, only_conc=True)
    up = None
    for side in ("tracer", "halo"):
        if kw.get(f"{side}_profile_params"):
            up = {f"{side}_profile_params": {k: v if isinstance(v, bool) else v * 1.1 for k, v in kw[f"{side}_profile_params"].items()}}
            break
    if up:
        kw = G.merge(kw, up)
        G.update(hm, up)
        judge(mon, hm, kw, "after-update", only_conc=True)


def density_of(name, par, c, z):
    """Overdensity of a definition with respect to the mean matter density at z (closed forms)."""
    om = c.Om0 * (1 + z) ** 3 / (c.H(z).value / c.H0.value) ** 2
    if name == "SOMean":
        return par.get("overdensity", 200)
    if name == "SOCritical":
        return par.get("overdensity", 200) / om
    if name == "SOVirial":
        x = om - 1
        return (18 * np.pi**2 + 82 * x - 39 * x**2) / om
    if name == "FOF":
        return 9.0 / (2 * np.pi * par.get("linking_length", 0.2) ** 3)
    raise KeyError(name)


def rho_mean0(c):
    """Comoving mean matter density in Msun h^2 / Mpc^3."""
    return 2.77536627e11 * c.Om0


def run_geometry(case, mon, rng):
    import halomod.profiles as P
    from astropy.cosmology import FlatLambdaCDM, LambdaCDM, w0waCDM
    from hmf.halos import mass_definitions as md

    om, h = float(rng.uniform(0.15, 0.6)), float(rng.uniform(55, 80))
    c = G.pick(rng, [FlatLambdaCDM(H0=h, Om0=om, Tcmb0=2.7), LambdaCDM(H0=h, Om0=om, Ode0=0.8 - 0.3 * om, Tcmb0=2.7), w0waCDM(H0=h, Om0=om, Ode0=1 - om, w0=-0.9, wa=0.1)])
    z = G.pick(rng, [0.0, 0.5, 1.3, 4.0])
    name, par = G.pick(rng, [("SOMean", dict(overdensity=float(rng.uniform(100, 900)))), ("SOCritical", dict(overdensity=float(rng.uniform(100, 900)))),
                             ("SOVirial", {}), ("FOF", dict(linking_length=float(rng.uniform(0.1, 0.4))))])
    prof = getattr(P, G.pick(rng, G.FAST_PROFILES + G.INF_PROFILES))
    cm = lambda m, z=0: 9 * (m / 1e12) ** -0.1
    import halomod.concentration as C
    from hmf import Cosmology

    rel = C.Bullock01Power(a=9.0, b=-0.1, ms=1e12) if "ms" in C.Bullock01Power._defaults else C.Duffy08()
    p = prof(cm_relation=rel, mdef=getattr(md, name)(**par), z=z, cosmo=c)
    m = 10 ** rng.uniform(8, 16, 5)
    for at_z in (False, True):
        r = p.halo_mass_to_radius(m, at_z=at_z)
        mon.close("inverse", p.halo_radius_to_mass(r, at_z=at_z), m, rtol=1e-12, key=f"{name}|at_z={at_z}")
        rr = 10 ** rng.uniform(-2, 1, 3)
        mon.close("inverse", p.halo_mass_to_radius(p.halo_radius_to_mass(rr, at_z=at_z), at_z=at_z), rr, rtol=1e-12, key=f"{name}|at_z={at_z}|r")
        # (H/H0)^2 of the cosmologies includes radiation, the definitions in hmf also: one per mil is far above both
        want = density_of(name, par, c, z) * rho_mean0(c) * ((1 + z) ** 3 if at_z else 1)
        mon.close("overdensity", m / (4 * np.pi / 3 * r**3), np.full(5, want), rtol=2e-3, key=f"{name}|at_z={at_z}", z=z, om=om)
        conc = np.asarray(rel.cm(m, z))
        mon.close("scale-radius", p.scale_radius(m, at_z=at_z), r / conc, rtol=1e-12, key=f"{name}|at_z={at_z}")
    mon.close("scale-radius", p.virial_velocity(m), p.virial_velocity(r=p.halo_mass_to_radius(m)), rtol=1e-12, key="virial velocity")
    mon.close("scale-radius", p.virial_velocity(m), np.sqrt(6.673e-11 * m / p.halo_mass_to_radius(m)), rtol=1e-9, key="virial velocity|law")


HMF_KEYS = ["Mmin", "Mmax", "dlog10m", "mdef_model", "mdef_params", "delta_c", "hmf_model", "hmf_params", "filter_model", "filter_params",
            "disable_mass_conversion", "z", "lnk_min", "lnk_max", "dlnk", "transfer_model", "transfer_params", "takahashi", "growth_model",
            "growth_params", "cosmo_model", "cosmo_params", "sigma_8", "n"]


def byhand(kw):
    """An independent mass function and the values the components have to be made of."""
    from hmf import Cosmology, MassFunction

    sub = {k: copy.deepcopy(v) for k, v in kw.items() if k in HMF_KEYS}
    mf = MassFunction(**sub)
    mf0 = MassFunction(**{**sub, "z": 0.0})
    f = copy.copy(mf0.filter)
    f.power = mf0.power
    return mf, f, Cosmology(cosmo_model=mf.cosmo)


def nu_of(mf):
    from scipy.interpolate import InterpolatedUnivariateSpline as S

    return lambda m: S(mf.m, mf.nu, k=5)(m)


def make_profile(kw, mf, which, cosmo, cm, conc=None):
    import halomod.profiles as P

    pre = "tracer" if which == "tracer" and kw.get("tracer_profile_model") else "halo"
    name = kw.get(f"{pre}_profile_model") or "NFW"
    par = kw.get(f"{pre}_profile_params") or {}
    if pre == "tracer" and not par and kw["tracer_profile_model"] == (kw.get("halo_profile_model") or "NFW"):
        par = kw.get("halo_profile_params") or {}
    return getattr(P, name)(cm_relation=cm, mdef=mf.mdef, z=mf.z, nu_fn=mf.nu_fn, **({"cosmo": cosmo} if cosmo is not None else {}), **par)


def make_conc(kw, mf, filt, C0, which):
    import halomod.concentration as C

    pre = "tracer" if which == "tracer" and kw.get("tracer_concentration_model") else "halo"
    name = kw.get(f"{pre}_concentration_model") or "Duffy08"
    par = kw.get(f"{pre}_concentration_params") or {}
    if pre == "tracer" and not par and name == (kw.get("halo_concentration_model") or "Duffy08"):
        par = kw.get("halo_concentration_params") or {}
    prof = make_profile(kw, mf, which if pre == "tracer" else "halo", mf.cosmo, None)
    return getattr(C, name)(filter0=filt, growth=mf.growth, delta_c=mf.delta_c, profile=prof, cosmo=C0, mdef=mf.mdef, sigma_8=mf.sigma_8, ns=mf.n, **par)


def judge(mon, hm, kw, clause0=None, only_conc=False):
    from astropy.cosmology import Planck15

    import halomod.bias as B
    import halomod.hod as H

    obs = (lambda c, k: mon.observe(clause0, f"{c}|{k}")) if clause0 else (lambda c, k: None)
    mf, filt, C0 = byhand(kw)
    tracer = "hod_model" in kw
    m = np.array(hm.m)
    for q in ("m", "dndm", "nu", "k", "power"):
        mon.close("grid", getattr(hm, q), getattr(mf, q), rtol=1e-8, atol=1e-300, key=q)
        obs("grid", q)
    z = mf.z
    mdn = kw.get("mdef_model")
    x = np.array([3e10, 2e12, 7e13, 4e14])
    ctx = dict(kw=kw)
    if mdn:
        want = density_of(mdn, kw.get("mdef_params") or {}, mf.cosmo, z)
        mon.close("overdensity", hm.halo_overdensity_mean, want, rtol=2e-3, key=f"model|{mdn}")
    delta = float(mf.halo_overdensity_mean)
    # concentrations
    sides = ["halo"] + (["tracer"] if tracer else [])
    for w in sides:
        c = make_conc(kw, mf, filt, C0, w)
        cl = "concentration" if w == "halo" else "tracer-concentration"
        name = type(c).__name__
        if name.startswith("Ludlow16") and not name.startswith("Ludlow16E") and type(hm.halo_profile if w == "halo" else hm.tracer_profile).__name__ == "Constant":
            mon.note("constant density has no solution of the Ludlow16 equations")
            return
        with np.errstate(all="ignore"):
            got = hm.cmz_relation if w == "halo" else hm.tracer_cmz_relation
            mon.close(cl, got, c.cm(m, z), rtol=1e-9, key=name, **ctx)
            rel = hm.halo_concentration if w == "halo" else hm.tracer_concentration
            for zz in (0.0, z, 0.77):
                mon.close(cl, rel.cm(x, zz), c.cm(x, zz), rtol=1e-9, key=f"{name}|object", **ctx)
        obs(cl, name)
        if only_conc:
            p = hm.halo_profile if w == "halo" else hm.tracer_profile
            with np.errstate(all="ignore"):
                mon.close(cl, p.cm_relation(x), c.cm(x, z), rtol=1e-9, key=f"{name}|in the profile", **ctx)
            continue
        # profile: with the cosmology of the model; the known deviation is exactly "the default cosmology was used"
        p = hm.halo_profile if w == "halo" else hm.tracer_profile
        own = make_profile(kw, mf, w, mf.cosmo, c)
        dft = make_profile(kw, mf, w, None, c)
        cl = "profile" if w == "halo" else "tracer-profile"
        pn = type(p).__name__
        mon.check(cl, type(p) is type(own) and p.params == own.params, f"{pn}|class and parameters", f"{p} {p.params} vs {own} {own.params}")
        got = p.halo_mass_to_radius(x)
        ref, tag = own, ""
        same = np.allclose(got, own.halo_mass_to_radius(x), rtol=1e-9)
        stale = not same and np.allclose(got, dft.halo_mass_to_radius(x), rtol=1e-9)
        if stale:
            ref, tag = dft, "|default cosmology instead of the model's"
        mon.close("component-radius", got, own.halo_mass_to_radius(x), rtol=1e-9, key=("halo" if stale else f"{w}|{pn}") + tag)
        if not stale:
            mon.close("component-radius", x / (4 * np.pi / 3 * got**3), np.full(4, delta * rho_mean0(mf.cosmo)), rtol=2e-3, key=f"{w}|overdensity")
        r, k = np.array([0.01, 0.1, 0.5]), np.array([0.1, 1.0, 8.0])
        mon.close(cl, p.scale_radius(x), ref.scale_radius(x), rtol=1e-8, key=f"{pn}|scale radius", **ctx)
        mon.close(cl, p.scale_radius(x, at_z=True), ref.scale_radius(x, at_z=True), rtol=1e-8, key=f"{pn}|scale radius at z", **ctx)
        mon.close(cl, p.rho(r, x), ref.rho(r, x), rtol=1e-8, key=f"{pn}|rho", **ctx)
        mon.close(cl, p.rho(r, x, norm="m"), ref.rho(r, x, norm="m"), rtol=1e-8, key=f"{pn}|rho m", **ctx)
        mon.close(cl, p.u(k, x), ref.u(k, x), rtol=1e-8, atol=1e-12, key=f"{pn}|u", **ctx)
        mon.close(cl, p.cm_relation(x), ref.cm_relation(x), rtol=1e-8, key=f"{pn}|cm", **ctx)
        obs(cl, pn)
        ukm = hm.halo_profile_ukm if w == "halo" else hm.tracer_profile_ukm
        mon.close("derived", ukm, ref.u(mf.k, m), rtol=1e-7, atol=1e-9, key=f"{w}|ukm", **ctx)
        rt = hm._r_table if hasattr(hm, "_r_table") else None
        if rt is not None:
            rho = hm.halo_profile_rho if w == "halo" else hm.tracer_profile_rho
            mon.close("derived", rho, ref.rho(rt, m, norm="m"), rtol=1e-7, atol=1e-300, key=f"{w}|rho", **ctx)
            lam = hm.halo_profile_lam if w == "halo" else hm.tracer_profile_lam
            if lam is not None:
                # the closed form of HernquistInf cancels at small radii
                mon.close("derived", lam, ref.lam(rt, m, norm="m"), rtol=1e-3 if pn == "HernquistInf" else 1e-7, atol=1e-30, key=f"{w}|lam", **ctx)
    if only_conc:
        return
    # bias
    bn = kw.get("bias_model", "Tinker10")
    args = dict(nu=mf.nu, delta_c=mf.delta_c, m=mf.m, mstar=mf.mass_nonlinear, delta_halo=delta, n=mf.n, cosmo=mf.cosmo, sigma_8=mf.sigma_8, n_eff=mf.n_eff)
    par = kw.get("bias_params") or {}
    want = getattr(B, bn)(z=z, **args, **par).bias()
    stale = z and not np.allclose(hm.halo_bias, want, rtol=1e-8) and np.allclose(hm.halo_bias, getattr(B, bn)(z=0.0, **args, **par).bias(), rtol=1e-8)
    mon.close("bias", hm.halo_bias, want, rtol=1e-8, key=bn + ("|evaluated at z=0" if stale else ""), **ctx)
    obs("bias", bn)
    # the cosmology handed to the external library
    cc, co = hm.colossus_cosmo, mf.cosmo
    for name, got, val in (("H0", cc.H0, co.H0.value), ("Om0", cc.Om0, co.Om0), ("Ob0", cc.Ob0, co.Ob0), ("Tcmb0", cc.Tcmb0, co.Tcmb0.value),
                           ("sigma8", cc.sigma8, mf.sigma_8), ("ns", cc.ns, mf.n)):
        mon.close("colossus", float(got), float(val), rtol=1e-6, key=name, **ctx)
    for name, val in (kw.get("colossus_params") or {}).items():
        mon.check("colossus", getattr(cc, name) == val, f"option {name}", f"{name} is {getattr(cc, name)}, not {val}")
    if tracer:
        h = getattr(H, kw["hod_model"])(cosmo=mf.cosmo, cm_relation=None, profile=None, mdef=mf.mdef, **kw["hod_params"])
        hn = kw["hod_model"]
        for q in ("total_occupation", "satellite_occupation", "central_occupation", "ss_pairs", "cs_pairs"):
            mon.close("hod", getattr(hm.hod, q)(x) + 0 * x, getattr(h, q)(x) + 0 * x, rtol=1e-12, key=f"{hn}|{q}", **ctx)
        obs("hod", hn)
        got = (hm.hod.mdef, hm.hod.cosmo, hm.hod.cm_relation, hm.hod.profile)
        mon.check("hod", got[0] == mf.mdef, f"{hn}|mass definition", f"{got[0]} vs {mf.mdef}")
        mon.check("hod", got[1].H0 == mf.cosmo.H0 and got[1].Om0 == mf.cosmo.Om0, f"{hn}|cosmology", f"{got[1]} vs {mf.cosmo}")
        mon.close("hod", got[2].cm(x, z), hm.tracer_concentration.cm(x, z), rtol=1e-12, key=f"{hn}|cm_relation")
        mon.close("hod", got[3].scale_radius(x), hm.tracer_profile.scale_radius(x), rtol=1e-12, key=f"{hn}|profile")


def run_model(case, mon, rng):
    cls = case["cls"]
    kind = "dm" if cls == "DM" else "tracer"
    # make sure that every component and definition comes up often
    kw = G.draw(rng, kind, grid="light", masks=True, exclusion=False, sdbias=False, rich=1.3, inf=True)
    kw["dlog10m"] = 0.1
    if case["rep"] % 3 == 0:
        kw.update(G.mdef(rng))
        G.fix_fof(rng, kw)
    if rng.random() < 0.3 and "cosmo_params" not in kw:
        kw["cosmo_model"] = G.pick(rng, ["Planck15", "WMAP9", "Planck13"])
    if case["rep"] % 2:
        kw["colossus_params"] = [{"relspecies": False}, {"interpolation": False}, {"relspecies": True, "interpolation": False}][case["rep"] % 3]
    try:
        hm = G.build(G.model_class(cls), kw)
        hm.dndm
    except Exception as e:  # noqa: BLE001
        mon.note(f"base rejected: {type(e).__name__}")
        return
    judge(mon, hm, kw)
    for _ in range(2):
        try:
            ups = G.draw_update(rng, kw, kind, G.pick(rng, ["z", "n", "sigma_8", "cosmo_params", "mdef", "delta_c", "hmf", "mrange", "conc", "profile",
                                                           "conc_params", "bias", "transfer_model", "growth_model", "filter"]
                                                      + (["tprofile", "tconc", "hod", "tconc_params"] if kind == "tracer" else [])))
        except KeyError:
            continue
        for up in ups:
            kw = G.merge(kw, up)
            try:
                G.update(hm, up)
                hm.dndm
            except Exception as e:  # noqa: BLE001
                mon.note(f"update rejected: {type(e).__name__}")
                return
    judge(mon, hm, kw, "after-update")
