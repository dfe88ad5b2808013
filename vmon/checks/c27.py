"""C27: every supported combination of components gives finite, correctly shaped, physical outputs."""
from __future__ import annotations

import warnings

import numpy as np

from ..core import rng_for
from . import modelgen as G

PROPERTY = "C27"
RULE = ("Random combinations of components, redshifts and options, and every registered component in a random surrounding, are built with every model "
        "class; all public outputs are read and judged by shape (the grid each one is reported on), finiteness, sign and range. Models built from names are "
        "compared with models built from the component classes.")
REQUIRED = ["reads", "shape", "finite", "power-non-negative", "fractions", "correlation-above-minus-one", "positive", "name-is-class", "name-same-outputs",
            "component-in-use", "projection", "pairs-physical"]
CASE_TIMEOUT = 240

# every component the package registers, and where its class lives
HMF_ALL = ["Angulo", "AnguloBound", "Behroozi", "Bhattacharya", "Bocquet200cDMOnly", "Bocquet200cHydro", "Bocquet200mDMOnly", "Bocquet200mHydro",
           "Bocquet500cDMOnly", "Bocquet500cHydro", "Courtin", "Crocce", "Ishiyama", "Jenkins", "Manera", "PS", "Peacock", "Pillepich", "Reed03", "Reed07",
           "SMT", "ST", "Tinker08", "Tinker10", "Warren", "Watson", "Watson_FoF"]
NEEDS_CONVERSION = {"SMT", "AnguloBound", "Behroozi", "Bocquet200cDMOnly", "Bocquet200cHydro", "Bocquet500cDMOnly", "Bocquet500cHydro", "Ishiyama"}
PROFILES = G.FAST_PROFILES + G.INF_PROFILES + G.SLOW_PROFILES + ["GeneralizedNFWInf", "MooreInf"]
CONCS = G.CONCS + ["Ludlow2016", "Ludlow2016Empirical"]
EXCL = G.EXCLUSIONS + G.EXCL_SLOW
MDEFS = [("SOMean", dict(overdensity=200)), ("SOCritical", dict(overdensity=200)), ("SOVirial", {}), ("FOF", dict(linking_length=0.2))]
GROWTHS = ["GrowthFactor", "Carroll1992", "GenMFGrowth", "IntegralGrowthFactor", "ODEGrowthFactor"]
TINY = dict(transfer_model="EH", dlog10m=0.5, dlnk=0.2, dr_table=1.0, rnum=4, hm_dlog10k=1.0, Mmin=11, Mmax=15)
HEAVY = {"Moore": "light", "GeneralizedNFW": "light", "Einasto": "light", "GeneralizedNFWInf": "light", "MooreInf": "tiny"}


def components():
    out = [("hmf_model", n) for n in HMF_ALL] + [("bias_model", n) for n in G.BIASES] + [("halo_profile_model", n) for n in PROFILES]
    out += [("tracer_profile_model", n) for n in G.FAST_PROFILES + G.INF_PROFILES + G.SLOW_PROFILES]
    out += [("halo_concentration_model", n) for n in CONCS] + [("tracer_concentration_model", n) for n in CONCS]
    out += [("hod_model", n) for n in G.HODS] + [("exclusion_model", n) for n in EXCL] + [("mdef_model", n[0]) for n in MDEFS]
    out += [("filter_model", n) for n in ("TopHat", "Gaussian", "SharpK", "SharpKEllipsoid")] + [("growth_model", n) for n in GROWTHS]
    out += [("transfer_model", n) for n in ("EH", "EH_BAO", "EH_NoBAO", "BBKS", "BondEfs")]
    out += [("sd_bias_model", "TinkerSD05"), ("alter_model", "Lovell14"), ("alter_model", "Schneider12"), ("alter_model", "Schneider12_vCDM"),
            ("wdm_model", "Viel05"), ("wdm_model", "Bode01")]
    return out


SKIP_QUICK = {("halo_profile_model", "MooreInf"), ("halo_profile_model", "GeneralizedNFWInf"), ("tracer_profile_model", "Moore"),
              ("tracer_profile_model", "Einasto")}


def cases(rng, tier):
    quick = tier == "quick"
    out = []
    for i, (k, n) in enumerate(components()):
        if quick and (k, n) in SKIP_QUICK:
            continue
        for j in range(1 if quick else 8):
            out.append(dict(kind="each", par=k, comp=n, rep=j, cost=20 if n in HEAVY else 4 if n in G.EXCL_SLOW else 2))
    out += [dict(kind="combo", rep=i, cost=2) for i in range(110 if quick else 1500)]
    out += [dict(kind="projected", rep=i, cost=3) for i in range(8 if quick else 60)]
    out += [dict(kind="names", rep=i) for i in range(24 if quick else 150)]
    return out


def run(case, mon):
    rng = rng_for("c27", case["seed"])
    warnings.simplefilter("ignore")
    with np.errstate(all="ignore"):
        globals()["run_" + case["kind"]](case, mon, rng)


def said(mon, clause, ok, msg, key="", ctx=None, margin=None):
    mon.check(clause, bool(ok), key=key, msg="" if ok else msg, **(ctx or {}))


def classes():
    """Component classes by parameter, taken from the modules that define them."""
    from hmf.cosmology import growth_factor
    from hmf.density_field import filters, transfer_models
    from hmf.halos import mass_definitions
    from hmf.mass_function import fitting_functions

    from halomod import bias, concentration, halo_exclusion, hod, profiles

    return dict(hmf_model=fitting_functions, bias_model=bias, sd_bias_model=bias, halo_profile_model=profiles, tracer_profile_model=profiles,
                halo_concentration_model=concentration, tracer_concentration_model=concentration, hod_model=hod, exclusion_model=halo_exclusion,
                mdef_model=mass_definitions, filter_model=filters, growth_model=growth_factor, transfer_model=transfer_models)


OBJECT = dict(hmf_model="hmf", bias_model="bias", sd_bias_model="sd_bias", halo_profile_model="halo_profile", tracer_profile_model="tracer_profile",
              halo_concentration_model="halo_concentration", tracer_concentration_model="tracer_concentration", hod_model="hod",
              mdef_model="mdef", filter_model="filter", growth_model="growth", transfer_model="transfer")


def grid_of(hm, name):
    """The grid an output is reported on."""
    mass = len(hm.m)
    if name in ("power", "nonlinear_power", "transfer_function", "delta_k", "nonlinear_delta_k"):
        return len(hm.k)
    if name.startswith("power"):
        return len(hm.k_hm)
    if name.startswith("corr"):
        return len(hm.r)
    if name in ("halo_profile_ukm", "tracer_profile_ukm"):
        return (len(hm.k), mass) if name.startswith("halo") else (len(hm.k), None)
    return None


def describe(cname, kw):
    return "|".join(str(kw.get(k)) for k in ("hmf_model", "bias_model", "halo_profile_model", "hod_model", "exclusion_model", "hc_spectrum"))


def judge(hm, cname, kw, mon, case, light=False):
    """All public outputs of one model."""
    cls = type(hm)
    ctx = dict(cls=cname, kw=kw)
    key = describe(cname, kw)
    # a model in which nothing has collapsed has no non-linear mass, which hmf reports as zero
    if not (np.isfinite(hm.mass_nonlinear) and hm.mass_nonlinear > 0):
        mon.note("no non-linear mass")
        return
    # a tracer spread evenly over the smallest haloes is all shot noise, and the turnover of that is a hole in its correlation
    diffuse = kw.get("hod_model") not in G.GAL_HODS and kw.get("force_1halo_turnover", True)
    # occupations with an upper mass limit: the spline through that step overshoots where the turnover leaves little else
    stepped = kw.get("hod_model") in ("Zehavi05WithMax", "Zehavi05Marked", "ContinuousPowerLaw", "Spinelli19")
    ringing = "Constant" in (kw.get("halo_profile_model"), kw.get("tracer_profile_model"))
    tracer = hasattr(hm, "hod")
    vals = {}
    for n in G.names(cls):
        v = G.read(hm, n)
        said(mon, "reads", not isinstance(v, str), f"{n} {v}", key=f"{n}|{key}", ctx=ctx)
        if isinstance(v, str) or v is None:
            continue
        vals[n] = v
        if n.endswith("_fnc") or n.endswith("_fn"):
            said(mon, "finite", np.isfinite(v).all(), f"{n} at fixed points is {v}", key=f"{n}|{key}", ctx=ctx)
            continue
        want = grid_of(hm, n)
        if isinstance(want, int):
            said(mon, "shape", v.shape == (want,), f"{n} has shape {v.shape}, its grid has {want} points", key=f"{n}|{key}", ctx=ctx)
        if want is not None or n in MASS or n in SCALAR:
            said(mon, "finite", np.isfinite(v).all(), f"{n} has {int((~np.isfinite(v)).sum())} of {v.size} values not finite", key=f"{n}|{key}", ctx=ctx)
        if n in MASS:
            said(mon, "shape", v.shape == (len(hm.m),), f"{n} has shape {v.shape}, there are {len(hm.m)} masses", key=f"{n}|{key}", ctx=ctx)
        if n in SCALAR:
            said(mon, "shape", v.shape == (), f"{n} has shape {v.shape}", key=f"{n}|{key}", ctx=ctx)
        if n in POSITIVE:
            said(mon, "positive", (v > 0).all(), f"{n} is {v.min()}", key=f"{n}|{key}", ctx=ctx)
        if n in NON_NEGATIVE:
            said(mon, "positive", (v >= 0).all(), f"{n} is {v.min()}", key=f"{n}|{key}", ctx=ctx)
    if light:
        return vals
    for n, v in vals.items():
        if v.ndim != 1 or not np.isfinite(v).all() or n.endswith(("_fnc", "_fn")):
            continue
        if n == "power_auto_matter_sh":
            continue  # the cross spectrum of smooth and clumped matter, negative where smooth matter avoids peaks
        if n.startswith("power_"):
            low = v.min() / max(abs(v).max(), 1e-300)
            # pairs excluded below a radius take power away there; its transform comes through zero
            excluded = n.startswith("power_2h") and (kw.get("exclusion_model") or kw.get("sd_bias_model"))
            tol = TOL_RING if ringing or excluded or (stepped and n.startswith(("power_1h", "power_auto_t", "power_cross"))) else TOL
            said(mon, "power-non-negative", low >= -tol, f"{n} falls to {v.min():.4g} at k={hm.k_hm[v.argmin()]:.4g} (largest {v.max():.4g})",
                      key=f"{n}|{key}", ctx=ctx, margin=-low / tol)
        elif n in CORR and not (n in CORR_1H and (ringing or (diffuse and n != "corr_auto_matter"))):
            said(mon, "correlation-above-minus-one", v.min() > -1 - 1e-3, f"{n} falls to {v.min():.5g} at r={hm.r[v.argmin()]:.4g}", key=f"{n}|{key}", ctx=ctx)
    if tracer:
        fs, fc = float(hm.satellite_fraction), float(hm.central_fraction)
        said(mon, "fractions", -1e-12 <= fs <= 1 + 1e-12 and -1e-12 <= fc <= 1 + 1e-12 and abs(fs + fc - 1) < 1e-6, f"satellite fraction {fs}, central fraction {fc}", key=key, ctx=ctx)
        nt, mgt = float(hm.mean_tracer_den), float(hm.mean_tracer_den_unit)
        said(mon, "pairs-physical", nt > 0 and np.isfinite(mgt), f"tracer density {nt}", key=key, ctx=ctx)
        for n in ("central_occupation", "satellite_occupation", "total_occupation"):
            v = vals.get(n)
            if v is not None:
                said(mon, "positive", np.isfinite(v).all() and (v >= 0).all(), f"{n} is {v.min()}", key=f"{n}|{key}", ctx=ctx)
    return vals


MASS = {"dndm", "dndlnm", "dndlog10m", "fsigma", "ngtm", "rho_gtm", "nu", "sigma", "halo_bias", "cmz_relation", "m", "lnsigma", "n_eff", "radii",
        "linear_bias", "tracer_cmz_relation"}
MASS -= {"tracer_cmz_relation", "linear_bias"}
SCALAR = {"mean_density", "mean_density0", "mass_effective", "bias_effective_tracer", "bias_effective_matter", "satellite_fraction", "central_fraction",
          "mean_tracer_den", "tracer_concentration_mean", "mass_nonlinear", "halo_overdensity_mean", "halo_overdensity_crit", "mmin"}
SCALAR -= {"tracer_concentration_mean", "mmin"}
POSITIVE = {"k_hm", "r", "k", "m", "mean_density", "mean_density0", "mass_effective", "cmz_relation", "tracer_cmz_relation", "mass_nonlinear", "sigma", "nu",
            "radii", "halo_overdensity_mean", "halo_overdensity_crit", "power", "nonlinear_power", "mean_tracer_den"}
NON_NEGATIVE = {"dndm", "fsigma", "ngtm", "rho_gtm"}
CORR = {"corr_auto_matter", "corr_auto_tracer", "corr_cross_tracer_matter", "corr_linear_mm", "corr_halofit_mm"}
# the Fourier transform of a profile with an edge oscillates, and its transform back is only good to tens of per cent of the peak
CORR_1H = {"corr_auto_matter", "corr_auto_tracer", "corr_cross_tracer_matter"}
TOL, TOL_RING = 2e-3, 5e-2


def run_combo(case, mon, rng):
    cname = G.pick(rng, ["DM", "Tracer", "Tracer", "WDM", "TracerWDM"])
    kw = G.draw(rng, "dm" if cname in ("DM", "WDM") else "tracer", grid="medium")
    if cname.endswith("WDM"):
        kw["wdm_mass"] = G.U(rng, 0.5, 5)
    hm = construct(cname, kw, mon, case)
    if hm is not None:
        judge(hm, cname, kw, mon, case)


def construct(cname, kw, mon, case):
    if kw.get("hod_model") == "Spinelli19":
        kw["hod_params"]["central"] = False  # documented: no satellites are defined for haloes without centrals
    try:
        return G.build(G.model_class(cname), kw)
    except Exception as e:  # noqa: BLE001
        said(mon, "reads", False, f"{cname} cannot be built: {type(e).__name__}: {str(e)[:120]}", key=f"build|{describe(cname, kw)}", ctx=dict(kw=kw))
        return None


def run_each(case, mon, rng):
    par, comp = case["par"], case["comp"]
    size = HEAVY.get(comp, "medium")
    wdm = par in ("alter_model", "wdm_model")
    dm = par in ("hmf_model", "bias_model", "filter_model", "growth_model") and rng.random() < 0.5
    cname = {(False, False): "Tracer", (False, True): "DM", (True, False): "TracerWDM", (True, True): "WDM"}[(wdm, dm)]
    kw = G.draw(rng, "dm" if dm else "tracer", grid="light" if size == "tiny" else size, rich=0.6 if size == "medium" else 0.0)
    if size == "tiny":
        kw.update(TINY)
    if wdm:
        kw["wdm_mass"] = G.U(rng, 0.8, 5)
    kw.pop({"alter_model": "alter_params", "wdm_model": "wdm_params"}.get(par, par.replace("_model", "_params")), None)
    kw[par] = comp
    if comp == "Einasto":
        kw[par.replace("_model", "_params")] = dict(use_interp=False)
    if par == "hod_model":
        kw["hod_params"] = G.hod_params(rng, comp)
    if par == "hmf_model":
        kw.update(mdef_model=None, mdef_params={}, disable_mass_conversion=comp not in NEEDS_CONVERSION)
    if par == "mdef_model":
        kw.update(hmf_model=G.pick(rng, G.FOF_HMFS) if comp == "FOF" else "Tinker10", hmf_params={}, mdef_params=dict(MDEFS)[comp],
                  disable_mass_conversion=False)
    if comp.startswith("Ludlow"):
        kw.update(halo_profile_model="NFW", halo_profile_params={})
        if par.startswith("tracer"):
            kw.update(tracer_profile_model=None, tracer_profile_params={})
    elif par.endswith("profile_model") and comp != "NFW" and kw.get(par.replace("profile", "concentration"), "").startswith("Ludlow16") and not kw[
            par.replace("profile", "concentration")].endswith("Empirical"):
        kw.update({par.replace("profile", "concentration"): "Duffy08", par.replace("profile_model", "concentration_params"): {}})
    if par == "exclusion_model" and comp in G.EXCL_SLOW:
        kw.update(dr_table=0.2)
    hm = construct(cname, kw, mon, case)
    if hm is None:
        return
    judge(hm, cname, kw, mon, case, light=size != "medium" or par == "filter_model" and comp.startswith("SharpK"))
    mods = classes()
    if par in mods and not (comp == "GrowthFactor"):
        want = getattr(mods[par], comp, None)
        if want is not None and par in OBJECT:
            said(mon, "component-in-use", isinstance(getattr(hm, OBJECT[par]), want) or comp == "EH", f"{par}={comp!r} builds a {type(getattr(hm, OBJECT[par])).__name__}",
                      key=f"{par}|{comp}", ctx=dict(kw=kw))


def run_projected(case, mon, rng):
    cname = ["Projected", "Angular", "ProjectedWDM"][case["rep"] % 3]
    kw = G.draw(rng, "tracer", grid="medium", exclusion=False, sdbias=False, rich=0.6)
    for k in ("rlog", "rmin", "dr_table"):
        kw.pop(k, None)
    kw["dr_table"] = 0.1
    if cname == "Angular":
        z1 = G.U(rng, 0.1, 0.8)
        kw.update(z=round(z1 + 0.1, 4), zmin=z1, zmax=round(z1 + 0.2, 4), theta_num=6, znum=20, logu_max=1.8, unum=40, rnum=40)
        grid, names = "theta", ["angular_corr_gal", "angular_corr_matter"]
    else:
        kw.update(rp_min=G.U(rng, 0.05, 0.5), rp_max=G.U(rng, 10, 40), rp_num=7)
        grid, names = "rp", ["projected_corr_gal"]
        if cname.endswith("WDM"):
            kw["wdm_mass"] = G.U(rng, 0.8, 5)
    kw.pop("rlog", None)
    hm = construct(cname, kw, mon, case)
    if hm is None:
        return
    x = np.asarray(getattr(hm, grid))
    for n in names:
        v = G.read(hm, n)
        ok = not isinstance(v, str) and v is not None and v.shape == x.shape and np.isfinite(v).all()
        said(mon, "projection", ok, f"{n} on {len(x)} {grid}: {v}", key=f"{cname}|{n}|{describe(cname, kw)}", ctx=dict(kw=kw))
        if ok:
            # separations well inside haloes are positively correlated
            said(mon, "projection", v[0] > 0, f"{n} at the smallest {grid} is {v[0]}", key=f"{cname}|{n}|sign", ctx=dict(kw=kw))


def run_names(case, mon, rng):
    """A component given by name, by class, and by a subclass of it."""
    kw = G.draw(rng, "tracer", grid="light")
    mods = classes()
    try:
        a = G.build(G.model_class("Tracer"), kw)
    except Exception as e:  # noqa: BLE001
        mon.note(f"rejected: {type(e).__name__}")
        return
    kc, ks, mine = dict(kw), dict(kw), {}
    for par in OBJECT:
        n = kw.get(par)
        if not isinstance(n, str):
            continue
        c = getattr(mods[par], n)
        said(mon, "name-is-class", getattr(a, par) in (n, c), f"{par} of a model built with {n!r} is {getattr(a, par)!r}", key=f"{par}|{n}", ctx=dict(kw=kw))
        if getattr(a, OBJECT[par], None) is not None:
            said(mon, "name-is-class", isinstance(getattr(a, OBJECT[par]), c), f"{n!r} built a {type(getattr(a, OBJECT[par])).__name__}", key=f"{par}|{n}", ctx=dict(kw=kw))
        kc[par] = c
        # a user's own component, which is not one of the package's names
        if par in ("bias_model", "halo_concentration_model", "halo_profile_model", "tracer_concentration_model", "tracer_profile_model"):
            # one class per name: a tracer with the haloes' own relation takes on the haloes' parameters
            ks[par] = mine.setdefault(c, type("My" + n, (c,), {"__doc__": c.__doc__, "__module__": "user"})) if c not in mine else mine[c]
        else:
            ks[par] = c
    which = [n for n in G.names(type(a)) if n.startswith(("power", "corr", "mean", "bias", "mass_eff", "dndm", "halo_bias"))]
    A = G.snapshot(a, which)
    for label, k in (("class", kc), ("subclass", ks)):
        try:
            b = G.build(G.model_class("Tracer"), k)
            B = G.snapshot(b, which)
        except Exception as e:  # noqa: BLE001
            said(mon, "name-same-outputs", False, f"built by {label}: {type(e).__name__}: {e}", key=f"{label}|{describe('Tracer', kw)}", ctx=dict(kw=kw))
            continue
        finally:
            forget(ks)
        bad = {n: G.differ(A[n], B[n], 1e-9) for n in A if G.differ(A[n], B[n], 1e-9)}
        said(mon, "name-same-outputs", not bad, f"built by {label}: {list(bad.items())[:3]}", key=f"{label}|{describe('Tracer', kw)}", ctx=dict(kw=kw))


def forget(ks):
    """Classes made here do not stay registered in the package."""
    for c in ks.values():
        if isinstance(c, type) and c.__module__ == "user":
            for b in c.__mro__[1:]:
                p = b.__dict__.get("_plugins")
                if isinstance(p, dict):
                    p.pop(c.__name__, None)
