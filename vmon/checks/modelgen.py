"""Random halo-model configurations, parameter updates and output snapshots (shared by the model-level checks).

Everything is JSON-able, so that a case replays from its own description.  The bookkeeping
of parameters (``merge``) is independent of the code under test.
"""
from __future__ import annotations

import copy as _copy
import warnings

import numpy as np

GRID = {
    "light": dict(transfer_model="EH", dlog10m=0.2, dlnk=0.2, dr_table=0.3, rnum=6, hm_dlog10k=0.3, Mmin=10, Mmax=15),
    "medium": dict(transfer_model="EH", dlog10m=0.1, dlnk=0.1, dr_table=0.1, rnum=12, hm_dlog10k=0.15, Mmin=9, Mmax=16),
    "fine": dict(transfer_model="EH", dlog10m=0.025, dlnk=0.05, dr_table=0.05, rnum=15, hm_dlog10k=0.15, Mmin=8, Mmax=16.5),
}

FAST_PROFILES = ["NFW", "Hernquist", "CoredNFW", "Constant", "PowerLawWithExpCut"]
INF_PROFILES = ["NFWInf", "HernquistInf"]
SLOW_PROFILES = ["Moore", "GeneralizedNFW", "Einasto"]
CONCS = ["Bullock01", "Bullock01Power", "Maccio07", "Duffy08", "Zehavi11", "Ludlow16", "Ludlow16Empirical"]
BIASES = ["UnityBias", "Mo96", "Jing98", "ST99", "SMT01", "Seljak04", "Seljak04Cosmo", "Tinker05", "Mandelbaum05",
          "Pillepich10", "Manera10", "Tinker10", "Tinker10PBSplit"]
HMFS = ["PS", "ST", "Jenkins", "Warren", "Reed03", "Reed07", "Peacock", "Angulo", "Watson_FoF", "Crocce", "Courtin",
        "Bhattacharya", "Tinker08", "Tinker10", "Pillepich", "Manera", "Watson"]
HODS = ["Zehavi05", "Zheng05", "Contreras13", "Geach12", "Tinker05", "Zehavi05WithMax", "Zehavi05Marked",
        "ContinuousPowerLaw", "Constant", "Spinelli19", "Leauthaud11"]
GAL_HODS = ["Zehavi05", "Zheng05", "Contreras13", "Tinker05", "Zehavi05WithMax", "Leauthaud11"]
EXCLUSIONS = ["NoExclusion", "Sphere", "DblSphere_", "DblEllipsoid_", "NgMatched_"]
EXCL_SLOW = ["DblSphere", "DblEllipsoid", "NgMatched"]


def U(rng, a, b, nd=4):
    return round(float(rng.uniform(a, b)), nd)


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def hod_params(rng, name, n=None):
    """Parameters of an occupation model (all of them, or a random subset)."""
    u = lambda a, b: U(rng, a, b)
    base = dict(M_min=u(11, 12.6), M_1=u(12.4, 13.6), alpha=u(0.8, 1.25))
    full = {
        "Zehavi05": dict(base),
        "Zheng05": dict(base, sig_logm=u(0.15, 0.7), M_0=u(11, 12.2)),
        "Contreras13": dict(base, sig_logm=u(0.15, 0.7), M_0=u(11, 12.2), fca=u(0.1, 0.45), fcb=u(0, 0.35), fs=u(0.2, 0.7),
                            delta=u(0.5, 1.5), x=u(0.7, 1.3)),
        "Geach12": dict(base, sig_logm=u(0.15, 0.7), M_0=u(11, 12.2), fca=u(0.1, 0.45), fcb=u(0, 0.35), fs=u(0.2, 0.7), delta=u(0.5, 1.5)),
        "Tinker05": dict(M_min=base["M_min"], M_1=base["M_1"], M_cut=u(11, 13)),
        "Zehavi05WithMax": dict(base, M_max=u(13.8, 14.9)),
        "Zehavi05Marked": dict(base, M_max=u(13.8, 15), logA=u(-1, 1)),
        "ContinuousPowerLaw": dict(base, M_max=u(13.8, 15), logA=u(-1, 1), sigma_A=u(0, 0.5)),
        "Constant": dict(M_min=u(11, 12.6), logA=u(-1, 1), sigma_A=u(0, 0.5)),
        "Spinelli19": dict(M_min=u(9.2, 10.5), M_max=u(14, 15), a1=u(0.001, 0.002), alpha=u(0.4, 0.6), beta=u(0.35, 0.5), eta=u(0.8, 1.2)),
        "Leauthaud11": dict(sm_thresh=u(9, 10.6), bsat=u(8, 14), alphasat=u(0.9, 1.1), sig_logmstar=u(0.15, 0.25)),
    }[name]
    if n is not None:
        keys = list(full)
        keep = [keys[i] for i in sorted(rng.choice(len(keys), size=min(n, len(keys)), replace=False))]
        full = {k: full[k] for k in keep}
    return full


def jitter(rng, defaults, keys=None, n=2, f=0.12):
    keys = [k for k in (keys or defaults) if isinstance(defaults[k], (int, float)) and not isinstance(defaults[k], bool) and defaults[k] != 0]
    if not keys:
        return {}
    sel = rng.choice(len(keys), size=min(n, len(keys)), replace=False)
    return {keys[i]: round(float(defaults[keys[i]]) * float(rng.uniform(1 - f, 1 + f)), 6) for i in sorted(sel)}


CM_PAR = {
    "Bullock01": dict(F=0.01, K=3.4, norm=1.0), "Bullock01Power": dict(a=9.0, b=-0.13, c=1.0, norm=1.0),
    "Maccio07": dict(c_0=28.65, gamma=1.45, norm=1.0), "Duffy08": dict(a=6.7, b=-0.09, c=-0.44, ms=2e12, norm=1.0),
    "Zehavi11": dict(a=11.0, b=-0.13, c=1.0, ms=2.26e12, norm=1.0), "Ludlow16": dict(f=0.02, C=650, norm=1.0),
    "Ludlow16Empirical": dict(c0_0=3.395, beta_0=0.307, gamma1_0=0.628, norm=1.0),
}
BIAS_PAR = {
    "Jing98": dict(a=0.5, b=0.06, c=0.02), "ST99": dict(q=0.707, p=0.3), "SMT01": dict(a=0.707, b=0.5, c=0.6),
    "Seljak04": dict(a=0.53, b=0.39, c=0.45, d=0.13), "Seljak04Cosmo": dict(a=0.53, a1=0.4, a2=0.3),
    "Tinker05": dict(a=0.707, b=0.35, c=0.8), "Mandelbaum05": dict(q=0.73, p=0.15), "Pillepich10": dict(B0=0.647, B1=-0.32, B2=0.568),
    "Manera10": dict(q=0.709, p=0.248), "Tinker10": dict(B=0.183, b=1.5, c=2.4), "Tinker10PBSplit": dict(alpha_200=0.368, beta_200=0.589),
}
PROF_PAR = {
    "GeneralizedNFW": dict(alpha=1.0), "Einasto": dict(alpha=0.18), "PowerLawWithExpCut": dict(a=0.049, b=2.248),
}
HMF_PAR = {"ST": dict(a=0.707, p=0.3, A=0.3222), "Jenkins": dict(A=0.315, b=0.61, c=3.8), "Warren": dict(A=0.7234, b=1.625)}
SD_PAR = dict(a=1.17, b=1.49, c=0.69, d=2.09)


def profile_params(rng, name, p=0.7):
    out = {}
    if name == "Einasto":
        out["use_interp"] = False
    if rng.random() < p and name in PROF_PAR:
        out.update(jitter(rng, PROF_PAR[name], n=1))
    if rng.random() < 0.3:
        out["eta_bloat"] = U(rng, -0.3, 0.3)
    return out


def conc_for(rng, profile):
    return pick(rng, CONCS if profile == "NFW" else [c for c in CONCS if c != "Ludlow16"])


def cosmo_params(rng):
    full = dict(Om0=U(rng, 0.24, 0.36), H0=U(rng, 62, 75), Ob0=U(rng, 0.04, 0.055))
    keys = list(full)
    return {k: full[k] for k in keys if rng.random() < 0.6} or {"Om0": full["Om0"]}


def mdef(rng):
    return pick(rng, [
        dict(mdef_model=None, mdef_params={}, disable_mass_conversion=True),
        dict(mdef_model="SOMean", mdef_params=dict(overdensity=pick(rng, [200, 300, 400, 800])), disable_mass_conversion=False),
        dict(mdef_model="SOCritical", mdef_params=dict(overdensity=pick(rng, [200, 300, 500])), disable_mass_conversion=False),
        dict(mdef_model="SOVirial", mdef_params={}, disable_mass_conversion=False),
        dict(mdef_model="FOF", mdef_params=dict(linking_length=pick(rng, [0.2, 0.25])), disable_mass_conversion=False),
    ])


FOF_HMFS = ["PS", "ST", "Jenkins", "Warren", "Reed03", "Reed07", "Peacock", "Angulo", "Crocce", "Courtin", "Bhattacharya", "Pillepich", "Manera"]


def fix_fof(rng, kw):
    """Spherical-overdensity fits do not accept a friends-of-friends definition."""
    if kw.get("mdef_model") == "FOF" and kw.get("hmf_model", "Tinker10") not in FOF_HMFS:
        kw["hmf_model"] = pick(rng, FOF_HMFS)
        kw.pop("hmf_params", None)


def draw(rng, kind="tracer", grid="light", slow=False, exclusion=True, sdbias=True, density=False, inf=True, hods=HODS, masks=True, rich=1.0):
    """A random supported configuration."""
    kw = dict(GRID[grid])
    yes = lambda p: rng.random() < p * rich
    kw["z"] = pick(rng, [0.0, 0.0, 0.3, 0.5, 1.0, 1.7])
    if yes(0.4):
        kw["n"] = U(rng, 0.93, 1.0)
    if yes(0.4):
        kw["sigma_8"] = U(rng, 0.7, 0.95)
    if yes(0.4):
        kw["cosmo_params"] = cosmo_params(rng)
    if yes(0.2):
        kw["transfer_model"] = pick(rng, ["EH_NoBAO", "BBKS", "BondEfs"])
    if yes(0.2):
        kw["growth_model"] = "Carroll1992"
    if yes(0.2):
        kw["takahashi"] = False
    if yes(0.15):
        kw["delta_c"] = U(rng, 1.65, 1.72)
    bm = pick(rng, BIASES) if yes(0.7) else "Tinker10"
    kw["bias_model"] = bm
    if yes(0.4):
        kw["bias_params"] = jitter(rng, BIAS_PAR.get(bm, {}))
    h = pick(rng, HMFS) if yes(0.6) else "Tinker10"
    kw["hmf_model"] = h
    if yes(0.4) and h in HMF_PAR:
        kw["hmf_params"] = jitter(rng, HMF_PAR[h])
    if masks and yes(0.3):
        kw.update(mdef(rng))
    else:
        kw["disable_mass_conversion"] = True
    fix_fof(rng, kw)
    profs = FAST_PROFILES + (INF_PROFILES if inf else []) + (SLOW_PROFILES if slow else [])
    p = pick(rng, profs) if yes(0.7) else "NFW"
    kw["halo_profile_model"] = p
    kw["halo_profile_params"] = profile_params(rng, p)
    c = conc_for(rng, p) if yes(0.7) else "Duffy08"
    kw["halo_concentration_model"] = c
    if yes(0.4):
        kw["halo_concentration_params"] = jitter(rng, CM_PAR[c])
    if sdbias and yes(0.2):
        kw["sd_bias_model"] = "TinkerSD05"
        if yes(0.5):
            kw["sd_bias_params"] = jitter(rng, SD_PAR)
    if exclusion and yes(0.3):
        kw["exclusion_model"] = pick(rng, EXCLUSIONS[1:])
    kw["hc_spectrum"] = pick(rng, ["linear", "linear", "nonlinear", "filtered-lin", "filtered-nl"]) if yes(0.5) else "linear"
    if yes(0.3):
        kw["force_1halo_turnover"] = False
    if yes(0.3):
        kw["force_unity_dm_bias"] = False
    if yes(0.2):
        kw["rlog"] = False
    if yes(0.2):
        kw["rmin"] = U(rng, 0.05, 1)
    if yes(0.1):
        kw["rmin"] = sorted(U(rng, 0.05, 60) for _ in range(5))
    if kind == "dm":
        return kw
    hd = pick(rng, hods)
    kw["hod_model"] = hd
    kw["hod_params"] = hod_params(rng, hd)
    if yes(0.4):
        kw["hod_params"]["central"] = True
    if yes(0.35):
        tp = pick(rng, profs)
        kw["tracer_profile_model"] = tp
        kw["tracer_profile_params"] = profile_params(rng, tp)
    if yes(0.25):
        tc = pick(rng, [x for x in CONCS if x != "Ludlow16"])
        kw["tracer_concentration_model"] = tc
        if yes(0.5):
            kw["tracer_concentration_params"] = jitter(rng, CM_PAR[tc])
    if density:
        kw["tracer_density"] = float(f"{10 ** rng.uniform(-4, -2.3):.6g}")
        kw["hod_params"].pop("M_min", None)
    return kw


# -- parameter bookkeeping, independent of the code under test -----------------------
def merge(cur, upd):
    """The parameters after update(**upd): dictionaries merge key by key, an empty one clears."""
    new = _copy.deepcopy(cur)
    for k, v in upd.items():
        if k.endswith("_params") and isinstance(v, dict) and v and new.get(k):
            new[k] = {**new[k], **v}
        else:
            new[k] = _copy.deepcopy(v)
    return new


DM_UPDATES = ["z", "n", "sigma_8", "cosmo_params", "transfer_model", "growth_model", "takahashi", "dlnk", "lnk", "dlog10m", "mrange",
              "mdef", "delta_c", "hmf", "hmf_params", "filter", "profile", "profile_params", "conc", "conc_params", "bias", "bias_params",
              "sd", "sd_params", "excl", "dr_table", "rgrid", "rlog", "kgrid", "hc_spectrum", "turnover", "unity", "cosmo_model"]
TRACER_UPDATES = ["hod", "hod_params", "hod_params", "hod_clear", "tprofile", "tprofile_params", "tconc", "tconc_params", "central"]


def model_switch(rng, cur, model, params, name, newp):
    """Switch a component together with its parameters."""
    up = {}
    if cur.get(params):
        up[params] = {}
    up[model] = name
    if rng.random() < 0.5:
        up = dict(reversed(list(up.items())))
    out = [up]
    if newp:
        if params not in up:
            up[params] = newp
        else:
            out.append({params: newp})
    return out


def draw_update(rng, cur, kind, which=None, slow=False, grid="light", inf=True, excl=True):
    """One or two update() keyword dictionaries moving `cur` to another supported state."""
    names = DM_UPDATES + (TRACER_UPDATES * 2 if kind != "dm" else [])
    w = which or pick(rng, names)
    profs = FAST_PROFILES + (INF_PROFILES if inf else []) + (SLOW_PROFILES if slow else [])
    g = GRID[grid]
    if w == "z":
        return [dict(z=pick(rng, [0.0, 0.25, 0.5, 0.9, 1.5]))]
    if w == "n":
        return [dict(n=U(rng, 0.93, 1.0))]
    if w == "sigma_8":
        return [dict(sigma_8=U(rng, 0.7, 0.95))]
    if w == "cosmo_params":
        return [dict(cosmo_params=cosmo_params(rng))] if rng.random() < 0.8 else [dict(cosmo_params={})]
    if w == "cosmo_model":
        return [dict(cosmo_model=pick(rng, ["Planck15", "WMAP9", "Planck13"]))]
    if w == "transfer_model":
        return [dict(transfer_model=pick(rng, ["EH", "EH_NoBAO", "BBKS", "BondEfs"]))]
    if w == "growth_model":
        return [dict(growth_model=pick(rng, ["GrowthFactor", "Carroll1992"]))]
    if w == "takahashi":
        return [dict(takahashi=not cur.get("takahashi", True))]
    if w == "dlnk":
        return [dict(dlnk=round(g["dlnk"] * pick(rng, [0.8, 1.0, 1.3]), 4))]
    if w == "lnk":
        return [dict(lnk_min=U(rng, -12, -8), lnk_max=U(rng, 6, 9))]
    if w == "dlog10m":
        return [dict(dlog10m=round(g["dlog10m"] * pick(rng, [0.7, 1.0, 1.3]), 4))]
    if w == "mrange":
        return [dict(Mmin=U(rng, 9, 10.5)), dict(Mmax=U(rng, 14.8, 16))]
    if w == "mdef":
        up = mdef(rng)
        while up["mdef_model"] == "FOF" and cur.get("hmf_model", "Tinker10") not in FOF_HMFS:
            up = mdef(rng)
        if cur.get("mdef_params") and up["mdef_params"]:
            up["mdef_params"] = up["mdef_params"]
            return [dict(mdef_params={}, mdef_model=up["mdef_model"], disable_mass_conversion=up["disable_mass_conversion"]),
                    dict(mdef_params=up["mdef_params"])]
        return [up]
    if w == "delta_c":
        return [dict(delta_c=U(rng, 1.65, 1.72))]
    if w == "hmf":
        h = pick(rng, FOF_HMFS if cur.get("mdef_model") == "FOF" else HMFS)
        return model_switch(rng, cur, "hmf_model", "hmf_params", h, jitter(rng, HMF_PAR.get(h, {})) if rng.random() < 0.5 else None)
    if w == "hmf_params":
        h = cur.get("hmf_model")
        return [dict(hmf_params=jitter(rng, HMF_PAR[h], n=1))] if h in HMF_PAR else [dict(hmf_model="ST", hmf_params={})]
    if w == "filter":
        return [dict(filter_model=pick(rng, ["TopHat", "TopHat", "Gaussian"]))]
    if w in ("profile", "tprofile"):
        p = pick(rng, profs)
        if p == "Constant" and "Ludlow16" in (cur.get("halo_concentration_model"), cur.get("tracer_concentration_model")):
            p = "Hernquist"  # (that relation solves for the scale of a density slope, and a constant density has none)
        pre = "halo" if w == "profile" else "tracer"
        if w == "tprofile" and rng.random() < 0.25:
            return [dict(tracer_profile_model=None, tracer_profile_params={})]
        return model_switch(rng, cur, f"{pre}_profile_model", f"{pre}_profile_params", p, profile_params(rng, p))
    if w in ("profile_params", "tprofile_params"):
        pre = "halo" if w == "profile_params" else "tracer"
        p = cur.get(f"{pre}_profile_model") or ("NFW" if pre == "halo" else None)
        if p is None:
            return [dict(tracer_profile_model="PowerLawWithExpCut")]
        v = jitter(rng, PROF_PAR.get(p, {}), n=1)
        return [{f"{pre}_profile_params": v or dict(eta_bloat=U(rng, -0.3, 0.3))}]
    if w in ("conc", "tconc"):
        pre = "halo" if w == "conc" else "tracer"
        hp, tp = cur.get("halo_profile_model") or "NFW", cur.get("tracer_profile_model") or cur.get("halo_profile_model") or "NFW"
        if w == "tconc" and rng.random() < 0.25:
            return [dict(tracer_concentration_model=None, tracer_concentration_params={})]
        c = pick(rng, [x for x in CONCS if x != "Ludlow16" or (hp == "NFW" and tp == "NFW")])
        return model_switch(rng, cur, f"{pre}_concentration_model", f"{pre}_concentration_params", c,
                            jitter(rng, CM_PAR[c]) if rng.random() < 0.5 else None)
    if w in ("conc_params", "tconc_params"):
        pre = "halo" if w == "conc_params" else "tracer"
        c = cur.get(f"{pre}_concentration_model") or ("Duffy08" if pre == "halo" else None)
        if c is None:
            return [dict(tracer_concentration_model="Zehavi11")]
        return [{f"{pre}_concentration_params": jitter(rng, CM_PAR[c], n=1)}]
    if w == "bias":
        b = pick(rng, BIASES)
        return model_switch(rng, cur, "bias_model", "bias_params", b, jitter(rng, BIAS_PAR.get(b, {})) if rng.random() < 0.5 else None)
    if w == "bias_params":
        b = cur.get("bias_model", "Tinker10")
        v = jitter(rng, BIAS_PAR.get(b, {}), n=1)
        return [dict(bias_params=v)] if v else [dict(bias_model="ST99", bias_params={})]
    if w == "sd":
        if cur.get("sd_bias_model"):
            return [dict(sd_bias_model=None, sd_bias_params={})]
        return [dict(sd_bias_model="TinkerSD05")]
    if w == "sd_params":
        return [dict(sd_bias_model="TinkerSD05", sd_bias_params=jitter(rng, SD_PAR))]
    if w == "excl":
        return [dict(exclusion_model=pick(rng, EXCLUSIONS if excl else EXCLUSIONS[:2]))]
    if w == "dr_table":
        return [dict(dr_table=round(g["dr_table"] * pick(rng, [0.8, 1.0, 1.2]), 4))]
    if w == "rgrid":
        return pick(rng, [[dict(rmin=U(rng, 0.05, 0.8))], [dict(rmax=U(rng, 20, 100))], [dict(rnum=int(rng.integers(4, 9)))],
                          [dict(rmin=sorted(U(rng, 0.05, 60) for _ in range(5)))]])
    if w == "rlog":
        return [dict(rlog=not cur.get("rlog", True))]
    if w == "kgrid":
        return pick(rng, [[dict(hm_logk_min=U(rng, -2, -1))], [dict(hm_logk_max=U(rng, 0.5, 1.8))], [dict(hm_dlog10k=U(rng, 0.2, 0.4))]])
    if w == "hc_spectrum":
        return [dict(hc_spectrum=pick(rng, ["linear", "nonlinear", "filtered-lin", "filtered-nl"]))]
    if w == "turnover":
        return [dict(force_1halo_turnover=not cur.get("force_1halo_turnover", True))]
    if w == "unity":
        return [dict(force_unity_dm_bias=not cur.get("force_unity_dm_bias", True))]
    if w == "hod":
        h = pick(rng, HODS)
        return model_switch(rng, cur, "hod_model", "hod_params", h, hod_params(rng, h) if rng.random() < 0.7 else None)
    if w == "hod_params":
        h = cur.get("hod_model", "Zehavi05")
        return [dict(hod_params=hod_params(rng, h, n=int(rng.integers(1, 3))))]
    if w == "hod_clear":
        return [dict(hod_params={})]
    if w == "central":
        return [dict(hod_params={"central": bool(rng.random() < 0.6)})]
    raise KeyError(w)


# -- snapshots -----------------------------------------------------------------------
SKIP = {"ERROR_ON_BAD_MDEF", "how_big", "power_hh", "colossus_cosmo", "cosmo", "filter", "normalised_filter", "growth", "transfer", "hmf",
        "nu_fn", "growth_factor_fn", "n_eff_at_collapse", "mass_nonlinear_fn", "tracer_mmin", "wdm"}
OBJECTS = {"bias", "halo_concentration", "halo_profile", "hod", "mdef", "sd_bias", "tracer_concentration", "tracer_profile", "cross_hod",
           "halo_model_1", "halo_model_2"}


def names(cls):
    """Public output quantities of a model class (from its own listing)."""
    from hmf import Framework

    out = []
    for n in dir(cls):
        if n.startswith("_") or n in SKIP or n in OBJECTS or n in dir(Framework):
            continue
        a = getattr(cls, n)
        if isinstance(a, property):
            doc = a.__doc__ or ""
            if not doc.startswith("**Parameter**"):
                out.append(n)
    return out


K_EVAL = np.array([1e-3, 0.02, 0.13, 0.7, 3.0, 20.0])
R_EVAL = np.array([0.02, 0.2, 1.3, 6.0, 25.0, 70.0])
M_EVAL = np.array([1.2e10, 4.5e11, 3.1e12, 5.5e13, 4e14])


def read(model, name):
    """The value of an output as plain arrays; callables are evaluated at fixed points."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            v = getattr(model, name)
            if callable(v):
                v = v(K_EVAL if ("power" in name) else R_EVAL)
            if v is None:
                return None
            return np.array(v, dtype=float)
        except Exception as e:  # noqa: BLE001
            return f"raises {type(e).__name__}"


def read_objects(model, tracer=True):
    """Component objects probed through their public methods."""
    out = {}

    def p(name, fn):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                out[name] = np.array(fn(), dtype=float)
            except Exception as e:  # noqa: BLE001
                out[name] = f"raises {type(e).__name__}"

    p("obj:halo_concentration.cm", lambda: model.halo_concentration.cm(M_EVAL, model.z))
    p("obj:halo_profile.rho", lambda: model.halo_profile.rho(R_EVAL[:3], M_EVAL))
    p("obj:bias", lambda: model.bias.bias())
    p("obj:power_hh", lambda: model.power_hh(K_EVAL, mmin=11.5, mmax=13.5))
    p("obj:mdef", lambda: model.mdef.halo_density(model.z, model.cosmo))
    if tracer:
        p("obj:hod.total", lambda: model.hod.total_occupation(M_EVAL))
        p("obj:hod.ss", lambda: model.hod.ss_pairs(M_EVAL))
        p("obj:hod.cs", lambda: model.hod.cs_pairs(M_EVAL))
        p("obj:tracer_profile.rho", lambda: model.tracer_profile.rho(R_EVAL[:3], M_EVAL))
        p("obj:tracer_concentration.cm", lambda: model.tracer_concentration.cm(M_EVAL, model.z))
    return out


def snapshot(model, which, tracer=True, objects=True):
    out = {n: read(model, n) for n in which}
    if objects:
        out.update(read_objects(model, tracer))
    return out


def differ(a, b, rtol=1e-8):
    """Why two snapshot entries differ ('' when they agree)."""
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        if type(a) is type(b) and (a is None or a == b):
            return ""
        return f"{_show(a)} vs {_show(b)}"
    if a.shape != b.shape:
        return f"shape {a.shape} vs {b.shape}"
    if a.size == 0:
        return ""
    with np.errstate(all="ignore"):
        fin = np.isfinite(b)
        scale = np.abs(b[fin]).max() if fin.any() else 0.0
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * np.abs(b) + 1e-13 * scale)
    if ok.all():
        return ""
    i = int(np.argmin(ok.ravel()))
    return f"{a.ravel()[i]!r} vs {b.ravel()[i]!r} at {i} ({int((~ok).sum())}/{ok.size})"


def _show(x):
    return x if isinstance(x, str) else (None if x is None else f"array{x.shape}")


def build(cls, kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return cls(**_copy.deepcopy(kw))


def update(model, up):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model.update(**_copy.deepcopy(up))


def model_class(name):
    import halomod
    from halomod import wdm
    from halomod.integrate_corr import AngularCF, ProjectedCF

    return {"DM": halomod.DMHaloModel, "Tracer": halomod.TracerHaloModel, "Projected": ProjectedCF, "Angular": AngularCF,
            "WDM": wdm.HaloModelWDM, "TracerWDM": wdm.TracerHaloModelWDM, "ProjectedWDM": wdm.ProjectedCFWDM}[name]
