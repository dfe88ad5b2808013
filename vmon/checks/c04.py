"""C04: density, Fourier transform, CDF and self-convolution of every profile agree.

Oracle: documented shape f(x) and Gauss-Legendre quadrature (vmon/ref/profiles.py); nothing
of the code under test is used to compute the expected values.
"""
from __future__ import annotations

import numpy as np

from vmon.ref import profiles as ref

PROPERTY = "C04"
RULE = ("Every density profile class x shape parameters x mass definition x redshift x cosmology x random masses, "
        "concentrations, radii and wavenumbers; each evaluation compares rho/u/cdf/lam returned by the real class "
        "with quadrature over the documented shape.")
REQUIRED = ["rho-unit-mass", "rho-halo-mass", "rho-shape", "rho-boundary", "ft-equals-transform", "ft-unity-at-small-k",
            "ft-unnormalised", "cdf-enclosed-mass", "cdf-range", "selfconv"]
CASE_TIMEOUT = 200

TRUNC = ["NFW", "Hernquist", "Moore", "Constant", "GeneralizedNFW", "Einasto", "CoredNFW"]
INF = ["NFWInf", "HernquistInf", "MooreInf", "GeneralizedNFWInf", "PowerLawWithExpCut"]
NUMERIC = {"GeneralizedNFW", "Moore", "Einasto"}
LAM = {"NFW", "NFWInf", "HernquistInf"}


def _params(name, rng):
    base = name.removesuffix("Inf")
    if base == "GeneralizedNFW":
        return {"alpha": float(rng.choice([0.5, 0.8, 1.0, 1.2, 1.5, 1.8]))}
    if name == "Einasto":
        return {"alpha": float(rng.choice([0.12, 0.18, 0.25, 0.4])), "use_interp": False}
    if name == "PowerLawWithExpCut":
        return {"a": float(rng.choice([0.049, 0.2, 0.5])), "b": float(rng.choice([1.2, 1.8, 2.0, 2.248, 2.6]))}
    return {}


def cases(rng, tier):
    out = []
    reps = 36 if tier == "quick" else 40
    for name in TRUNC + INF:
        for i in range(reps):
            if name in NUMERIC and tier == "quick" and i >= 12:
                continue
            out.append(dict(kind=name, prof=name, params=_params(name, rng),
                            cost=20 if name in NUMERIC else 1,
                            z=float(rng.choice([0.0, 0.0, 0.5, 1.0, 3.0])),
                            mdef=str(rng.choice(["SOMean", "SOMean", "SOCritical", "SOVirial"])),
                            overdensity=float(rng.choice([180.0, 200.0, 300.0, 500.0])),
                            om=float(rng.choice([0.25, 0.3089, 0.4]))))
    return out


def build(case):
    import halomod.profiles as P
    from astropy.cosmology import FlatLambdaCDM
    from halomod.concentration import Duffy08
    from hmf import Cosmology
    from hmf.halos import mass_definitions as md

    cosmo = FlatLambdaCDM(H0=70.0, Om0=case["om"], Ob0=0.048, Tcmb0=2.7)
    mdef = getattr(md, case["mdef"])()
    if case["mdef"] != "SOVirial":
        mdef = getattr(md, case["mdef"])(overdensity=case["overdensity"])
    prof = getattr(P, case["prof"])(cm_relation=Duffy08(cosmo=Cosmology(cosmo_model=cosmo)), mdef=mdef, z=case["z"], cosmo=cosmo, **case["params"])
    rho0 = mdef.mean_density(0, cosmo)
    delta = mdef.halo_overdensity_mean(case["z"], cosmo)
    return prof, cosmo, mdef, rho0, delta


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    name = case["prof"]
    prof, cosmo, mdef, rho0, delta = build(case)
    rho_z = mdef.mean_density(case["z"], cosmo)
    f = ref.shape(name, case["params"])
    inf = name in INF
    nm = 3 if name in NUMERIC else 4
    m = 10 ** rng.uniform(8, 15.5, nm)
    c = rng.uniform(1.5, 25, nm)
    if rng.random() < 0.3:
        c[0] = rng.uniform(0.5, 1.5)
    rvir = (3 * m / (4 * np.pi * delta * rho0)) ** (1 / 3)

    def H(cc):
        if name == "PowerLawWithExpCut":
            return ref.h_powerlaw_total(case["params"]["a"], case["params"]["b"])
        return ref.h(f, cc)

    for j in range(nm):
        mj, cj = float(m[j]), float(c[j])
        hj = H(cj)
        # --- density -----------------------------------------------------------
        x, w = ref._panels(cj, 12)
        keep = x > 1e-5 * cj
        x, w = x[keep], w[keep]
        # the (unresolved) mass below the first node is added from the documented shape
        inner = ref.h(f, 1e-5 * cj)
        rs = rvir[j] / cj
        dm = np.asarray(prof.rho(x * rs, mj, norm="m", c=cj))
        tot = 4 * np.pi * rs**3 * (np.sum(w * x**2 * dm) + inner * dm[0] / f(x[0]))
        if name != "PowerLawWithExpCut":
            mon.close("rho-unit-mass", tot, 1.0, rtol=2e-6, key=name, c=cj, m=mj)
            dn = np.asarray(prof.rho(x * rs, mj, c=cj))
            tot = 4 * np.pi * rs**3 * (np.sum(w * x**2 * dn) + inner * dn[0] / f(x[0]))
            # physical density on comoving radii
            mon.close("rho-halo-mass", tot * rho0 / rho_z, mj, rtol=2e-6, key=name, c=cj, m=mj)
        else:
            xx, ww = ref._panels(60 / case["params"]["a"], 60)
            dm2 = np.asarray(prof.rho(xx * rs, mj, norm="m", c=cj))
            mon.close("rho-unit-mass", 4 * np.pi * rs**3 * np.sum(ww * xx**2 * dm2), 1.0, rtol=1e-4, key=name)
        mon.close("rho-shape", dm, f(x) / (4 * np.pi * rs**3 * hj), rtol=1e-7, key=name, c=cj)
        dr = np.asarray(prof.rho(x * rs, mj, norm="rho", c=cj))
        mon.close("rho-shape", dr, cj**3 * delta / (3 * hj) * f(x), rtol=1e-7, key=name + "|rho", c=cj)
        outs = rvir[j] * np.array([1 - 1e-6, 1 + 1e-6, 1.5, 3.0])
        d = np.asarray(prof.rho(outs, mj, norm="m", c=cj))
        if inf:
            mon.close("rho-boundary", d, f(outs / rs) / (4 * np.pi * rs**3 * hj), rtol=1e-6, key=name)
        else:
            mon.check("rho-boundary", d[0] > 0 and np.all(d[1:] == 0), key=name, msg=f"density across r_vir {d}")
        # --- cumulative distribution ------------------------------------------------
        xx = np.sort(rng.uniform(0.01, 1, 6)) * cj
        want = np.array([ref.h(f, v) for v in xx]) / ref.h(f, cj)
        got = np.array(prof.cdf(xx, c=cj, coord="x", m=mj))
        mon.close("cdf-enclosed-mass", got, want, atol=1e-7, key=name, c=cj)
        got = np.atleast_1d(prof.cdf(np.array([1e-5 * cj, 0.3 * cj, 0.7 * cj, cj]), c=cj, coord="x", m=mj))
        mon.check("cdf-range", got[0] < 0.1 and abs(got[-1] - 1) < 1e-6 and np.all(np.diff(got) > 0), key=name, msg=str(got))

    # --- Fourier transform -----------------------------------------------------------------
    lo = 10 ** rng.uniform(-3, -1)
    K = np.sort(10 ** rng.uniform(np.log10(lo), np.log10(lo) + 2.3 if name in NUMERIC else 2.5, 8))
    rsj = rvir / c
    for j in range(nm):
        got = np.asarray(prof.u(K / rsj[j], float(m[j]), c=float(c[j])))
        hj = H(float(c[j]))
        if inf:
            want = np.array([ref.p_inf(f, kk) for kk in K]) / hj
            tol = dict(rtol=1e-4 if name in ("MooreInf", "GeneralizedNFWInf") else 1e-5, atol=1e-7)
        else:
            want = np.array([ref.p(f, float(c[j]), kk) for kk in K]) / hj
            tol = dict(rtol=1e-6, atol=2e-4 if name in NUMERIC else 1e-7)
        mon.close("ft-equals-transform", got, want, key=name, c=float(c[j]), K=K, **tol)
        if name not in NUMERIC or j == 0:
            un = np.asarray(prof.u(K / rsj[j], float(m[j]), c=float(c[j]), norm=None))
            mon.close("ft-unnormalised", un, got * m[j], rtol=1e-12, key=name)
        if not inf or name == "PowerLawWithExpCut":
            small = np.array([1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 3e-3])
            if name == "PowerLawWithExpCut":
                # the transform of the whole (untruncated) profile
                small = small * case["params"]["a"]
            if name not in NUMERIC or j == 0:
                got = np.asarray(prof.u(small / rsj[j], float(m[j]), c=float(c[j])))
                # 1 - u is O((K c)^2)
                lim = max(2 * (small[-1] * c[j]) ** 2, 1e-5) if name != "PowerLawWithExpCut" else 1e-3
                mon.check("ft-unity-at-small-k", np.all(np.abs(got - 1) < lim), key=name, msg=f"{got}")

    # --- self-convolution ----------------------------------------------------------------
    if name in LAM:
        for j in range(2 if case.get("kind") else nm):
            cj, mj, rs = float(c[j]), float(m[j]), float(rvir[j] / c[j])
            top = 2 * cj
            xs = np.sort(rng.uniform(0.02, 1.0, 6) * (top if not inf else 30))
            xs[2] = cj * 1.001
            xs[3] = cj * 0.999
            xs = np.sort(xs)
            got = np.asarray(prof.lam(xs * rs, mj, norm="m", c=cj))
            hj = ref.h(f, cj)
            want = np.array([ref.selfconv(name, v, None if inf else cj) for v in xs]) / (4 * np.pi * hj) ** 2 / rs**3
            mon.close("selfconv", got, want, rtol=3e-6, atol=1e-9 * np.max(want), key=name, x=xs, c=cj)
            if not inf:
                got = np.atleast_1d(prof.lam(np.array([2.001, 2.5, 5.0]) * cj * rs, mj, norm="m", c=cj))
                mon.check("selfconv", np.all(got == 0), key=name + "|beyond", msg=str(got))
