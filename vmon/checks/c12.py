"""C12: halo bias against independently re-evaluated published formulae and the peak-background split."""
from __future__ import annotations

import warnings

import numpy as np

PROPERTY = "C12"
RULE = ("Random peak heights (1e-4..60), redshifts, cosmologies, overdensities and parameter dictionaries for every registered bias "
        "model, directly and inside halo models; colossus-wrapped relations with other cosmologies alive; scale-dependent bias.")
REQUIRED = ["formula", "elementwise", "positive-finite", "pbs", "pbs-mean", "increasing", "colossus", "scale-dependent", "model",
            "model-z", "mstar", "unity-mean"]
ASSUMPTIONS = ["Peak height nu is (delta_c/sigma)^2 as documented; published coefficients are the defaults listed in each class reference.",
               "SMT01, an ellipsoidal-barrier fit listed as pairing with SMT, is only an approximate peak-background split and is excluded from the exact relation."]
CASE_TIMEOUT = 60

NAMES = ["UnityBias", "Mo96", "Jing98", "ST99", "SMT01", "Seljak04", "Seljak04Cosmo", "Tinker05", "Mandelbaum05", "Pillepich10",
         "Manera10", "Tinker10", "Tinker10PBSplit"]
DEF = {
    "Jing98": dict(a=0.5, b=0.06, c=0.02), "ST99": dict(q=0.707, p=0.3), "SMT01": dict(a=0.707, b=0.5, c=0.6),
    "Seljak04": dict(a=0.53, b=0.39, c=0.45, d=0.13, e=40, f=5e-4, g=1.5),
    "Seljak04Cosmo": dict(a=0.53, b=0.39, c=0.45, d=0.13, e=40, f=5e-4, g=1.5, a1=0.4, a2=0.3),
    "Tinker05": dict(a=0.707, b=0.35, c=0.8), "Mandelbaum05": dict(q=0.73, p=0.15),
    "Pillepich10": dict(B0=0.647, B1=-0.32, B2=0.568), "Manera10": dict(q=0.709, p=0.248), "Tinker10": dict(B=0.183, b=1.5, c=2.4),
    "Tinker10PBSplit": dict(beta_exp=0.2, phi_exp=-0.08, eta_exp=0.27, gamma_exp=-0.01, max_z=3),
}
TVIR = [200, 300, 400, 600, 800, 1200, 1600, 2400, 3200]
TPB = dict(beta=[0.589, 0.585, 0.544, 0.543, 0.564, 0.623, 0.637, 0.673, 0.702],
           gamma=[0.864, 0.922, 0.987, 1.09, 1.2, 1.34, 1.5, 1.68, 1.81],
           phi=[-0.729, -0.789, -0.910, -1.05, -1.2, -1.26, -1.45, -1.5, -1.49],
           eta=[-0.243, -0.261, -0.261, -0.273, -0.278, -0.301, -0.301, -0.319, -0.336])


def formula(name, p, nu, dc, m=None, mstar=None, delta=200, n=1.0, s8=0.8, h=0.7, Om=0.3, neff=None, z=0.0):
    """nu = (dc/sigma)^2."""
    v = np.sqrt(nu)  # dc/sigma
    if name == "UnityBias":
        return np.ones_like(nu)
    if name == "Mo96":
        return 1 + (v**2 - 1) / dc
    if name == "Jing98":
        return (p["a"] / v**4 + 1) ** (p["b"] - p["c"] * neff) * (1 + (v**2 - 1) / dc)
    if name in ("ST99", "Mandelbaum05", "Manera10"):
        y = p["q"] * v * v
        return 1 + (y - 1) / dc + 2 * p["p"] / dc / (1 + y ** p["p"])
    if name in ("SMT01", "Tinker05"):
        a, b, c = p["a"], p["b"], p["c"]
        y = a * v * v
        return 1 + (np.sqrt(a) * y + np.sqrt(a) * b * y ** (1 - c) - y**c / (y**c + b * (1 - c) * (1 - c / 2))) / (np.sqrt(a) * dc)
    if name.startswith("Seljak04"):
        x = m / mstar
        b = p["a"] + p["b"] * x ** p["c"] + p["d"] / (p["e"] * x + 1) + p["f"] * x ** p["g"]
        if name == "Seljak04Cosmo":
            b = b + np.maximum(np.log10(x), -1) * (p["a1"] * (Om - 0.3 + n - 1) + p["a2"] * (s8 - 0.9 + h - 0.7))
        return b
    if name == "Pillepich10":
        return p["B0"] + p["B1"] * v + p["B2"] * v * v
    if name == "Tinker10":
        y = np.log10(delta)
        e = np.exp(-((4 / y) ** 4))
        A, a, C = 1 + 0.24 * y * e, 0.44 * y - 0.88, 0.019 + 0.107 * y + 0.19 * e
        return 1 - A * v**a / (v**a + dc**a) + p["B"] * v ** p["b"] + C * v ** p["c"]
    if name == "Tinker10PBSplit":
        i = TVIR.index(delta)
        zz = 1 + min(z, p["max_z"])
        g = {k: p.get(f"{k}_{delta}", TPB[k][i]) * zz ** p[f"{k}_exp"] for k in TPB}
        return (1 + (g["gamma"] * nu - (1 + 2 * g["eta"])) / dc
                + 2 * g["phi"] / dc / (1 + (g["beta"] ** 2 * nu) ** g["phi"]))
    raise KeyError(name)


def params(rng, name, delta):
    d = dict(DEF.get(name, {}))
    over = {}
    if rng.random() < 0.6:
        for k in d:
            if k == "max_z":
                over[k] = float(rng.uniform(0.5, 4))
            elif rng.random() < 0.5:
                over[k] = float(d[k] * rng.uniform(0.7, 1.3))
        if name == "Tinker10PBSplit" and delta in TVIR:
            over[f"gamma_{delta}"] = float(rng.uniform(0.5, 2))
            over[f"eta_{delta}"] = float(rng.uniform(-0.4, -0.2))
    return over, {**d, **over}


COL = ["cole89", "jing98", "sheth01", "seljak04", "pillepich10", "tinker10", "bhattacharya11", "comparat17"]


def cases(rng, tier):
    k = 4 if tier == "quick" else 25
    out = [dict(kind="formula", name=n) for n in NAMES for _ in range(14 * k)]
    out += [dict(kind="pbs", name=n) for n in ("Mo96", "ST99", "Manera10", "Tinker10PBSplit") for _ in range(6 * k)]
    out += [dict(kind="model", name=n, cost=3) for n in NAMES for _ in range(3 * k)]
    out += [dict(kind="model-z", name=n, cost=3) for n in ("Tinker10PBSplit", "colossus", "Tinker10", "ST99") for _ in range(2 * k)]
    out += [dict(kind="colossus", name=n, cost=2) for n in COL for _ in range(k)]
    out += [dict(kind="sd") for _ in range(12 * k)]
    out += [dict(kind="sdmodel", cost=4) for _ in range(2 * k)]
    out += [dict(kind="mean", name=n, cost=3) for n in ("Mo96", "ST99", "Tinker10PBSplit") for _ in range(k)]
    return out


def cosmo(rng):
    from astropy.cosmology import FlatLambdaCDM, LambdaCDM

    if rng.random() < 0.3:
        return LambdaCDM(H0=float(rng.uniform(60, 80)), Om0=float(rng.uniform(0.2, 0.45)), Ode0=float(rng.uniform(0.5, 0.8)), Ob0=0.045, Tcmb0=2.7)
    return FlatLambdaCDM(H0=float(rng.uniform(60, 80)), Om0=float(rng.uniform(0.2, 0.45)), Ob0=0.045, Tcmb0=2.7)


FAST = dict(transfer_model="EH", dlog10m=0.1, dlnk=0.1)


def run(case, mon):
    from halomod import bias as B

    warnings.simplefilter("ignore")
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    {"formula": direct, "pbs": pbs, "model": model, "model-z": model_z, "colossus": colossus, "sd": sd, "sdmodel": sdmodel,
     "mean": mean}[kind](case, mon, rng, B)


G_SIZES = [1, 101, 257, 1000, 1001, 4000]


def direct(case, mon, rng, B):
    name = case["name"]
    cls = getattr(B, name)
    nn = int(rng.integers(2, 40)) if rng.random() < 0.8 else int(G_SIZES[rng.integers(len(G_SIZES))])
    nu = np.exp(rng.uniform(np.log(1e-4), np.log(60), nn))
    if rng.random() < 0.5:
        nu.sort()
    m = 10 ** rng.uniform(6, 16, nn)
    mstar = 10 ** rng.uniform(10, 13)
    neff = rng.uniform(-2.9, -0.5, nn)
    delta = int(rng.choice(TVIR)) if name == "Tinker10PBSplit" else float(rng.uniform(150, 4000))
    dc, z, n, s8 = rng.uniform(1.6, 1.75), rng.uniform(0, 5), rng.uniform(0.9, 1.05), rng.uniform(0.6, 1.1)
    c = cosmo(rng)
    over, p = params(rng, name, delta)
    kw = dict(delta_c=dc, mstar=mstar, delta_halo=delta, n=n, sigma_8=s8, cosmo=c, z=z, **over)
    inputs = [nu.copy(), m.copy(), neff.copy()]
    obj = cls(nu=nu, m=m, n_eff=neff, **kw)
    got = np.array(obj.bias())
    want = formula(name, p, nu, dc, m, mstar, delta, n, s8, c.h, c.Om0, neff, z)
    mon.close("formula", got, want, rtol=1e-9, atol=1e-9, key=name)
    mon.equal("elementwise", obj.bias(), got, key=name + "|repeat")
    mon.equal("elementwise", [nu, m, neff], inputs, key=name + "|inputs")
    i = int(rng.integers(nn))
    one = cls(nu=nu[i:i + 1], m=m[i:i + 1], n_eff=neff[i:i + 1], **kw).bias()
    mon.close("elementwise", one, got[i:i + 1], rtol=1e-12, atol=1e-14, key=name + "|subset")
    q = rng.permutation(nn)
    mon.close("elementwise", cls(nu=nu[q], m=m[q], n_eff=neff[q], **kw).bias(), got[q], rtol=1e-12, atol=1e-14, key=name + "|order")
    mon.check("positive-finite", np.all(np.isfinite(got)), key=name, msg="non-finite bias")
    if not over:
        nus = np.geomspace(2.5, 40, 30)
        ms = mstar * np.geomspace(3, 1e4, 30)
        b = cls(nu=nus, m=ms, n_eff=np.full(30, -1.5), **kw).bias()
        if name != "Seljak04Cosmo":
            mon.check("increasing", (np.diff(b) > 0).all() or name == "UnityBias", key=name, msg="bias not increasing with mass", b=b)
    if rng.random() < 0.3:
        mon.raises("formula", lambda: cls(nu=nu, m=m, n_eff=neff, nosuch=1.0), key=name + "|unknown-parameter")


def pbs(case, mon, rng, B):
    from hmf.halos.mass_definitions import SOMean

    name = case["name"]
    cls = getattr(B, name)
    f = cls.pair_hmf[0]
    delta = float(rng.choice([200, 300, 800, 1600, 3200, rng.uniform(200, 3200)])) if name == "Tinker10PBSplit" else 200.0
    z = float(rng.choice([0, rng.uniform(0, 3), rng.uniform(3, 6)])) if name == "Tinker10PBSplit" else 0.0
    dc = rng.uniform(1.6, 1.75)
    bkw, fkw = {}, {}
    if name in ("ST99", "Manera10"):
        q, p = rng.uniform(0.6, 0.9), rng.uniform(0.05, 0.4)
        bkw, fkw = dict(q=q, p=p), dict(a=q, p=p)
    lo = 1e-3
    nu = np.exp(np.linspace(np.log(lo), np.log(50), 4001))
    x = 0.5 * np.log(nu)
    fs = f(nu2=nu, m=np.ones_like(nu), delta_c=dc, z=z, mass_definition=SOMean(overdensity=delta), **fkw).fsigma
    g = np.gradient(np.log(fs), x, edge_order=2)
    b = cls(nu=nu, delta_c=dc, delta_halo=delta, z=z, **bkw).bias()
    mon.close("pbs", b, 1 - g / dc, rtol=1e-4, atol=2e-4, key=name, delta=delta, z=z)
    got = np.trapezoid(fs * b, x)
    want = np.trapezoid(fs, x) + (fs[0] - fs[-1]) / dc
    mon.close("pbs-mean", got, want, rtol=2e-4, key=name)
    if name in ("Mo96", "ST99"):
        mon.close("pbs-mean", got, 1.0, atol=fs[0] * 4, key=name + "|unit")


def model(case, mon, rng, B):
    from halomod import DMHaloModel

    name = case["name"]
    delta = int(rng.choice(TVIR))
    over, p = params(rng, name, delta)
    c = cosmo(rng)
    n, s8 = rng.uniform(0.92, 1.02), rng.uniform(0.7, 0.95)
    z = 0.0 if name == "Tinker10PBSplit" else float(rng.choice([0.0, rng.uniform(0, 2)]))
    md = str(rng.choice(["SOMean", "SOCritical"])) if name in ("Tinker10",) else "SOMean"
    hm = DMHaloModel(bias_model=name, bias_params=over, cosmo_model=c, n=n, sigma_8=s8, z=z, mdef_model=md, hmf_model="SMT",
                     mdef_params={"overdensity": delta}, Mmin=float(rng.uniform(5, 10)), Mmax=float(rng.uniform(15, 17)), disable_mass_conversion=False, **FAST)
    got = hm.halo_bias
    dm = delta if md == "SOMean" else delta / c.Om(z)
    ms = hm.mass_nonlinear
    want = formula(name, p, hm.nu, hm.delta_c, hm.m, ms, dm, n, s8, c.h, c.Om0, hm.n_eff, z)
    mon.close("model", got, want, rtol=1e-8, atol=1e-9, key=name)
    mon.close("model", got, formula(name, p, (hm.delta_c / hm.sigma) ** 2, hm.delta_c, hm.m, ms, dm, n, s8, c.h, c.Om0, hm.n_eff, z),
              rtol=1e-6, atol=1e-7, key=name + "|peak-height")
    if hm.nu.min() < 0.8 and hm.nu.max() > 1.2:
        from scipy.interpolate import CubicSpline

        mon.close("mstar", np.exp(CubicSpline(np.log(hm.m), np.log(hm.sigma))(np.log(ms))), hm.delta_c, rtol=1e-3, key="nu=1")
    if name.startswith("Seljak"):
        return
    b = got[hm.nu > 2.5]
    if not over and name not in ("UnityBias",) and len(b) > 4:
        mon.check("increasing", (np.diff(b) > 0).all(), key=name + "|model")


def model_z(case, mon, rng, B):
    from halomod import DMHaloModel

    name = case["name"]
    z = float(rng.uniform(0.3, 2.5))
    c = cosmo(rng)
    bm = B.make_colossus_bias("bhattacharya11") if name == "colossus" else name
    hm = DMHaloModel(bias_model=bm, z=z, cosmo_model=c, hmf_model="SMT", mdef_model="SOMean", Mmin=10, Mmax=16, disable_mass_conversion=False, **FAST)
    got = hm.halo_bias
    if name == "colossus":
        from colossus.lss.bias import haloBiasFromNu

        f = lambda zz: haloBiasFromNu(nu=np.sqrt(hm.nu), z=zz, mdef="200m", model="bhattacharya11")
    else:
        f = lambda zz: formula(name, DEF[name], hm.nu, hm.delta_c, delta=200, z=zz)
    # the known deviation is exactly "the z=0 relation was used"; anything else gets its own key
    stale = np.allclose(got, f(0.0), rtol=1e-9) and not np.allclose(f(z), f(0.0), rtol=1e-9)
    mon.close("model-z", got, f(z), rtol=1e-8, key=name + ("|evaluated at z=0" if stale else "|value"), z=z)


def colossus(case, mon, rng, B):
    from colossus.cosmology import cosmology as CC
    from colossus.lss.bias import haloBiasFromNu
    from hmf.halos.mass_definitions import SOCritical, SOMean

    name = case["name"]
    md, cn = [(SOMean(), "200m"), (SOCritical(), "200c")][int(rng.integers(2)) if name == "tinker10" else 0]
    kw = {}
    if name == "sheth01" or name == "cole89":
        pass
    cls = B.make_colossus_bias(name, mdef=md, **kw)
    c1, c2 = cosmo(rng), cosmo(rng)
    z = float(rng.choice([0, rng.uniform(0, 2)]))
    nu = np.exp(rng.uniform(np.log(0.05), np.log(30), 12))
    a = cls(nu=nu, cosmo=c1, z=z, n=0.96, sigma_8=0.8)
    b = cls(nu=nu, cosmo=c2, z=z, n=1.0, sigma_8=0.7)
    for who, o, c, n, s in (("first", a, c1, 0.96, 0.8), ("second", b, c2, 1.0, 0.7), ("first-again", a, c1, 0.96, 0.8)):
        got = None
        try:
            got = np.asarray(o.bias(), dtype=float)
        except Exception as e:  # noqa: BLE001
            got = e
        CC.fromAstropy(c, sigma8=s, ns=n, cosmo_name="", persistence="")
        try:
            want = haloBiasFromNu(nu=np.sqrt(nu), z=z, mdef=cn, model=name)
        except Exception as e:  # noqa: BLE001
            mon.check("colossus", isinstance(got, type(e)), key=f"{name}|{who}|error", msg=f"{got!r} vs {e!r}")
            continue
        if isinstance(got, Exception):
            mon.violation("colossus", f"{name}|{who}|raised", repr(got))
            continue
        mon.close("colossus", got, want, rtol=1e-10, key=f"{name}|{who}")


def sdf(xi, p):
    return np.sqrt((1 + p["a"] * xi) ** p["b"] / (1 + p["c"] * xi) ** p["d"])


def sd(case, mon, rng, B):
    p = dict(a=1.17, b=1.49, c=0.69, d=2.09)
    over = {k: float(v * rng.uniform(0.8, 1.2)) for k, v in p.items() if rng.random() < 0.4}
    xi = np.concatenate([rng.uniform(-0.5, 0.5, 10), 10 ** rng.uniform(-6, 4, 20)])
    keep = xi.copy()
    o = B.TinkerSD05(xi_dm=xi, **over)
    got = o.bias_scale()
    mon.close("scale-dependent", got, sdf(xi, {**p, **over}), rtol=1e-10, key="TinkerSD05")
    mon.equal("scale-dependent", xi, keep, key="input")
    mon.close("scale-dependent", B.TinkerSD05(xi_dm=xi[3:4], **over).bias_scale(), got[3:4], rtol=1e-12, key="subset")
    mon.close("scale-dependent", B.TinkerSD05(xi_dm=np.array([1e-9])).bias_scale(), [1.0], atol=1e-7, key="large-scale")


def sdmodel(case, mon, rng, B):
    from halomod import DMHaloModel

    over = dict(b=float(rng.uniform(1.3, 1.7)))
    hm = DMHaloModel(sd_bias_model="TinkerSD05", sd_bias_params=over, Mmin=10, Mmax=16, dr_table=0.05, z=float(rng.uniform(0, 1)), **FAST)
    r = getattr(hm, "_r_table", None)
    if r is None:
        mon.note("no-separation-table")
        return
    xi = hm.corr_halofit_mm_fnc(r)
    mon.close("scale-dependent", hm.sd_bias_correction, sdf(xi, dict(a=1.17, b=over["b"], c=0.69, d=2.09)), rtol=1e-8, key="model")
    mon.check("scale-dependent", DMHaloModel(Mmin=10, Mmax=16, **FAST).sd_bias_correction is None, key="none")


def mean(case, mon, rng, B):
    from halomod import DMHaloModel

    name = case["name"]
    f = getattr(B, name).pair_hmf[0].__name__
    hm = DMHaloModel(bias_model=name, hmf_model=f, Mmin=-2, Mmax=18, force_unity_dm_bias=False, transfer_model="EH", dlog10m=0.05,
                     dlnk=0.05, lnk_max=14, lnk_min=-12, n=float(rng.uniform(0.94, 1)), sigma_8=float(rng.uniform(0.75, 0.9)))
    i = np.trapezoid(hm.m**2 * hm.dndm * hm.halo_bias, np.log(hm.m)) / hm.mean_density0
    # all but the mass below Mmin: f(nu_min)(1 + 1/delta_c) bounds what is left out
    x = 0.5 * np.log(hm.nu)
    left = hm.fsigma[0] / 0.15
    mon.close("unity-mean", i, 1.0, atol=left, key=name)
    want = np.trapezoid(hm.fsigma, x) + hm.fsigma[0] / hm.delta_c
    mon.close("unity-mean", i, want, rtol=0.01, key=name + "|exact")
    mon.close("unity-mean", float(hm.bias_effective_matter), i * hm.mean_density0 / float(hm.mean_density_in_halos), rtol=0.01, key=name + "|attribute")
