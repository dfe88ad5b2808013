"""C13: concentration-mass relations against their formulae and defining equations."""
from __future__ import annotations

import warnings

import numpy as np
from scipy import special as sp
from scipy.interpolate import CubicSpline
from scipy.optimize import brentq

PROPERTY = "C13"
RULE = ("Random masses (1e6..1e16, any order), redshifts 0..8, cosmologies, mass definitions and parameter dictionaries for every "
        "registered relation, standalone and inside halo models; colossus-wrapped relations with another cosmology alive.")
REQUIRED = ["formula", "defining-bullock", "defining-ludlow", "mass-nonlinear", "pointwise", "norm", "non-increasing", "positive-finite",
            "colossus", "interp", "interp-gaps", "model", "inputs", "default-redshift"]
ASSUMPTIONS = ["The linear growth factor and mass variance are hmf's (trusted); published coefficients are those in each class reference."]
CASE_TIMEOUT = 60

DUFFY = {("200c", "full"): (5.71, -0.084, 0.47), ("200c", "relaxed"): (6.71, -0.091, 0.44), ("vir", "full"): (7.85, -0.081, 0.71),
         ("vir", "relaxed"): (9.23, -0.090, 0.69), ("200m", "full"): (10.14, -0.081, 1.01), ("200m", "relaxed"): (11.93, -0.090, 0.99)}
NAMES = ["Bullock01", "Bullock01Power", "Maccio07", "Duffy08", "Zehavi11", "Ludlow16", "Ludlow16Empirical"]
COL = ["bullock01", "duffy08", "klypin11", "prada12", "bhattacharya13", "dutton14", "diemer15", "child18", "diemer19", "ishiyama21"]
FAST = dict(transfer_model="EH", dlog10m=0.1, dlnk=0.05, lnk_min=-14, lnk_max=14, Mmin=8, Mmax=16)


def cases(rng, tier):
    k = 3 if tier == "quick" else 20
    out = [dict(kind="rel", name=n, cost=3) for n in NAMES for _ in range(7 * k)]
    out += [dict(kind="model", name=n, cost=2) for n in NAMES for _ in range(2 * k)]
    out += [dict(kind="colossus", name=n, cost=4) for n in COL for _ in range(k)]
    out += [dict(kind="interp", name=n, cost=4) for n in ("prada12", "klypin11", "Duffy08", "ludlow16", "Ludlow16") for _ in range(k)]
    out += [dict(kind="duffy", mdef=d, sample=s) for d in ("SOMean", "SOCritical", "SOVirial") for s in ("full", "relaxed") for _ in range(k)]
    out += [dict(kind="gaps", cost=1) for _ in range(4 * k)]
    out += [dict(kind="mstar") for _ in range(6 * k)]
    return out


def cosmo(rng):
    from astropy.cosmology import FlatLambdaCDM

    return FlatLambdaCDM(H0=float(rng.uniform(60, 80)), Om0=float(rng.uniform(0.2, 0.45)), Ob0=0.045, Tcmb0=2.7)


class Ref:
    """Reference statistics from a model at z=0 (mass variance) in the same cosmology."""

    def __init__(self, c, n, s8, z):
        from halomod import DMHaloModel

        h = DMHaloModel(cosmo_model=c, n=n, sigma_8=s8, z=0.0, **{**FAST, "Mmin": 0, "Mmax": 17})
        s = CubicSpline(np.log(h.m), np.log(h.sigma))
        self.sigma = lambda m: np.exp(s(np.log(m)))
        self.mrange = (h.m[0], h.m[-1])
        self.D = lambda zz: float(np.squeeze(h.growth.growth_factor(float(zz))))
        self.c = c


def nfw(x):
    return np.log1p(x) - x / (1 + x)


def expected(name, p, m, z, mdn, ref, rel_dc=1.686):
    N = p.get("norm", 1.0)
    if name == "Duffy08":
        t = DUFFY.get((mdn, p.get("sample", "relaxed")), DUFFY["200c", p.get("sample", "relaxed")])
        a, b, c = (p[k] if p.get(k) is not None else t[i] for i, k in enumerate("abc"))
        return N * a * (m / p.get("ms", 2e12)) ** b * (1 + z) ** -c
    if name == "Zehavi11":
        return N * p.get("a", 11.0) * (m / p.get("ms", 2.26e12)) ** p.get("b", -0.13) * (1 + z) ** -p.get("c", 1.0)
    if name == "Bullock01Power":
        ms = p.get("ms")
        if ms is None:
            lo, hi = ref.mrange
            f = lambda lm: ref.sigma(np.exp(lm)) * ref.D(z) - rel_dc
            if f(np.log(lo)) < 0:
                return None
            ms = np.exp(brentq(f, np.log(lo), np.log(hi)))
        return N * p.get("a", 9.0) * (m / ms) ** p.get("b", -0.13) * (1 + z) ** -p.get("c", 1.0)
    if name == "Maccio07":
        return N * p.get("c_0", 28.65) * (m / 1e11) ** -0.109 * 4 / (1 + z) ** p.get("gamma", 1.45)
    if name == "Ludlow16Empirical":
        a = 1 / (1 + z)
        D = ref.D(z)
        g = lambda k, d: p.get(k, d)
        c0 = g("c0_0", 3.395) * (1 + z) ** g("c0_z", -0.215)
        be = g("beta_0", 0.307) * (1 + z) ** g("beta_z", 0.54)
        g1 = g("gamma1_0", 0.628) * (1 + z) ** g("gamma1_z", -0.047)
        g2 = g("gamma2_0", 0.317) * (1 + z) ** g("gamma2_z", -0.893)
        nu0 = (4.135 - 0.564 / a - 0.210 / a**2 + 0.0557 / a**3 - 0.00348 / a**4) / D
        xi = 1e10 / m
        sg = D * 22.26 * xi**0.292 / (1 + 1.53 * xi**0.275 + 3.36 * xi**0.198)
        y = rel_dc / sg / nu0
        return N * c0 * y**-g1 * (1 + y ** (1 / be)) ** (-be * (g2 - g1))
    raise KeyError(name)


def ludlow(p, m, z, delta, ref, Y, dc=1.686):
    Om, Ol = ref.c.Om0, ref.c.Ode0
    s2 = 2 * (ref.sigma(p.get("f", 0.02) * m) ** 2 - ref.sigma(m) ** 2)
    Dz = ref.D(z)

    def zf(c):
        r = delta * c**3 * Y(1.0) / Y(c) / p.get("C", 650)
        br = (r * (Om * (1 + z) ** 3 + Ol) - Ol) / Om
        return br ** (1 / 3) - 1 if br > 0 else -2.0

    def f(lc):
        c = np.exp(lc)
        q = zf(c)
        if q <= z:
            return -1.0
        return Y(1.0) / Y(c) - sp.erfc(dc * (1 / ref.D(q) - 1 / Dz) / np.sqrt(s2))

    g = np.linspace(0, np.log(100), 80)
    g = np.array([x for x in g if zf(np.exp(x)) < 48])
    v = np.array([f(x) for x in g])
    i = np.nonzero((v[:-1] < 0) & (v[1:] >= 0))[0]
    if len(i) != 1:
        return None
    c = np.exp(brentq(f, g[i[0]], g[i[0] + 1]))
    return c if c > 1.1 else None


def params(rng, name):
    if rng.random() < 0.4:
        return {}
    u = rng.uniform
    p = {"norm": float(u(0.5, 2))}
    if name == "Bullock01":
        p.update(F=float(u(0.003, 0.05)), K=float(u(2.5, 4.5)))
    if name in ("Bullock01Power", "Zehavi11", "Duffy08"):
        for k, v in dict(a=float(u(5, 13)), b=float(rng.choice([0.0, u(-0.2, -0.05)])), c=float(rng.choice([0.0, u(0.3, 1.2)])),
                         ms=float(10 ** u(11.5, 13))).items():
            if rng.random() < 0.5:
                p[k] = v
    if name == "Duffy08" and rng.random() < 0.6:
        p["sample"] = str(rng.choice(["full", "relaxed"]))
    if name == "Maccio07":
        p.update(c_0=float(u(20, 40)), gamma=float(u(0.5, 2)))
    if name == "Ludlow16":
        p.update(f=float(u(0.01, 0.04)), C=float(u(500, 800)))
    if name == "Ludlow16Empirical":
        p.update(c0_0=float(u(3, 4)), c0_z=float(u(-0.3, -0.1)), beta_0=float(u(0.25, 0.4)), beta_z=float(u(0.4, 0.6)), gamma1_0=float(u(0.5, 0.7)),
                 gamma1_z=float(u(-0.1, 0)), gamma2_0=float(u(0.3, 0.4)), gamma2_z=float(u(-1, -0.7)))
    return p


def run(case, mon):
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(case["seed"])
    {"rel": rel, "model": rel, "colossus": colossus, "interp": interp, "mstar": mstar, "duffy": duffy, "gaps": gaps}[case["kind"]](case, mon, rng)


def setup(rng, name, z, p):
    from halomod import DMHaloModel

    c = cosmo(rng)
    n, s8 = float(rng.uniform(0.93, 1.0)), float(rng.uniform(0.7, 0.95))
    md = {"Duffy08": str(rng.choice(["SOMean", "SOCritical", "SOVirial"])), "Maccio07": "SOMean"}.get(name, "SOCritical")
    prof = "NFW"
    if name == "Ludlow16":
        prof = str(rng.choice(["NFW", "NFW", "Hernquist"]))
    hm = DMHaloModel(cosmo_model=c, n=n, sigma_8=s8, z=z, mdef_model=md, hmf_model="SMT", disable_mass_conversion=False, halo_profile_model=prof,
                     halo_concentration_model=name, halo_concentration_params=p, **FAST)
    return hm, c, n, s8, md, prof


def rel(case, mon, rng):
    name = case["name"]
    z = float(rng.choice([0.0, rng.uniform(0, 2), rng.uniform(2, 6)]))
    p = params(rng, name)
    hm, c, n, s8, md, prof = setup(rng, name, z, p)
    ref = Ref(c, n, s8, z)
    mdn = {"SOMean": "200m", "SOCritical": "200c", "SOVirial": "vir"}[md]
    r = hm.halo_concentration
    if case["kind"] == "model":
        m = hm.m
        got = hm.cmz_relation
    else:
        size = int(rng.integers(2, 12)) if rng.random() < 0.85 else int([1, 101, 300, 1001][rng.integers(4)])
        m = 10 ** rng.uniform(8, 15.5, min(size, 101) if name.startswith(("Ludlow16", "Bullock01")) else size)
        if rng.random() < 0.4:
            m.sort()
        keep = m.copy()
        got = r.cm(m, z)
        mon.equal("inputs", m, keep, key=name)
    clause = "model" if case["kind"] == "model" else "formula"
    mon.check("positive-finite", np.all(np.isfinite(got)) and np.all(got > 0) and np.shape(got) == m.shape, key=name, got=got)
    o = np.argsort(m)
    Y = nfw if prof == "NFW" else (lambda x: x**2 / (2 * (1 + x) ** 2))
    if name == "Bullock01":
        zc = got * (1 + z) / p.get("norm", 1) / p.get("K", 3.4) - 1
        s = ref.sigma(p.get("F", 0.01) * m)
        for i in range(0, len(m), max(1, len(m) // 8)):
            if s[i] <= 1.686 / ref.D(z) * 1.001:  # not collapsed by z
                mon.close("defining-bullock", zc[i], z, rtol=2e-3, atol=2e-3 if s[i] > 1.686 / ref.D(z) * 0.999 else 1e-9, key="late")
            elif zc[i] < 48:
                mon.close("defining-bullock", ref.D(zc[i]) * s[i], 1.686, rtol=4e-3, key="collapse")
    elif name == "Ludlow16":
        delta = hm.mdef.halo_overdensity_crit(z, c)
        mon.close("defining-ludlow", delta, 200.0, rtol=1e-9, key="delta")
        for i in range(0, len(m), max(1, len(m) // 6)):
            w = ludlow(p, m[i], z, 200.0, ref, Y)
            if w is None:
                mon.note("ludlow: no bracketed solution")
                continue
            mon.close("defining-ludlow", got[i], p.get("norm", 1) * w, rtol=9e-3, key="solution", z=z, m=m[i])
    else:
        w = expected(name, p, m, z, mdn, ref)
        if w is not None:
            mon.close(clause, got, w, rtol=5e-4 if (name == "Bullock01Power" and "ms" not in p) else (1e-5 if name == "Ludlow16Empirical" else 1e-9),
                      key=name, z=z, mdef=md, p=p)
    if clause == "model":
        mon.equal("model", got, r.cm(m, z), key=name + "|component")
        mon.equal("model", hm.halo_profile.cm_relation(m), got, key=name + "|profile")
    if p.get("b", -1) != 0:
        sel = (m[o] > 1e8) & (m[o] < 1e15.__float__() * 3)
        if name != "Ludlow16Empirical" or z < 2:
            d = np.diff(got[o][sel])
            mon.check("non-increasing", (d <= 1e-9 * got.max()).all(), key=name, z=z, c=got[o], m=m[o])
    # pointwise
    i = int(rng.integers(len(m)))
    mon.close("pointwise", r.cm(m[i:i + 1], z), got[i:i + 1], rtol=1e-10, key=name + "|subset")
    q = rng.permutation(len(m))
    mon.close("pointwise", r.cm(m[q], z), got[q], rtol=1e-10, key=name + "|order")
    with mon.guard("pointwise", key=name + "|scalar"):
        mon.close("pointwise", np.squeeze(r.cm(float(m[i]), z)), got[i], rtol=1e-10, key=name + "|scalar")
    mi = np.array([10**11, 3 * 10**13])
    with mon.guard("pointwise", key=name + "|int"):
        mon.close("pointwise", r.cm(mi, z), r.cm(mi.astype(float), z), rtol=1e-10, key=name + "|int")
    with mon.guard("default-redshift", key=name):
        mon.close("default-redshift", r.cm(m[:2]), r.cm(m[:2], 0), rtol=1e-12, key=name)
        for zc in ("zc", "zform"):
            if name == "Bullock01" and hasattr(r, zc):
                mon.close("default-redshift", getattr(r, zc)(m), getattr(r, zc)(m, 0), rtol=1e-12, key=f"{name}.{zc}")
    # normalisation
    if not case["kind"] == "model":
        f = float(rng.uniform(0.3, 3))
        hm.update(halo_concentration_params={**p, "norm": p.get("norm", 1.0) * f})
        mon.close("norm", hm.halo_concentration.cm(m, z), f * got, rtol=1e-10, key=name)


def duffy(case, mon, rng):
    """Every line of the published table, without a model around it."""
    from halomod.concentration import Duffy08
    from hmf.halos import mass_definitions as M

    md = getattr(M, case["mdef"])()
    z = float(rng.uniform(0, 2))
    m = 10 ** rng.uniform(10, 15.5, 8)
    p = {k: v for k, v in dict(a=float(rng.uniform(4, 12)), b=float(rng.uniform(-0.2, 0)), c=float(rng.uniform(0.2, 1)),
                               norm=float(rng.uniform(0.5, 2)), ms=float(10 ** rng.uniform(11.5, 13))).items() if rng.random() < 0.25}
    mdn = {"SOMean": "200m", "SOCritical": "200c", "SOVirial": "vir"}[case["mdef"]]
    got = Duffy08(mdef=md, sample=case["sample"], **p).cm(m, z)
    mon.close("formula", got, expected("Duffy08", {**p, "sample": case["sample"]}, m, z, mdn, None), rtol=1e-9, key=f"Duffy08|{mdn}|{case['sample']}")


def gaps(case, mon, rng):
    """Where the relation is undefined (zero) it is interpolated linearly in mass, and is one beyond its range."""
    from halomod import concentration as C

    lo, hi = sorted(10 ** rng.uniform(9, 15, 2))
    glo, ghi = sorted(10 ** rng.uniform(np.log10(lo), np.log10(hi), 2))

    class Gappy(C.Zehavi11):
        def cm(self, m, z=0):
            c = super().cm(m, z)
            return np.where((m < lo) | (m > hi) | ((m > glo) & (m < ghi)), 0.0, c)

    z = float(rng.choice([0.0, rng.uniform(0, 3)]))
    md = Gappy.native_mdefs[0]
    m = np.sort(10 ** rng.uniform(8, 16, 60))
    base, inter = Gappy(mdef=md), C.interp_concentration(Gappy)(mdef=md)
    c = base.cm(m, z)
    keep = m.copy()
    with mon.guard("interp-gaps", key="guard"):
        got = np.asarray(inter.cm(m, z))
        ok = c > 0
        want = np.interp(m, m[ok], c[ok], left=1.0, right=1.0) if ok.any() else np.ones_like(m)
        mon.close("interp-gaps", got, want, rtol=1e-9, key="defined" if ok.any() else "nothing defined")
        mon.close("interp-gaps", inter.cm(m), inter.cm(m, 0), rtol=1e-12, key="default redshift")
        none = m[(m < lo) | (m > hi)]
        if len(none) > 1:
            mon.close("interp-gaps", inter.cm(none, z), np.ones(len(none)), rtol=1e-12, key="nothing defined")
        mon.equal("inputs", m, keep, key="interp")


def mstar(case, mon, rng):
    z = float(rng.uniform(0, 6))
    hm, c, n, s8, md, _ = setup(rng, "Bullock01Power", z, {})
    ref = Ref(c, n, s8, z)
    got = hm.halo_concentration.mass_nonlinear(z)
    f = lambda lm: ref.sigma(np.exp(lm)) * ref.D(z) - 1.686
    lo, hi = np.log(ref.mrange)
    if f(lo) < 0:
        mon.note("mstar below range")
        return
    mon.close("mass-nonlinear", np.log(got), brentq(f, lo, hi), atol=2e-3, key="sigma=delta_c", z=z)
    z2 = float(rng.uniform(0, 1))
    if z2 < z:
        mon.check("mass-nonlinear", hm.halo_concentration.mass_nonlinear(z2) > got, key="grows with time")


def col_value(name, c, s8, n, m, z, mdn, **kw):
    from colossus.cosmology import cosmology as CC
    from colossus.halo import concentration as HC

    CC.fromAstropy(c, sigma8=s8, ns=n, cosmo_name="", persistence="")
    return HC.concentration(M=m, mdef=mdn, z=z, model=name, range_return=False, range_warning=False, **kw)


def colossus(case, mon, rng):
    from colossus.halo import concentration as HC

    from halomod.concentration import make_colossus_cm
    from hmf.cosmology.cosmo import Cosmology

    name = case["name"]
    defs = {"statistic": "mean"} if name in ("diemer15",) and rng.random() < 0.5 else {}
    cls = make_colossus_cm(name, **defs)
    c1, c2 = cosmo(rng), cosmo(rng)
    from astropy.cosmology import FlatLambdaCDM

    c1, c2 = (FlatLambdaCDM(H0=x.H0.value, Om0=x.Om0, Ob0=0.045, Tcmb0=2.7) for x in (c1, c2))
    md = cls.native_mdefs[int(rng.integers(len(cls.native_mdefs)))]
    mdn = md.colossus_name
    z = float(rng.choice([0, rng.uniform(0, 1.5)]))
    m = 10 ** rng.uniform(11, 15, 6)
    f = float(rng.uniform(0.5, 2))
    a = cls(cosmo=Cosmology(cosmo_model=c1), mdef=md, sigma_8=0.8, ns=0.96, **defs)
    a2 = cls(norm=f, cosmo=Cosmology(cosmo_model=c1), mdef=md, sigma_8=0.8, ns=0.96, **defs)
    b = cls(cosmo=Cosmology(cosmo_model=c2), mdef=md, sigma_8=0.7, ns=1.0, **defs)
    for who, o, c, s8, n, g in (("first", a, c1, 0.8, 0.96, 1.0), ("second", b, c2, 0.7, 1.0, 1.0), ("first-again", a, c1, 0.8, 0.96, 1.0), ("norm", a2, c1, 0.8, 0.96, f)):
        try:
            got = o.cm(m, z)
        except Exception as e:  # noqa: BLE001
            got = e
        try:
            want = g * col_value(name, c, s8, n, m, z, mdn, **defs)
        except Exception as e:  # noqa: BLE001
            mon.check("colossus", isinstance(got, type(e)), key=f"{name}|{who}|error", msg=f"{got!r} vs {e!r}")
            continue
        if isinstance(got, Exception):
            mon.violation("colossus", f"{name}|{who}|raised", repr(got))
            continue
        mon.close("colossus", got, want, rtol=1e-9, key=f"{name}|{who}")


def interp(case, mon, rng):
    from halomod import DMHaloModel
    from halomod import concentration as C

    name = case["name"]
    base = getattr(C, name) if hasattr(C, name) else C.make_colossus_cm(name)
    cls = C.interp_concentration(base)
    z = float(rng.choice([0.0, rng.uniform(0, 2)]))
    c = cosmo(rng)
    if c.Tcmb0.value == 0:
        from astropy.cosmology import FlatLambdaCDM

        c = FlatLambdaCDM(H0=c.H0.value, Om0=c.Om0, Ob0=0.045, Tcmb0=2.7)
    kw = dict(cosmo_model=c, z=z, mdef_model="SOCritical", hmf_model="SMT", disable_mass_conversion=False, **FAST)
    a = DMHaloModel(halo_concentration_model=base, **kw)
    b = DMHaloModel(halo_concentration_model=cls, **kw)
    m = a.m
    ca, cb = a.halo_concentration.cm(m, z), b.halo_concentration.cm(m, z)
    ok = ca > 0
    mon.close("interp", cb[ok], ca[ok], rtol=1e-9, key=name + "|defined")
    mon.check("interp", np.all(np.isfinite(cb)) and np.all(cb > 0), key=name + "|positive")
    mon.close("interp", b.cmz_relation, cb, rtol=1e-12, key=name + "|model")
    mon.check("interp", b.halo_concentration.native_mdefs == a.halo_concentration.native_mdefs, key=name + "|mdefs")
