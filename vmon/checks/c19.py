"""C19: cross-correlations of two tracers against dense mass integrals, symmetry and the auto-correlation limit."""
from __future__ import annotations

import copy
import warnings

import numpy as np

from ..core import rng_for
from . import modelgen as G
from .refint import Halos, edges_of, hod_by_hand, transform

PROPERTY = "C19"
RULE = ("Random pairs of tracers (occupations, profiles, concentrations) in one random dark-matter model with random correlation coefficients: pair functions "
        "against their definition, 1-halo and 2-halo terms against dense integrals over both hand-built occupations, both orders of the two models, identical "
        "models against the auto-correlation, and random updates of either side.")
REQUIRED = ["pairs", "power-1h", "power-2h", "corr", "symmetric", "auto-1h", "auto-2h", "update-one-side", "coefficients"]
CASE_TIMEOUT = 120


def cases(rng, tier):
    n = 140 if tier == "quick" else 700
    out = [dict(kind="pair", rep=i, a=i % 10, cost=2) for i in range(n)]
    out += [dict(kind="auto", rep=i, a=i % 10, cost=2) for i in range(n // 2)]
    return out


HODS = [h for h in G.HODS if h != "Spinelli19"]
TKEYS = ["hod_model", "hod_params", "tracer_profile_model", "tracer_profile_params", "tracer_concentration_model", "tracer_concentration_params"]


def tracer_of(rng, a):
    kw = G.draw(rng, "tracer", grid="medium", exclusion=False, sdbias=False, inf=False, hods=[HODS[a % 10]], masks=False)
    return {k: kw[k] for k in TKEYS if k in kw}


class Full:
    """Completely correlated tracers: the same objects counted twice."""


def fully_correlated():
    from halomod.cross_correlations import ConstantCorr

    class FullCorr(ConstantCorr.__mro__[1]):
        _defaults = {}

        def R_ss(self, m):
            return 1.0

        def R_cs(self, m):
            h = self.hods[0]
            s = h.sigma_central(m) * h.sigma_satellite(m)
            with np.errstate(all="ignore"):
                r = (h.cs_pairs(m) - h.central_occupation(m) * h.satellite_occupation(m)) / s
            return np.where(s > 0, r, 0.0)

        R_sc = R_cs

        def self_pairs(self, m):
            h = self.hods[0]
            return h.satellite_occupation(m) ** 2 + h.sigma_satellite(m) ** 2 - h.ss_pairs(m)

    return FullCorr


def run(case, mon):
    rng = rng_for("c19", case["seed"])
    warnings.simplefilter("ignore")
    base = G.draw(rng, "dm", grid="medium", exclusion=False, sdbias=False, inf=False, masks=True)
    base.update(rmin=0.05, rmax=50, rnum=5, rlog=True)
    for k in ("halo_profile_model",):
        if base[k] == "Constant":
            base[k] = "NFW"
    t1 = tracer_of(rng, case["a"])
    try:
        globals()["run_" + case["kind"]](case, mon, rng, base, t1)
    except AssertionError as e:
        if "conver" in str(e):
            mon.note("rejected")
            return
        raise


def build(base, t1, t2, par, model=None):
    from halomod.cross_correlations import ConstantCorr, CrossCorrelations

    return CrossCorrelations(cross_hod_model=model or ConstantCorr, cross_hod_params=dict(par), halo_model_1_params=copy.deepcopy({**base, **t1}),
                             halo_model_2_params=copy.deepcopy({**base, **t2}))


def step_err(R1, R2, f):
    """Jumps of either occupation that are not resolved by the grid."""
    w = np.abs(f) * R1.M
    err = 0.0
    for h in (R1.h, R2.h):
        es = edges_of(h)
        if type(h).__name__ == "Tinker05":
            es = es + [h.mmin]
        for e in es:
            near = np.abs(R1.x - e * np.log(10)) < 1.5 * R1.cell
            err += (w[near].max() if near.any() else 0) * R1.cell
    return err


def judge(mon, cc, k1, k2, par, rng, key, tag=None):
    h1, h2 = cc.halo_model_1, cc.halo_model_2
    R1, R2 = Halos(h1, k1), Halos(h2, k2)
    if not (R1.n > 0 and R2.n > 0):
        mon.note("no tracers")
        return
    # one set of masses for both
    x = np.union1d(R1.x, R2.x)
    M = np.exp(x)
    on = lambda R, q: np.interp(x, R.x, getattr(R, q))
    d, b = on(R1, "dndm"), on(R1, "bias")
    g1, g2 = hod_by_hand(h1, k1), hod_by_hand(h2, k2)
    c1, s1, c2, s2 = [f(M) + 0 * M for f in (g1.central_occupation, g1.satellite_occupation, g2.central_occupation, g2.satellite_occupation)]
    sc = lambda g, q: np.nan_to_num(getattr(g, q)(M) + 0 * M)
    ss = s1 * s2 + sc(g1, "sigma_satellite") * sc(g2, "sigma_satellite") * par.get("R_ss", 0)
    cs = c1 * s2 + sc(g1, "sigma_central") * sc(g2, "sigma_satellite") * par.get("R_cs", 0)
    scp = c2 * s1 + sc(g2, "sigma_central") * sc(g1, "sigma_satellite") * par.get("R_sc", 0)
    mm = 10 ** rng.uniform(10, 15.5, 5)
    for q, w in (("ss", ss), ("cs", cs), ("sc", scp)):
        mon.close("pairs", getattr(cc.cross_hod, f"{q}_cross_pairs")(M)[::50], w[::50], rtol=1e-9, atol=1e-300, key=f"{q}|{key}")
        if tag:
            mon.observe(tag, f"{q}|{key}")
    kk = np.array(h1.k)
    hi = 2.0 if "Constant" in (type(h1.tracer_profile).__name__, type(h2.tracer_profile).__name__) else 10.0
    kk = np.sort(rng.choice(kk[(kk > 2e-3) & (kk < hi)], 5, replace=False))
    u1 = h1.tracer_profile.u(kk, M, c=np.asarray(h1.tracer_concentration.cm(M, h1.z)))
    u2 = h2.tracer_profile.u(kk, M, c=np.asarray(h2.tracer_concentration.cm(M, h2.z)))
    n = R1.n * R2.n
    en = 2.5e-3 + R1.step_error(R1.dndm * R1.tot) / R1.n + R2.step_error(R2.dndm * R2.tot) / R2.n
    S = type("S", (), dict(x=x, M=M, h=R1.h, cell=R1.cell))
    f = d * (u1 * u2 * ss + u1 * scp + u2 * cs)
    want = np.trapezoid(f * M, x, axis=-1) / n
    tol = np.array([step_err(S, R2, q) / n for q in f])
    mon.close("power-1h", cc.power_1h_cross_fnc(kk), want, rtol=5e-3 + 2 * en, atol=tol, key=key)
    B1 = np.array([R1.integ(R1.dndm * R1.bias * R1.tot * q) for q in R1.ut(kk)]) / R1.n
    B2 = np.array([R2.integ(R2.dndm * R2.bias * R2.tot * q) for q in R2.ut(kk)]) / R2.n
    e1 = np.array([R1.step_error(R1.dndm * R1.bias * R1.tot * q) for q in R1.ut(kk)]) / R1.n
    e2 = np.array([R2.step_error(R2.dndm * R2.bias * R2.tot * q) for q in R2.ut(kk)]) / R2.n
    P = h1.power_hh(kk, mmin=13.0, mmax=13.0) / float(np.interp(13 * np.log(10), R1.x, R1.bias)) ** 2
    mon.close("power-2h", cc.power_2h_cross_fnc(kk), P * B1 * B2, rtol=6e-3 + 2 * en, atol=np.abs(P) * (e1 * np.abs(B2) + e2 * np.abs(B1)) + 1e-12 * P.max(), key=key)
    rr = np.exp(rng.uniform(np.log(0.15), np.log(5), 3))
    table = getattr(h1, "_r_table", None)
    if table is not None:
        rr = np.sort(rng.choice(table[(table > 0.15) & (table < 5)], 3, replace=False))
    for q in ("1h", "2h"):
        fn = getattr(cc, f"power_{q}_cross_fnc")
        mon.close("corr", getattr(cc, f"corr_{q}_cross_fnc")(rr), transform(fn, rr), rtol=0.03 if table is not None else 0.15,
                  atol=4e-3 * transform(fn, rr, scale=True) + 1e-2 * (q == "1h"), key=f"{q}|{key}")
    return R1, R2


OUT = ["power_1h_cross", "power_2h_cross", "power_cross", "corr_1h_cross", "corr_2h_cross", "corr_cross"]


def run_pair(case, mon, rng, base, t1):
    t2 = tracer_of(rng, int(rng.integers(10)))
    par = dict(R_ss=G.U(rng, -0.5, 1), R_cs=G.U(rng, -0.3, 0.6), R_sc=G.U(rng, -0.3, 0.6)) if case["rep"] % 3 else {}
    try:
        cc = build(base, t1, t2, par)
        cc.halo_model_1.dndm
    except Exception as e:  # noqa: BLE001
        mon.note(f"rejected {type(e).__name__}")
        return
    key = f"{t1['hod_model']}|{t2['hod_model']}"
    R = judge(mon, cc, {**base, **t1}, {**base, **t2}, par, rng, key)
    if R is None:
        return
    # swapped, with the roles of the coefficients
    sw = dict(par)
    if par:
        sw.update(R_cs=par["R_sc"], R_sc=par["R_cs"])
    other = build(base, t2, t1, sw)
    for q in OUT:
        mon.close("symmetric", getattr(other, q), getattr(cc, q), rtol=1e-6, atol=1e-9 * np.max(np.abs(getattr(cc, q))), key=f"{q}|{key}")
    # coefficients act linearly, each on its own term
    k = np.array([0.01, 0.3, 2.0])
    p0 = build(base, t1, t2, {}).power_1h_cross_fnc(k)
    tot = 0
    for c in ("R_ss", "R_cs", "R_sc"):
        tot = tot + build(base, t1, t2, {c: 0.5}).power_1h_cross_fnc(k) - p0
    mon.close("coefficients", build(base, t1, t2, dict(R_ss=0.5, R_cs=0.5, R_sc=0.5)).power_1h_cross_fnc(k) - p0, tot, rtol=1e-6, atol=1e-8 * np.max(np.abs(p0)), key=key)
    # updating one side
    side = int(rng.integers(2)) + 1
    mine, yours = ({**base, **t1}, {**base, **t2})
    new = G.hod_params(rng, (t1, t2)[side - 1]["hod_model"], n=2)
    before = {q: np.array(getattr(cc.halo_model_2 if side == 1 else cc.halo_model_1, q)) for q in ("mean_tracer_den", "power_auto_tracer", "total_occupation")}
    cc.update(**{f"halo_model_{side}_params": dict(hod_params=new)}) if rng.random() < 0.6 else (cc.halo_model_1 if side == 1 else cc.halo_model_2).update(hod_params=new)
    for q, v in before.items():
        mon.equal("update-one-side", np.array(getattr(cc.halo_model_2 if side == 1 else cc.halo_model_1, q)), v, key=q)
    if side == 1:
        mine = G.merge(mine, dict(hod_params=new))
    else:
        yours = G.merge(yours, dict(hod_params=new))
    judge(mon, cc, mine, yours, par, rng, key, tag="update-one-side")


def run_auto(case, mon, rng, base, t1):
    full = case["rep"] % 2 == 0
    base["force_1halo_turnover"] = False
    if not full:
        t1["hod_params"].pop("central", None)
    try:
        cc = build(base, t1, t1, {}, fully_correlated() if full else None)
        hm = G.build(G.model_class("Tracer"), {**base, **t1})
        hm.dndm
    except Exception as e:  # noqa: BLE001
        mon.note(f"rejected {type(e).__name__}")
        return
    R = Halos(hm, {**base, **t1})
    if not R.n > 0:
        return
    name = t1["hod_model"]
    if not full and (hm.hod.central_condition_inherent):
        full = True
        cc = build(base, t1, t1, {}, fully_correlated())
    k = np.array(hm.k)
    k = k[(k > 1e-3) & (k < 10)]
    p = hm.power_1h_auto_tracer_fnc(k)
    tol = np.array([step_err(R, R, R.dndm * (2 * R.cs * u + R.ss * u**2)) for u in R.ut(k)]) / R.n**2
    tol = tol + 5e-3 * np.array([R.integ(np.abs(R.dndm * (2 * R.cs * u + R.ss * u**2))) for u in R.ut(k)]) / R.n**2
    mon.close("auto-1h", cc.power_1h_cross_fnc(k), p, rtol=np.where(k < 3, 4e-3, 2e-2), atol=tol if not R.sharp else 0.5 * tol, key=f"{name}|{'full' if full else 'uncorrelated'}|central={bool(t1['hod_params'].get('central'))}")
    a = hm.power_2h_auto_tracer_fnc(k)
    e = np.array([R.step_error(R.dndm * R.bias * R.tot * u) for u in R.ut(k)]) / R.n
    mon.close("auto-2h", cc.power_2h_cross_fnc(k), a, rtol=4e-3 + 2 * e / max(1e-9, 1), atol=1e-9 * np.max(np.abs(a)), key=name)
    r = np.array([0.3, 1.0, 5.0, 20.0])
    mon.close("auto-2h", cc.corr_2h_cross_fnc(r), hm.corr_2h_auto_tracer_fnc(r), rtol=1e-2 + 2 * float(e.max()), atol=2e-3, key=f"corr|{name}")
