"""C15: totals are the sum of their parts on any scales, and correlations vanish at large separations."""
from __future__ import annotations

import warnings

import numpy as np

from ..core import rng_for
from . import modelgen as G

PROPERTY = "C15"
RULE = ("Random models of every class with every occupation, profile (also without closed-form self-convolution), exclusion, scale-dependent bias, spectrum and option, before and "
        "after random updates: sums of the returned parts are compared with the returned totals at random wavenumbers and separations inside and outside the internal "
        "tables, grid quantities with the callables on the grid, and 1-halo terms and totals are followed to separations beyond any halo.")
REQUIRED = ["power-total", "power-1halo", "corr-total", "corr-1halo", "grid", "one-halo-vanishes", "no-constant", "total-to-2halo", "cross-model", "after-update"]
CASE_TIMEOUT = 200


def cases(rng, tier):
    n = 56 if tier == "quick" else 700
    out = [dict(kind="model", rep=i, hod=i % 11, cls=["Tracer", "Tracer", "Projected", "DM", "Tracer", "WDM", "TracerWDM"][i % 7], cost=2) for i in range(n)]
    out += [dict(kind="slow", rep=i, cost=15) for i in range(3 if tier == "quick" else 12)]
    out += [dict(kind="cross", rep=i, cost=2) for i in range(8 if tier == "quick" else 80)]
    return out


TRACER = [("auto_tracer", 0)]


def sums(mon, hm, tracer, key, rng, wdm=False, tag=None):
    kk = np.sort(np.exp(rng.uniform(np.log(1e-9), np.log(1e5), 9)))
    kk = np.concatenate([kk, [0.01, 0.3, 5.0]])
    # (the internal separation table: sums of functions extended below it are not extensions of sums)
    rr = np.sort(np.exp(rng.uniform(np.log(2e-3), np.log(250), 9)))
    far = np.array([320.0, 900.0])

    def add(clause, name, total, parts, x, off=0.0, rtol=1e-9):
        vals = [p(x) for p in parts]
        want = sum(vals) + off
        scale = np.sum(np.abs(vals), axis=0) + abs(off)
        mon.close(clause, total(x), want, rtol=rtol, scale=scale, atol=1e-300, key=f"{name}|{key}")
        # one point alone
        i = int(rng.integers(len(x)))
        mon.close(clause, total(float(x[i])), want[i], rtol=rtol, scale=scale[i], atol=1e-300, key=f"{name}|scalar")
        if tag:
            mon.observe(tag, f"{name}|{key}")

    if not wdm:
        add("power-total", "matter", hm.power_auto_matter_fnc, [hm.power_1h_auto_matter_fnc, hm.power_2h_auto_matter_fnc], kk)
        add("corr-total", "matter", hm.corr_auto_matter_fnc, [hm.corr_1h_auto_matter_fnc, hm.corr_2h_auto_matter_fnc], rr, off=1)
        add("corr-total", "matter|far", hm.corr_auto_matter_fnc, [hm.corr_1h_auto_matter_fnc, hm.corr_2h_auto_matter_fnc], far, off=1)
    if tracer:
        add("power-1halo", "tracer", hm.power_1h_auto_tracer_fnc, [hm.power_1h_cs_auto_tracer_fnc, hm.power_1h_ss_auto_tracer_fnc], kk)
        add("power-total", "tracer", hm.power_auto_tracer_fnc, [hm.power_1h_auto_tracer_fnc, hm.power_2h_auto_tracer_fnc], kk)
        add("corr-1halo", "tracer", hm.corr_1h_auto_tracer_fnc, [hm.corr_1h_cs_auto_tracer_fnc, hm.corr_1h_ss_auto_tracer_fnc], rr, off=2, rtol=1e-7)
        add("corr-total", "tracer", hm.corr_auto_tracer_fnc, [hm.corr_1h_auto_tracer_fnc, hm.corr_2h_auto_tracer_fnc], rr)
        add("corr-total", "tracer|far", hm.corr_auto_tracer_fnc, [hm.corr_1h_auto_tracer_fnc, hm.corr_2h_auto_tracer_fnc], far)
        add("power-total", "cross", hm.power_cross_tracer_matter_fnc, [hm.power_1h_cross_tracer_matter_fnc, hm.power_2h_cross_tracer_matter_fnc], kk)
        add("corr-total", "cross", hm.corr_cross_tracer_matter_fnc, [hm.corr_1h_cross_tracer_matter_fnc, hm.corr_2h_cross_tracer_matter_fnc], rr)
    # the model's grid
    qs = ["1h_auto_matter", "2h_auto_matter", "auto_matter"]
    if tracer:
        qs += ["1h_cs_auto_tracer", "1h_ss_auto_tracer", "1h_auto_tracer", "2h_auto_tracer", "auto_tracer", "1h_cross_tracer_matter", "2h_cross_tracer_matter", "cross_tracer_matter"]
    for q in qs:
        for s, grid in (("power", "k_hm"), ("corr", "r")):
            if hasattr(type(hm), f"{s}_{q}_fnc") and not (wdm and "matter" in q and s == "power" and q == "auto_matter"):
                mon.close("grid", getattr(hm, f"{s}_{q}"), getattr(hm, f"{s}_{q}_fnc")(np.array(getattr(hm, grid))), rtol=1e-9, atol=1e-300, key=f"{s}_{q}")
    for s in ("linear_mm", "halofit_mm"):
        mon.close("grid", getattr(hm, f"corr_{s}"), getattr(hm, f"corr_{s}_fnc")(np.array(hm.r)), rtol=1e-9, atol=1e-300, key=f"corr_{s}")


def vanish(mon, hm, tracer, kw, key):
    """Nothing but the 2-halo term is left beyond the largest halo, and that is small."""
    names = {kw.get("halo_profile_model", "NFW"), kw.get("tracer_profile_model") or "NFW"}
    inf = any("Inf" in n or n == "PowerLawWithExpCut" for n in names)
    rmax = 2.5 * float(hm.halo_profile.halo_mass_to_radius(hm.m[-1])) * 1.3
    r = np.geomspace(max(rmax, 20), 300, 6)
    near = np.array([0.3, 1.0])
    todo = [("matter", lambda x: hm.corr_1h_auto_matter_fnc(x) + 1, hm.corr_auto_matter_fnc, hm.corr_2h_auto_matter_fnc, 1.0)]
    if tracer:
        todo += [("cs", lambda x: hm.corr_1h_cs_auto_tracer_fnc(x) + 1, None, None, 1.0), ("ss", lambda x: hm.corr_1h_ss_auto_tracer_fnc(x) + 1, None, None, 1.0),
                 ("tracer", hm.corr_1h_auto_tracer_fnc, hm.corr_auto_tracer_fnc, hm.corr_2h_auto_tracer_fnc, float(hm.bias_effective_tracer) ** 2),
                 ("cross", hm.corr_1h_cross_tracer_matter_fnc, hm.corr_cross_tracer_matter_fnc, hm.corr_2h_cross_tracer_matter_fnc, float(hm.bias_effective_tracer))]
    for q, one, tot, two, b2 in todo:
        o = one(r)
        size = float(np.max(np.abs(one(near))))
        # extended profiles fall as the square of their cubic tails; truncated ones end
        bound = 1e-4 + size * ((3 / r) ** 2.5 if inf else (0.3 / r) ** 3)
        if q == "cross" or not (hm.halo_profile if q == "matter" else hm.tracer_profile).has_lam:
            # transforms of a power that is cut on large scales oscillate around zero
            bound = bound + 3e-3 * max(1, size / 50) * (20 / r) ** 2
        mon.check("one-halo-vanishes", (np.abs(o) <= bound).all(), key=f"{q}|{key}", msg=f"{o} at {r}, {size} at small r", kw=kw)
        if tot is not None:
            t, w = tot(r), two(r)
            mon.check("total-to-2halo", (np.abs(t - w) <= bound).all(), key=f"{q}|{key}", msg=f"{t} vs {w}", kw=kw)
            v = np.concatenate([tot(np.array([150.0, 200.0, 290.0]))])
            mon.check("no-constant", (np.abs(v) <= 0.006 * max(b2, 1) + bound[-1] * 10).all(), key=f"{q}|{key}", msg=str(v), kw=kw)
            mon.check("no-constant", (np.abs(tot(np.array([400.0, 1e3]))) <= bound[-1] * 10 + 1e-3).all(), key=f"{q}|{key}|beyond", msg=str(tot(np.array([400.0, 1e3]))))


def run(case, mon):
    rng = rng_for("c15", case["seed"])
    warnings.simplefilter("ignore")
    globals()["run_" + case["kind"]](case, mon, rng)


def run_model(case, mon, rng):
    cls = case["cls"]
    wdm = "WDM" in cls
    tracer = cls not in ("DM", "WDM")
    kw = G.draw(rng, "tracer" if tracer else "dm", grid="light", inf=True, hods=[G.HODS[case["hod"]]], masks=True)
    kw.update(dlog10m=0.1, dr_table=0.1, dlnk=0.1)
    if not isinstance(kw.get("rmin"), list):
        kw.update(rmin=0.02, rmax=60)
    if kw.get("hod_model") == "Spinelli19":
        kw["hod_params"]["central"] = False
    if wdm:
        kw["wdm_mass"] = G.U(rng, 0.5, 5)
        kw.pop("filter_model", None)
    if kw.get("sd_bias_model") or kw.get("exclusion_model", "NoExclusion") != "NoExclusion":
        kw.update(dlog10m=0.15)
    try:
        hm = G.build(G.model_class(cls), kw)
        hm.dndm
    except Exception as e:  # noqa: BLE001
        mon.note(f"base rejected: {type(e).__name__}")
        return
    if tracer and not hm.mean_tracer_den > 0:
        mon.note("no tracers")
        return
    key = f"{kw.get('hod_model')}|{kw.get('tracer_profile_model') or kw['halo_profile_model']}|{kw.get('exclusion_model', 'NoExclusion')}|sd={bool(kw.get('sd_bias_model'))}"
    sums(mon, hm, tracer, key, rng, wdm)
    if not wdm:
        vanish(mon, hm, tracer, kw, key)
    if case["rep"] % 2 == 0:
        ups = G.draw_update(rng, kw, "tracer" if tracer else "dm")
        for up in ups:
            try:
                G.update(hm, up)
            except Exception as e:  # noqa: BLE001
                mon.note(f"update rejected: {type(e).__name__}")
                return
        try:
            ok = not tracer or hm.mean_tracer_den > 0
        except Exception:  # noqa: BLE001
            ok = False
        if ok:
            sums(mon, hm, tracer, key, rng, wdm, tag="after-update")


def run_slow(case, mon, rng):
    """Profiles without closed forms."""
    p = G.SLOW_PROFILES[case["rep"] % 3]
    kw = dict(G.GRID["light"], dlog10m=0.25, dr_table=0.2, halo_profile_model=p, halo_profile_params=dict(use_interp=False) if p == "Einasto" else {}, hod_model=G.pick(rng, G.GAL_HODS))
    hm = G.build(G.model_class("Tracer"), kw)
    sums(mon, hm, True, p, rng)
    o = hm.corr_1h_auto_tracer_fnc(np.array([40.0, 100.0]))
    size = float(hm.corr_1h_auto_tracer_fnc(0.3))
    mon.check("one-halo-vanishes", (np.abs(o) <= 2e-3 + size * 1e-4).all(), key=p, msg=f"{o} {size}")


def run_cross(case, mon, rng):
    from halomod.cross_correlations import ConstantCorr, CrossCorrelations

    base = G.draw(rng, "tracer", grid="light", exclusion=False, sdbias=False, hods=[h for h in G.HODS if h != "Spinelli19"], masks=False)
    base.update(dlog10m=0.1, dr_table=0.1, dlnk=0.1)
    h2 = G.pick(rng, [h for h in G.HODS if h != "Spinelli19"])
    other = dict(base, hod_model=h2, hod_params=G.hod_params(rng, h2))
    cc = CrossCorrelations(cross_hod_model=ConstantCorr, cross_hod_params=dict(R_ss=G.U(rng, 0, 1), R_cs=G.U(rng, 0, 1)), halo_model_1_params=base, halo_model_2_params=other)
    kk = np.exp(rng.uniform(np.log(1e-6), np.log(1e3), 8))
    rr = np.exp(rng.uniform(np.log(2e-3), np.log(250), 8))
    key = f"{base['hod_model']}|{h2}"
    mon.close("cross-model", cc.power_cross_fnc(kk), cc.power_1h_cross_fnc(kk) + cc.power_2h_cross_fnc(kk), rtol=1e-9, key="power|" + key)
    mon.close("cross-model", cc.power_cross, cc.power_1h_cross + cc.power_2h_cross, rtol=1e-9, atol=1e-300, key="power grid|" + key)
    mon.close("cross-model", cc.corr_cross_fnc(rr), cc.corr_1h_cross_fnc(rr) + cc.corr_2h_cross_fnc(rr) + 1, rtol=1e-9, atol=1e-12, key="corr|" + key)
    mon.close("cross-model", cc.corr_cross, cc.corr_1h_cross + cc.corr_2h_cross + 1, rtol=1e-9, atol=1e-12, key="corr grid|" + key)
    mon.close("cross-model", cc.power_1h_cross, cc.power_1h_cross_fnc(np.array(cc.halo_model_1.k_hm)), rtol=1e-9, atol=1e-300, key="power 1h grid|" + key)
    mon.close("cross-model", cc.corr_2h_cross, cc.corr_2h_cross_fnc(np.array(cc.halo_model_1.r)), rtol=1e-9, atol=1e-300, key="corr 2h grid|" + key)
    far = cc.corr_cross_fnc(np.array([150.0, 250.0])) - 1
    b = cc.halo_model_1.bias_effective_tracer * cc.halo_model_2.bias_effective_tracer
    mon.check("no-constant", (np.abs(far) < 0.01 * max(b, 1)).all(), key="cross model", msg=str(far))
