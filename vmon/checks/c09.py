"""C09: a requested tracer density is what the model delivers."""
from __future__ import annotations

import warnings

import numpy as np

from ..core import rng_for
from . import modelgen as G
from .refint import Ref

PROPERTY = "C09"
RULE = ("Histories of a model with a requested density: request at construction or by update, followed by random updates of anything else (cosmology, "
        "redshift, mass function, occupation parameters and model, grids, the request itself), then an explicit minimum mass; after each step the "
        "integrated density is compared with the request, with a dense quadrature for the reported minimum mass, and with an equivalent freshly built "
        "model.  Unreachable requests must raise, and leave a consistent model.  Round trip minimum mass -> density -> minimum mass.")
REQUIRED = ["delivered-at-construction", "delivered-after-update", "explicit-mmin", "unreachable", "after-rejection", "round-trip", "independent", "fresh"]
CASE_TIMEOUT = 200
HODS = ["Zehavi05", "Zheng05", "Contreras13", "Tinker05", "Zehavi05WithMax", "Geach12", "Zehavi05Marked"]
UPD = ["z", "n", "sigma_8", "cosmo_params", "transfer_model", "growth_model", "takahashi", "dlog10m", "mrange", "delta_c", "hmf", "hmf_params", "filter",
       "profile", "conc", "bias", "bias_params", "hod_params", "hod_params", "hod_params", "hod", "hod", "central", "rgrid", "hc_spectrum", "dlnk", "tprofile",
       "request", "request", "hod_clear"]


def cases(rng, tier):
    k = 4 if tier == "quick" else 12
    out = [dict(kind="history", rep=i, cost=6) for i in range(60 * k)]
    out += [dict(kind="roundtrip", hod=h, central=c, rep=i, cost=3) for h in HODS for c in (False, True) for i in range(2 * k)]
    out += [dict(kind="unreachable", rep=i, cost=4) for i in range(24 * k)]
    return out


def run(case, mon):
    rng = rng_for("c09", case["seed"])
    warnings.simplefilter("ignore")
    globals()[f"run_{case['kind']}"](case, mon, rng)


def stepped(kw):
    """Central numbers step at M_min on the mass grid, so the density is only defined to a mass cell."""
    return kw.get("hod_model") in ("Zehavi05", "Zehavi05WithMax", "Zehavi05Marked") and not kw.get("hod_params", {}).get("central")


def cell_error(hm):
    """Relative density in the mass cell holding the threshold."""
    i = int(np.clip(np.searchsorted(hm.m, 10 ** hm.hod.params["M_min"]), 1, len(hm.m) - 1))
    d = np.log(hm.m[1] / hm.m[0])
    a = 10 ** hm.hod.params.get("logA", 0.0)
    return float(2.5 * a * hm.dndm[i - 1] * hm.m[i - 1] * d / hm.mean_tracer_den)


def base(rng, hods=HODS):
    kw = G.draw(rng, "tracer", grid="light", hods=hods, exclusion=False, sdbias=False, masks=False, rich=0.5)
    kw.update(dlog10m=G.pick(rng, [0.05, 0.1]), Mmin=9, Mmax=15.5)
    kw["hod_params"].pop("M_min", None)
    if "M_max" in kw["hod_params"]:
        kw["hod_params"]["M_max"] = max(kw["hod_params"]["M_max"], 14.5)
    return kw


def judge(mon, clause, hm, kw, ng, key):
    """The density delivered is the one requested."""
    got = hm.mean_tracer_den
    tol = cell_error(hm) if stepped(kw) else 1e-6
    mon.close(clause, got, ng, rtol=tol, key=key, mmin=hm.hod_params.get("M_min"))
    mon.check(clause, hm.tracer_density == ng, f"{key}|reported", f"tracer_density {hm.tracer_density} is not the request {ng}")
    mon.check(clause, hm.hod.params["M_min"] == hm.hod_params.get("M_min"), f"{key}|hod", "occupation does not use the parameter M_min")
    r = Ref(hm, {"hod_model": kw["hod_model"], "hod_params": {**kw["hod_params"], "M_min": hm.hod_params["M_min"]}})
    n0 = r.integ(r.dndm * r.tot)
    mon.close("independent", n0, ng, rtol=8e-3 + (cell_error(hm) if stepped(kw) else 0) + r.step_error(r.dndm * r.tot) / n0, key=key, kw=kw)


def run_history(case, mon, rng):
    from halomod import TracerHaloModel

    kw = base(rng)
    at_build = rng.random() < 0.5
    ng = float(f"{10 ** rng.uniform(-4, -2.2):.6g}")
    try:
        if at_build:
            hm = G.build(TracerHaloModel, {**kw, "tracer_density": ng})
        else:
            hm = G.build(TracerHaloModel, {**kw, "hod_params": {**kw["hod_params"], "M_min": 12.0}})
            hm.mean_tracer_den, hm.power_auto_tracer
            G.update(hm, dict(tracer_density=ng))
            kw["hod_params"]["M_min"] = 12.0
    except Exception as e:  # noqa: BLE001
        mon.check("unreachable", type(e).__name__ in ("NGException",), f"build|{type(e).__name__}", f"request of {ng} fails with {type(e).__name__}: {e}", kw=kw)
        return
    judge(mon, "delivered-at-construction" if at_build else "delivered-after-update", hm, kw, ng, "first")
    for step in range(3):
        w = G.pick(rng, UPD)
        if w == "request":
            ups = [dict(tracer_density=float(f"{10 ** rng.uniform(-4, -2.2):.6g}"))]
        elif w == "hod_clear":
            ups = [dict(hod_params={})]
        elif w == "hod":
            ups = G.model_switch(rng, kw, "hod_model", "hod_params", G.pick(rng, HODS), None)
        elif w == "dlog10m":
            ups = [dict(dlog10m=G.pick(rng, [0.04, 0.06, 0.08]))]
        else:
            ups = G.draw_update(rng, kw, "tracer", w, grid="light")
        for up in ups:
            up = dict(up)
            if w in ("hod_params", "central") and "hod_params" in up:
                up["hod_params"] = {k: v for k, v in up["hod_params"].items() if k != "M_min"} or {"alpha": G.U(rng, 0.9, 1.2)}
                if "alpha" in up["hod_params"] and kw["hod_model"] == "Tinker05":
                    up["hod_params"] = {"M_cut": G.U(rng, 11.5, 12.5)}
            if "hod_params" in up and "M_max" in up["hod_params"]:
                up["hod_params"]["M_max"] = max(up["hod_params"]["M_max"], 14.5)
            kw = G.merge(kw, up)
            ng = kw.pop("tracer_density", None) or ng
            read = rng.random() < 0.5
            try:
                G.update(hm, up)
            except Exception as e:  # noqa: BLE001
                mon.check("unreachable", type(e).__name__ in ("NGException", "ValueError", "TypeError"), f"update|{type(e).__name__}", f"{up}: {e}")
                mon.note(f"update rejected: {type(e).__name__}")
                return
            if read:
                hm.power_2h_auto_tracer
            judge(mon, "delivered-after-update", hm, kw, ng, w)
    # equals a freshly built model
    fresh = G.build(TracerHaloModel, {**kw, "tracer_density": ng})
    if not stepped(kw):
        mon.close("fresh", hm.hod_params["M_min"], fresh.hod_params["M_min"], atol=1e-6, key="M_min")
        for q in ("mean_tracer_den", "bias_effective_tracer", "power_auto_tracer", "satellite_fraction"):
            mon.close("fresh", getattr(hm, q), getattr(fresh, q), rtol=1e-5, atol=1e-12, key=q)
    # matter knows nothing of the request
    same = G.build(TracerHaloModel, {**kw, "hod_params": {**kw["hod_params"], "M_min": hm.hod_params["M_min"]}})
    for q in ("rho_gtm", "ngtm", "mean_density_in_halos", "bias_effective_matter"):
        with mon.guard("fresh", key=q):
            mon.close("fresh", getattr(hm, q), getattr(same, q), rtol=1e-9, key=q)
    # an explicit minimum mass ends it, wherever it stands among other parameters
    mm = G.U(rng, 11, 12.5)
    c = bool(kw["hod_params"].get("central", False))
    up = G.pick(rng, [dict(hod_params={"M_min": mm}), dict(hod_params={"M_min": mm}, z=0.3), dict(hod_params={"central": c, "M_min": mm}),
                      dict(hod_params={"M_min": mm, "central": c}), dict(sigma_8=0.8, hod_params={**kw["hod_params"], "M_min": mm})])
    G.update(hm, up)
    kw = G.merge(kw, up)
    mon.check("explicit-mmin", hm.hod_params["M_min"] == mm and hm.hod.params["M_min"] == mm, "given", f"M_min {hm.hod_params} not {mm}")
    mon.check("explicit-mmin", hm.tracer_density is None, "request dropped", f"still {hm.tracer_density}")
    plain = G.build(TracerHaloModel, kw)
    mon.close("explicit-mmin", hm.mean_tracer_den, plain.mean_tracer_den, rtol=1e-9, key="density")
    G.update(hm, dict(sigma_8=0.77))
    mon.check("explicit-mmin", hm.hod_params["M_min"] == mm, "kept", f"M_min {hm.hod_params} not {mm}")


def run_roundtrip(case, mon, rng):
    from halomod import TracerHaloModel

    kw = base(rng, [case["hod"]])
    kw["hod_params"]["central"] = case["central"]
    if stepped(kw):
        kw["dlog10m"] = 0.02
    mm = G.U(rng, 10.5, 13)
    if case["central"] and rng.random() < 0.4:  # rare tracers
        mm = G.U(rng, 13, 14.3 if "M_max" in kw["hod_params"] else 15)
    a = G.build(TracerHaloModel, {**kw, "hod_params": {**kw["hod_params"], "M_min": mm}})
    ng = float(a.mean_tracer_den)
    key = f"{case['hod']}|central={case['central']}"
    for how in ("build", "update"):
        try:
            if how == "build":
                b = G.build(TracerHaloModel, {**kw, "tracer_density": ng})
            else:
                b = G.build(TracerHaloModel, kw)
                G.update(b, dict(tracer_density=ng))
        except Exception as e:  # noqa: BLE001
            mon.violation("round-trip", f"{case['hod']}|raised {type(e).__name__}", f"the density of M_min={mm} is rejected: {e}", kw=kw)
            continue
        # smooth occupation: the threshold to numerical accuracy; stepped: to a mass cell
        smooth = not stepped(kw)
        mon.close("round-trip", b.hod_params["M_min"], mm, atol=2e-4 if smooth else 1.5 * kw["dlog10m"], key=key)
        mon.close("round-trip", b.mean_tracer_den, ng, rtol=1e-6 if smooth else cell_error(b), key=f"{key}|density")
        mon.check("round-trip", b.mean_tracer_den == b.clone().mean_tracer_den, f"{key}|clone", "clone differs")
    # fewer tracers need a higher threshold
    got = []
    for f in (2.0, 1.0, 0.5):
        try:
            got.append(G.build(TracerHaloModel, {**kw, "tracer_density": ng * f}).hod_params["M_min"])
        except Exception:  # noqa: BLE001
            got.append(np.nan)
    got = [g for g in got if np.isfinite(g)]
    mon.check("round-trip", np.all(np.diff(got) > 0), f"{key}|order", f"thresholds {got} do not rise as the density falls")


def run_unreachable(case, mon, rng):
    from halomod import TracerHaloModel

    kw = base(rng)
    lo = float(G.build(TracerHaloModel, {**kw, "hod_params": {**kw["hod_params"], "M_min": 9.0}}).mean_tracer_den)
    bad = G.pick(rng, [lo * 3, lo * 1e4, 1e-60, 1e3])
    side = "high" if bad > lo else "low"
    refused(mon, f"build|{side}|{kw['hod_model']}", lambda: G.build(TracerHaloModel, {**kw, "tracer_density": bad}), bad, kw)
    mm = G.U(rng, 11.3, 12.5)
    hm = G.build(TracerHaloModel, {**kw, "hod_params": {**kw["hod_params"], "M_min": mm}})
    before = hm.mean_tracer_den
    if rng.random() < 0.5:
        try:
            G.update(hm, dict(tracer_density=before * 0.7))
        except Exception as e:  # noqa: BLE001 -- satellites alone may exceed it
            mon.check("unreachable", type(e).__name__ == "NGException", f"update|{type(e).__name__}", str(e))

    def up():
        G.update(hm, dict(tracer_density=bad))
        return hm

    if not refused(mon, f"update|{side}|{kw['hod_model']}", up, bad, kw):
        return
    # what is left is consistent
    d = hm.tracer_density
    tol = cell_error(hm) if stepped(kw) else 1e-6
    mon.check("after-rejection", d is None or abs(hm.mean_tracer_den / d - 1) < tol, "reported density", f"reports a density of {d} but has {hm.mean_tracer_den}")
    p = {**kw, "hod_params": {**kw["hod_params"], "M_min": hm.hod_params["M_min"]}}
    f = G.build(TracerHaloModel, p)
    for q in ("mean_tracer_den", "bias_effective_tracer", "power_auto_tracer"):
        mon.close("after-rejection", getattr(hm, q), getattr(f, q), rtol=1e-8, key=q)
    # still usable
    try:
        G.update(hm, dict(tracer_density=before * 0.8))
    except Exception as e:  # noqa: BLE001
        mon.check("unreachable", type(e).__name__ == "NGException", f"update|{type(e).__name__}", str(e))
        return
    judge(mon, "delivered-after-update", hm, kw, before * 0.8, "after rejection")


def refused(mon, key, fn, bad, kw):
    """An unreachable density raises the package's own error; accepting one is only right if it is delivered."""
    mon.observe("unreachable", key)
    try:
        hm = fn()
    except Exception as e:  # noqa: BLE001
        mon.check("unreachable", type(e).__name__ == "NGException", f"{key}|{type(e).__name__}", f"request of {bad:.4g} fails with {type(e).__name__}: {e}")
        return True
    got = hm.mean_tracer_den
    tol = cell_error(hm) if stepped(kw) else 1e-6
    # (where the occupation closes up at a maximum mass, the density goes to zero continuously)
    if abs(got / bad - 1) > tol and not max(got, bad) < 1e-12:
        mon.violation("unreachable", key, f"request of {bad:.4g} accepted, but the density is {got:.4g} (M_min {hm.hod_params.get('M_min')})", kw=kw)
    return False
