"""C08: tracer summary numbers against dense independent mass integrals."""
from __future__ import annotations

import copy
import warnings

import numpy as np

from ..core import rng_for
from . import modelgen as G
from .refint import Ref, hod_by_hand

PROPERTY = "C08"
RULE = ("Random models (every occupation law, both central-condition settings, mass functions, biases, redshifts, cosmologies, thresholds at random "
        "positions between grid points or exactly on them); the five reported numbers are compared with a dense quadrature of the interpolated mass "
        "function, the hand-built occupation and the interpolated bias over the masses hosting the tracer; plus ranges, scale invariance (an occupation "
        "law multiplied by a constant), continuity in the cut-off, and convergence with grid resolution.")
REQUIRED = ["mean-density", "bias", "mass-effective", "satellite-fraction", "central-fraction", "range", "scale-invariance", "continuity",
            "density-by-mass", "occupation", "update"]
CASE_TIMEOUT = 120
RTOL = {0.02: 3e-4, 0.05: 1e-3, 0.1: 4e-3}


def cases(rng, tier):
    k = 4 if tier == "quick" else 12
    out = []
    for h in G.HODS:
        for i in range(4 * k):
            out.append(dict(kind="model", hod=h, central=bool(i % 2) and h != "Spinelli19", rep=i, cost=2))
    out += [dict(kind="scale", hod=h, rep=i, cost=2) for h in ["Zehavi05", "Zheng05", "Contreras13", "Tinker05"] for i in range(2 * k)]
    out += [dict(kind="cont", hod=h, rep=i, cost=4) for h in ["Zehavi05", "Zheng05", "Contreras13", "Tinker05", "Zehavi05WithMax", "Zehavi05Marked"] for i in range(2 * k)]
    return out


def run(case, mon):
    rng = rng_for("c08", case["seed"])
    warnings.simplefilter("ignore")
    globals()[f"run_{case['kind']}"](case, mon, rng)


def config(rng, hod, central, dl):
    kw = dict(transfer_model="EH", dlnk=0.1, Mmin=float(G.pick(rng, [8, 9, 9.5])), Mmax=float(G.pick(rng, [15.5, 16])), dlog10m=dl,
              z=G.pick(rng, [0.0, 0.4, 1.0]), hod_model=hod, hod_params=G.hod_params(rng, hod), disable_mass_conversion=True)
    if central:
        kw["hod_params"]["central"] = True
    if hod == "Spinelli19":
        kw["hod_params"].pop("M_min"), kw["hod_params"].pop("M_max"), kw["hod_params"].pop("eta")
    if rng.random() < 0.5:
        kw["hmf_model"] = G.pick(rng, G.HMFS)
    if rng.random() < 0.6:
        kw["bias_model"] = G.pick(rng, G.BIASES)
    if rng.random() < 0.3:
        kw["cosmo_params"] = G.cosmo_params(rng)
    if rng.random() < 0.3 and "M_min" in kw["hod_params"]:
        # exactly on a grid point, or just beside it
        n = int(round((kw["hod_params"]["M_min"] - kw["Mmin"]) / dl))
        kw["hod_params"]["M_min"] = kw["Mmin"] + n * dl + G.pick(rng, [0.0, 1e-9, -1e-9, 1e-4, -1e-4])
    return kw


def compare(mon, hm, kw, dl, key):
    r = Ref(hm, kw)
    n0 = r.integ(r.dndm * r.tot)
    if not (np.isfinite(n0) and n0 > 0):
        mon.note("no tracers")
        return None
    rt = RTOL[dl]
    s = lambda f: r.step_error(r.dndm * f)
    e0 = s(r.tot) / n0
    mon.close("mean-density", hm.mean_tracer_den, n0, rtol=rt + e0, key=key)
    b = r.integ(r.dndm * r.tot * r.bias) / n0
    eb = (e0 + s(r.tot * np.abs(r.bias)) / abs(n0 * b)) if b else 1
    mon.close("bias", hm.bias_effective_tracer, b, rtol=rt + eb, key=key)
    me = r.integ(r.dndm * r.tot * r.M) / n0
    em = e0 + s(r.tot * r.M) / (n0 * me)
    mon.close("mass-effective", 10 ** hm.mass_effective, me, rtol=rt + em, key=key)
    fs = r.integ(r.dndm * r.sat) / n0
    es = s(r.sat) / n0 + e0
    mon.close("satellite-fraction", hm.satellite_fraction, fs, rtol=rt, atol=rt * 0.3 + es, key=key)
    mon.close("central-fraction", hm.central_fraction, r.integ(r.dndm * r.cen) / n0, rtol=rt, atol=rt * 0.3 + es + s(r.cen) / n0, key=key)
    # bounds
    slack = 1e-9 + (es if not r.sharp else 0)
    mon.check("range", -slack <= hm.satellite_fraction <= 1 + slack, f"{key}|fs", f"satellite fraction {hm.satellite_fraction}")
    mon.close("range", hm.satellite_fraction + hm.central_fraction, 1.0, atol=1e-12, key=f"{key}|sum")
    host = r.keep & (r.dndm * r.tot > 0)
    lo, hi = np.log10(r.M[host].min()), np.log10(r.M[host].max())
    mon.check("range", lo - dl - 1e-9 <= hm.mass_effective <= hi + dl + 1e-9, f"{key}|meff", f"{hm.mass_effective} not in {lo}..{hi}")
    bh = r.bias[host]
    mon.check("range", bh.min() - 2 * rt * abs(bh).max() - eb <= hm.bias_effective_tracer <= bh.max() * (1 + rt + eb), f"{key}|bias",
              f"{hm.bias_effective_tracer} not in {bh.min()}..{bh.max()}")
    return r


def run_model(case, mon, rng):
    from halomod import TracerHaloModel

    dl = G.pick(rng, [0.02, 0.02, 0.05, 0.1])
    kw = config(rng, case["hod"], case["central"], dl)
    hm = G.build(TracerHaloModel, kw)
    key = f"{case['hod']}|central={case['central']}"
    r = compare(mon, hm, kw, dl, key)
    h = hod_by_hand(hm, kw)
    z = np.zeros_like(hm.m)
    mon.close("occupation", hm.central_occupation + z, h.central_occupation(hm.m) + z, rtol=1e-12, key=f"{key}|cen")
    mon.close("occupation", hm.satellite_occupation + z, h.satellite_occupation(hm.m) + z, rtol=1e-12, key=f"{key}|sat")
    mon.close("occupation", hm.total_occupation + z, h.total_occupation(hm.m) + z, rtol=1e-12, key=f"{key}|tot")
    mon.close("density-by-mass", hm.tracer_density_m, hm.dndm * h.total_occupation(hm.m), rtol=1e-12, key=key)
    mon.close("mean-density", hm.mean_tracer_den_unit, hm.mean_tracer_den * h.unit_conversion(hm.cosmo, hm.z), rtol=1e-12, key=f"{key}|unit")
    if r is None:
        return
    # and after changes of the same model
    for _ in range(2):
        up = G.pick(rng, [dict(z=G.pick(rng, [0.0, 0.6])), dict(bias_model="ST99"), dict(hmf_model="PS"), dict(sigma_8=0.75),
                          dict(hod_params=G.hod_params(rng, case["hod"], n=2)) if case["hod"] != "Spinelli19" else dict(n=0.95)])
        if up.get("bias_model") and kw.get("bias_params"):
            continue
        kw = G.merge(kw, up)
        G.update(hm, up)
        mon.observe("update", list(up)[0])
        compare(mon, hm, kw, dl, key)


def scaled(name, a):
    """An occupation law multiplied by a constant (the package's plugin mechanism)."""
    import halomod.hod as H

    base = getattr(H, name)
    plain = lambda self: base(**{k: v for k, v in self.params.items()})
    return type(f"VmonScaled{name}", (base,), {
        "_central_occupation": lambda self, m: a * plain(self).central_occupation(m),
        "_satellite_occupation": lambda self, m: a * plain(self).satellite_occupation(m),
        "_defaults": dict(base._defaults), "__doc__": base.__doc__})


def run_scale(case, mon, rng):
    from halomod import TracerHaloModel

    a = float(10 ** rng.uniform(-3, 1))
    cls = scaled(case["hod"], a)
    kw = config(rng, case["hod"], False, 0.05)
    kw.update(G.GRID["medium"], dlog10m=0.05)
    x, y = G.build(TracerHaloModel, kw), G.build(TracerHaloModel, {**kw, "hod_model": cls})
    key = case["hod"]
    mon.close("scale-invariance", y.mean_tracer_den, a * x.mean_tracer_den, rtol=1e-9, key=f"{key}|density")
    for q in ("bias_effective_tracer", "mass_effective", "satellite_fraction", "central_fraction"):
        mon.close("scale-invariance", getattr(y, q), getattr(x, q), rtol=1e-9, atol=1e-10, key=f"{key}|{q}")
    for q in ("power_1h_ss_auto_tracer", "power_1h_cs_auto_tracer", "power_2h_auto_tracer", "power_1h_cross_tracer_matter",
              "power_2h_cross_tracer_matter", "corr_2h_auto_tracer"):
        mon.close("scale-invariance", getattr(y, q), getattr(x, q), rtol=1e-7, atol=1e-12, key=f"{key}|{q}")


def run_cont(case, mon, rng):
    """Outputs vary continuously as a sharp cut moves through the mass grid (central condition in force)."""
    from halomod import TracerHaloModel

    dl = G.pick(rng, [0.05, 0.1])
    kw = config(rng, case["hod"], True, dl)
    hm = G.build(TracerHaloModel, kw)
    q = ("mean_tracer_den", "bias_effective_tracer", "mass_effective", "satellite_fraction")
    x0 = kw["Mmin"] + dl * int(rng.integers(25 * 0.1 / dl, 35 * 0.1 / dl))
    prev = None
    for d in (-2e-6, -1e-6, 0.0, 1e-6, 2e-6):
        G.update(hm, dict(hod_params=dict(M_min=x0 + d)))
        v = np.array([getattr(hm, n) for n in q])
        if prev is not None:
            mon.close("continuity", v, prev, rtol=1e-4, key=f"{case['hod']}|grid point")
        prev = v
    # the density falls as the threshold rises
    prev = np.inf
    for x in np.sort(rng.uniform(11, 13, 6)):
        G.update(hm, dict(hod_params=dict(M_min=float(x))))
        v = hm.mean_tracer_den
        mon.check("continuity", v <= prev * (1 + 1e-9), f"{case['hod']}|monotone", f"density rises to {v} from {prev} at M_min={x}")
        prev = v
