"""C01: any history of updates and reads gives what a freshly built model gives."""
from __future__ import annotations

import copy
import warnings

import numpy as np

from ..core import rng_for
from . import modelgen as G

PROPERTY = "C01"
RULE = ("Online checking of recorded histories: random sequences of parameter updates (component switches, parameter dictionaries, cosmology, "
        "redshift, grids, options, requested density) interleaved with reads of random outputs, on every model class. The oracle is a model newly "
        "built from the parameters given by an independent merge of the updates; every public output and component is compared with it.")
COMPONENT_PAIRS = [("hmf", "hmf_params"), ("bias", "bias_params"), ("profile", "profile_params"), ("conc", "conc_params"), ("sd", "sd_params"),
                   ("hod", "hod_params"), ("hod", "central"), ("tprofile", "tprofile_params"), ("tconc", "tconc_params"), ("tprofile", "profile_params"),
                   ("tconc", "conc_params"), ("tprofile", "profile"), ("tconc", "conc"), ("mdef", "z"), ("filter", "hmf_params"), ("mdef", "conc"),
                   ("excl", "hod_params"), ("excl", "rgrid"), ("hc_spectrum", "takahashi"), ("unity", "bias_params"), ("transfer_model", "cosmo_params"),
                   ("cosmo_model", "cosmo_params"), ("growth_model", "z")]
REQUIRED = ["pair-vs-fresh", "extra-vs-fresh", "history-vs-fresh", "single-vs-fresh", "undo", "cross-vs-fresh", "density-vs-fresh", "reported-parameters"]
CASE_TIMEOUT = 150

CLASSES = ["Tracer", "Tracer", "Tracer", "DM", "Projected", "Angular", "WDM", "TracerWDM"]


def cases(rng, tier):
    k = 1 if tier == "quick" else 10
    out = []
    for w in sorted(set(G.DM_UPDATES + G.TRACER_UPDATES)):
        for i in range(2 * k):
            out.append(dict(kind="single", cls="Tracer", which=w, rep=i, cost=3))
    for c in CLASSES:
        for i in range(3 * k):
            out.append(dict(kind="history", cls=c, steps=int(rng.integers(4, 9)), rep=i, cost=6))
    for c in ("Projected", "Angular", "WDM", "TracerWDM"):
        for i in range(len(extra_updates(rng, c)) * k):
            out.append(dict(kind="extra", cls=c, which=i, rep=i, cost=4))
    for i in range(8 * k):
        out.append(dict(kind="lean", cls=str(rng.choice(["Tracer", "Tracer", "DM"])), steps=int(rng.integers(6, 12)), rep=i, cost=4))
    # ordered pairs of updates with every output read in between: components followed by what configures them, and random pairs
    for a, b in COMPONENT_PAIRS:
        for i in range(2 * k):
            out.append(dict(kind="pair", cls="Tracer", which=[a, b], rep=i, cost=3))
    every = sorted(set(G.DM_UPDATES + G.TRACER_UPDATES))
    pairs = [[a, b] for a in every for b in every]
    if tier == "quick":
        pairs = [pairs[int(j)] for j in rng.choice(len(pairs), 40, replace=False)]
    out += [dict(kind="pair", cls="Tracer", which=p, rep=0, cost=3) for p in pairs]
    out += [dict(kind="density", steps=4, rep=i, cost=12) for i in range(4 * k)]
    out += [dict(kind="cross", steps=4, rep=i, cost=8) for i in range(8 * k)]
    return out


def extra_kw(rng, cls):
    if cls.startswith("Projected"):
        return dict(rp_min=0.2, rp_max=20.0, rp_num=5, rnum=25)
    if cls == "Angular":
        return dict(zmin=0.2, zmax=0.4, znum=8, unum=12, theta_num=4, z=0.3)
    if cls.endswith("WDM"):
        return dict(wdm_mass=G.U(rng, 0.5, 4))
    return {}


def extra_updates(rng, cls):
    """Updates of the parameters that only this class has."""
    if cls.startswith("Projected"):
        return [dict(rp_min=G.U(rng, 0.1, 0.5)), dict(rp_max=G.U(rng, 10, 30)), dict(rp_num=int(rng.integers(6, 9))),
                dict(proj_limit=G.U(rng, 110, 140)), dict(proj_limit=G.U(rng, 60, 90)), dict(rp_log=False), dict(rp_min=[0.3, 1.0, 7.0]),
                dict(proj_limit=None), dict(rp_log=True)]
    if cls == "Angular":
        return [dict(zmin=G.U(rng, 0.15, 0.25)), dict(zmax=G.U(rng, 0.42, 0.5)), dict(znum=9), dict(unum=14), dict(theta_num=5),
                dict(theta_max=0.03), dict(theta_min=1e-4), dict(theta_log=bool(rng.integers(2))), dict(logu_max=2.2),
                dict(logu_min=-3.5), dict(p_of_z=True), dict(check_p_norm=bool(rng.integers(2)))]
    if cls.endswith("WDM"):
        return [dict(wdm_mass=G.U(rng, 0.5, 4)), dict(halo_concentration_model="Duffy08WDM", halo_concentration_params={}),
                dict(halo_concentration_model="Zehavi11", halo_concentration_params={})]
    return None


def extra_update(rng, cls):
    ups = extra_updates(rng, cls)
    return ups and G.pick(rng, ups)


def kind_of(cls):
    return "dm" if cls in ("DM", "WDM") else "tracer"


def compare(mon, clause, got, want, ctx, rtol=1e-8):
    bad = []
    for n in want:
        mon.observe(clause, f"{n}")
        why = G.differ(got[n], want[n], rtol)
        if why:
            bad.append((n, why))
    for n, why in bad[:4]:
        mon.violation(clause, n, f"{why}; {len(bad)} outputs differ: {[b[0] for b in bad][:8]}", **ctx)
    return not bad


def start(rng, cls, slow=False):
    kind = kind_of(cls)
    wdm = cls.endswith("WDM")
    kw = G.draw(rng, kind, slow=slow, exclusion=not wdm)
    if wdm:
        kw.pop("growth_model", None)
        if str(kw.get("halo_concentration_model", "")).startswith("Ludlow"):
            kw["halo_concentration_model"], kw["halo_concentration_params"] = "Duffy08", {}
    kw.update(extra_kw(rng, cls))
    if cls == "Angular":
        kw["z"] = 0.3
    for k in ("rmin", "rlog") if cls in ("Projected", "Angular") else ():
        kw.pop(k, None)
    return kw, kind


def next_updates(rng, cur, cls, kind):
    ex = extra_update(rng, cls)
    if ex is not None and rng.random() < 0.4:
        return [ex]
    while True:
        names = G.DM_UPDATES + (G.TRACER_UPDATES * 2 if kind != "dm" else [])
        w = G.pick(rng, names)
        if cls.endswith("WDM") and w in ("conc", "conc_params", "growth_model", "excl", "transfer_model", "filter"):
            continue
        if cls in ("Projected", "Angular") and w in ("rgrid", "rlog"):
            continue
        return G.draw_update(rng, cur, kind, w)


def apply(mon, cls, model, cur, up, ctx):
    """Apply an update to the real model and to the independent bookkeeping."""
    new = G.merge(cur, up)
    try:
        G.update(model, up)
    except Exception as e:  # noqa: BLE001
        # legitimate only if these parameters are rejected at construction too
        try:
            G.build(G.model_class(cls), new)
        except Exception:  # noqa: BLE001
            mon.note("state rejected by both")
            return None
        mon.violation("history-vs-fresh", "update raised", f"update({up}) raised {type(e).__name__}: {e} but the model can be built", **ctx)
        return None
    return new


def run(case, mon):
    rng = rng_for("c01", case["seed"])
    if case["kind"] == "cross":
        return run_cross(case, mon, rng)
    if case["kind"] == "density":
        return run_density(case, mon, rng)
    cls = case["cls"]
    klass = G.model_class(cls)
    tracer = kind_of(cls) == "tracer"
    kw, kind = start(rng, cls)
    try:
        m = G.build(klass, kw)
    except Exception as e:  # noqa: BLE001
        mon.note(f"base rejected: {type(e).__name__}")
        return
    allnames = G.names(klass)
    cur = copy.deepcopy(kw)
    hist = []
    ctx = dict(base=kw, hist=hist)
    if case["kind"] == "single":
        s0 = G.snapshot(m, allnames, tracer)
        defaults = {k: dict(v) if isinstance(v, dict) else v for k, v in m.parameter_values.items()}
        ups = G.draw_update(rng, cur, kind, case["which"])
        for up in ups:
            hist.append(up)
            cur = apply(mon, cls, m, cur, up, ctx)
            if cur is None:
                return
            if rng.random() < 0.5:
                G.read(m, G.pick(rng, allnames))
        compare(mon, "single-vs-fresh", G.snapshot(m, allnames, tracer), G.snapshot(G.build(klass, cur), allnames, tracer), ctx)
        # undo
        keys = {k for up in ups for k in up}
        orig = {k: kw.get(k, defaults.get(k)) for k in keys}
        G.update(m, {k: ({} if k.endswith("_params") else v) for k, v in orig.items()})
        pars = {k: v for k, v in orig.items() if k.endswith("_params") and v}
        if pars:
            G.update(m, pars)
        compare(mon, "undo", G.snapshot(m, allnames, tracer), s0, ctx)
        return
    if case["kind"] == "extra":
        # each parameter of the class itself, then another one, with every output read in between
        ups = extra_updates(rng, cls)
        first = ups[case["which"] % len(ups)]
        G.snapshot(m, allnames, tracer)
        for up in (first, G.pick(rng, [u for u in ups if u is not first])):
            hist.append(up)
            cur = apply(mon, cls, m, cur, up, ctx)
            if cur is None:
                return
            got = G.snapshot(m, allnames, tracer)
            if not compare(mon, "extra-vs-fresh", got, G.snapshot(G.build(klass, cur), allnames, tracer), ctx):
                return
        return
    if case["kind"] == "pair":
        G.snapshot(m, allnames, tracer)
        for w in case["which"]:
            for up in G.draw_update(rng, cur, kind, w):
                hist.append(up)
                cur = apply(mon, cls, m, cur, up, ctx)
                if cur is None:
                    return
                # reading everything in the middle gives stale values the chance to stay
                got = G.snapshot(m, allnames, tracer)
        compare(mon, "pair-vs-fresh", got, G.snapshot(G.build(klass, cur), allnames, tracer), ctx)
        return
    lean = case["kind"] == "lean"
    for step in range(case["steps"]):
        # reads that prime the caches: few for "lean" histories, many otherwise
        nread = int(rng.integers(1, 4)) if lean else int(rng.integers(3, 25))
        for n in rng.choice(allnames, size=nread, replace=False):
            G.read(m, str(n))
            if lean:
                hist.append(f"read {n}")
        for up in next_updates(rng, cur, cls, kind):
            hist.append(up)
            new = apply(mon, cls, m, cur, up, ctx)
            if new is None:
                return
            cur = new
            if rng.random() < 0.3:
                G.read(m, str(G.pick(rng, allnames)))
        last = step == case["steps"] - 1
        if last or (not lean and rng.random() < 0.35):
            fresh = G.build(klass, cur)
            sel = allnames if last or not lean else [str(x) for x in rng.choice(allnames, size=5, replace=False)]
            sel = [str(x) for x in rng.permutation(sel)]
            if not compare(mon, "history-vs-fresh", G.snapshot(m, sel, tracer, objects=last), G.snapshot(fresh, sel, tracer, objects=last), ctx):
                return
            pv, fv = m.parameter_values, fresh.parameter_values
            bad = [k for k in fv if not _pequal(pv.get(k), fv[k])]
            mon.check("reported-parameters", not bad and set(pv) == set(fv), ",".join(bad[:3]),
                      f"reported parameters differ from those of a fresh model: {bad}", **ctx)


def _pequal(a, b):
    if isinstance(a, type) and isinstance(b, type):
        return a.__name__ == b.__name__  # the WDM relations are classes made on demand
    try:
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, list) or isinstance(b, list):
            return np.array_equal(np.asarray(a), np.asarray(b))
        return bool(a == b)
    except Exception:  # noqa: BLE001
        return False


def run_density(case, mon, rng):
    klass = G.model_class("Tracer")
    for _ in range(8):
        kw = G.draw(rng, "tracer", density=True, hods=["Zehavi05", "Zheng05", "Tinker05", "Contreras13", "Zehavi05WithMax"], exclusion=False, sdbias=False)
        kw["tracer_density"] = float(f"{10 ** rng.uniform(-3.7, -2.6):.6g}")
        try:
            m = G.build(klass, kw)
            break
        except Exception as e:  # noqa: BLE001
            mon.note(f"base rejected: {type(e).__name__}")
    else:
        return
    cur = copy.deepcopy(kw)
    hist = []
    ctx = dict(base=kw, hist=hist)
    allnames = G.names(klass)
    for step in range(case["steps"]):
        for n in rng.choice(allnames, size=6, replace=False):
            G.read(m, str(n))
        if rng.random() < 0.35:
            up = G.pick(rng, [dict(tracer_density=float(f"{10 ** rng.uniform(-3.7, -2.6):.6g}")),
                              dict(hod_params={"M_min": G.U(rng, 11.3, 12.5)}), dict(hod_params={})])
            ups = [up]
        else:
            ups = G.draw_update(rng, cur, "tracer", G.pick(rng, ["z", "sigma_8", "n", "cosmo_params", "hmf", "conc", "profile", "bias", "dlog10m",
                                                                "hod_params", "hc_spectrum", "central", "tprofile"]))
        for up in ups:
            hist.append(up)
            new = G.merge(cur, up)
            if "M_min" in (up.get("hod_params") or {}) and "tracer_density" not in up:
                new["tracer_density"] = None
            try:
                G.update(m, up)
            except Exception as e:  # noqa: BLE001
                # the state is then one without a requested density
                mon.note(f"update rejected: {type(e).__name__}")
                if type(e).__name__ != "NGException":
                    return
                new = G.merge(cur, {**up, "tracer_density": None})
                new["hod_params"] = dict(m.hod_params)
            cur = new
    if cur.get("tracer_density") is not None:
        cur["hod_params"] = {k: v for k, v in cur["hod_params"].items() if k != "M_min"}
    try:
        fresh = G.build(klass, cur)
    except Exception as e:  # noqa: BLE001
        mon.violation("density-vs-fresh", "fresh rejected", f"{type(e).__name__}: {e}", **ctx)
        return
    compare(mon, "density-vs-fresh", G.snapshot(m, allnames), G.snapshot(fresh, allnames), ctx, rtol=1e-6)


def run_cross(case, mon, rng):
    from halomod.cross_correlations import CrossCorrelations

    light = dict(exclusion=False, sdbias=False, masks=False)
    kws = [G.draw(rng, "tracer", hods=["Zehavi05", "Zheng05", "Tinker05", "Contreras13"], **light) for _ in range(2)]
    cur = dict(cross_hod_model="ConstantCorr", cross_hod_params=dict(R_ss=G.U(rng, -0.5, 1)), halo_model_1_params=kws[0], halo_model_2_params=kws[1])
    m = G.build(CrossCorrelations, cur)
    outs = [n for n in G.names(CrossCorrelations) if not n.endswith("_params")] + ["power_cross_fnc", "corr_cross_fnc"]
    hist = []
    for step in range(case["steps"]):
        for n in rng.choice(outs, size=int(rng.integers(1, 4)), replace=False):
            G.read(m, str(n))
        for up in cross_update(rng, cur):
            hist.append(up)
            for k, v in up.items():
                if k.startswith("halo_model"):
                    cur = {**cur, k: G.merge(cur[k], v)}
                else:
                    cur = G.merge(cur, {k: v})
            via_sub = rng.random() < 0.4 and len(up) == 1 and next(iter(up)).startswith("halo_model")
            if via_sub:
                k, v = next(iter(up.items()))
                hist[-1] = {"direct " + k: v}
                if len(v) == 1:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        setattr(getattr(m, k[:-7]), *copy.deepcopy(next(iter(v.items()))))
                else:
                    G.update(getattr(m, k[:-7]), v)
            else:
                G.update(m, up)
        fresh = G.build(CrossCorrelations, cur)
        sel = outs if step == case["steps"] - 1 else [str(x) for x in rng.choice(outs, size=4, replace=False)]
        a = {n: G.read(m, n) for n in sel}
        b = {n: G.read(fresh, n) for n in sel}
        if not compare(mon, "cross-vs-fresh", a, b, dict(base=cur, hist=hist)):
            return


def cross_update(rng, cur):
    side = int(rng.integers(1, 3))
    k = f"halo_model_{side}_params"
    r = rng.random()
    if r < 0.2:
        return [dict(cross_hod_params=dict(R_cs=G.U(rng, -0.5, 0.5)))]
    if r < 0.3:
        return [dict(cross_hod_params={})]
    w = G.pick(rng, ["hod", "hod_params", "tprofile", "tconc", "sigma_8", "z", "conc", "bias", "central", "profile", "turnover", "rgrid", "kgrid"])
    return [{k: up} for up in G.draw_update(rng, cur[k], "tracer", w)]
