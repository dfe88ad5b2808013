"""C26: invalid settings are rejected and never leave an inconsistent model."""
from __future__ import annotations

import copy
import warnings

import numpy as np

from ..core import rng_for
from . import modelgen as G
from .c01 import compare

PROPERTY = "C26"
RULE = ("Every invalid setting of a list (unknown names, wrong types, inverted or empty grids, out-of-range values, unknown component names and parameters, for "
        "every registered component) is given, to random valid configurations of every model class, at construction, and in an update on its own or mixed "
        "with valid changes, with outputs read in between. Monitors require an error at the latest when a dependent output is read, compare the reported "
        "parameters with what was there and what was asked, compare all outputs of the model after the rejection with a new model of the reported "
        "parameters, and again after going back to valid values. Functions of the components get invalid arguments next to valid ones.")
REQUIRED = ["construction", "update", "reported-parameters", "rejected-vs-fresh", "read-again", "recovered-vs-fresh", "component-parameters", "component-names", "component-arguments",
            "spline", "transform", "cross", "controls"]
CASE_TIMEOUT = 150

nan, inf = float("nan"), float("inf")
ANY = ["DM", "Tracer", "Projected", "Angular", "WDM", "TracerWDM", "ProjectedWDM"]
R_GRID = ["DM", "Tracer", "WDM", "TracerWDM"]
TRACERS = ["Tracer", "Projected", "Angular", "TracerWDM", "ProjectedWDM"]
WARM = ["WDM", "TracerWDM", "ProjectedWDM"]
# an output that depends on it, where it is only noticed when it is read
BIAS, CORR2 = ["halo_bias"], ["corr_2h_auto_tracer"]
CORR = ["corr_auto_matter", "corr_linear_mm"]
PS = ["power_auto_matter"]
SPECTRUM = ["power_auto_matter", "dndm", "nu"]


def entries():
    """(classes, settings, dependent outputs)"""
    e = []

    def add(classes, outs, *settings):
        for s in settings:
            e.append((classes, s, outs))

    for p in ["nonsense", "Rmin", "hod", "z_max", "bias", "k_hm"]:
        add(ANY, PS, {p: 1})
    models = dict(bias_model=ANY, halo_profile_model=ANY, halo_concentration_model=ANY, hmf_model=ANY, transfer_model=ANY, growth_model=ANY, filter_model=ANY,
                  mdef_model=ANY, sd_bias_model=ANY, exclusion_model=ANY, cosmo_model=ANY, hod_model=TRACERS, tracer_profile_model=TRACERS,
                  tracer_concentration_model=TRACERS, wdm_model=WARM, alter_model=WARM)
    for m, classes in models.items():
        add(classes, PS, {m: "Nope"}, {m: 3})
        if m not in ("cosmo_model",):
            add(classes, PS, {m: {"hod_model": "NFW"}.get(m, "Zheng05")})
    outs = dict(halo_profile_params=PS, halo_concentration_params=PS, bias_params=BIAS, exclusion_params=CORR2, hod_params=["mean_tracer_den"],
                tracer_profile_params=["power_1h_auto_tracer"], tracer_concentration_params=["power_1h_auto_tracer"], hmf_params=["dndm"], cosmo_params=["mean_density0"],
                transfer_params=["power_auto_matter"], growth_params=["power_auto_matter"], sd_bias_params=CORR2)
    for p, o in outs.items():
        classes = TRACERS if p.startswith(("hod", "tracer")) or o is CORR2 else ANY
        more = {"tracer_profile_params": dict(tracer_profile_model="NFW"), "tracer_concentration_params": dict(tracer_concentration_model="Duffy08"),
                "sd_bias_params": dict(sd_bias_model="TinkerSD05"), "exclusion_params": dict(exclusion_model="Sphere")}.get(p, {})
        add(classes, o, {**more, p: dict(nope=1)}, {**more, p: 3 if p != "bias_params" else [1]})
    add(R_GRID, CORR, dict(rmin=10, rmax=1), dict(rmin=-1), dict(rmin=0), dict(rmax=-1), dict(rmax=0), dict(rnum=0), dict(rnum=-3), dict(rnum="x"), dict(rmin="x"),
        dict(rmin=[]), dict(rmin=[-1.0, 2.0]), dict(rmin=[0.0, 2.0]), dict(rmin=nan), dict(rmax=nan), dict(rmax=inf), dict(rmin=[nan, 1.0]), dict(rmin=None),
        dict(rmin=5.0, rmax=5.0), dict(rmin=300.0), dict(rmin=0, rlog=False), dict(rmin=20, rmax=10, rlog=False))
    add(ANY, PS, dict(hm_logk_min=2, hm_logk_max=1), dict(hm_logk_min=3), dict(hm_logk_max=-3), dict(hm_dlog10k=0), dict(hm_dlog10k=-1), dict(hm_dlog10k="x"),
        dict(hm_logk_min="x"), dict(hm_logk_max=nan), dict(hm_dlog10k=nan), dict(hm_logk_min=1, hm_logk_max=1))
    add(R_GRID, CORR, dict(dr_table=0), dict(dr_table=-0.1), dict(dr_table="x"), dict(dr_table=nan))
    add(ANY, PS, dict(hc_spectrum="Nope"), dict(hc_spectrum=3), dict(hc_spectrum=None), dict(hc_spectrum="Linear"))
    add(ANY, SPECTRUM, dict(dlog10m=0), dict(dlog10m=-1), dict(Mmin=16, Mmax=11), dict(Mmin="x"), dict(dlnk=0), dict(dlnk=-1), dict(lnk_min=5, lnk_max=1), dict(z=-1),
        dict(z="x"), dict(n="x"), dict(n=-5), dict(sigma_8=-1), dict(sigma_8="x"), dict(delta_c=-1), dict(delta_c=0), dict(delta_c="x"), dict(Mmin=nan))
    add(ANY, PS, dict(sigma_8=nan), dict(n=nan), dict(delta_c=nan), dict(z=nan))
    add(TRACERS, ["mean_tracer_den"], dict(tracer_density="x"), dict(tracer_density=-1), dict(tracer_density=0), dict(tracer_density=nan), dict(tracer_density=1e-30),
        dict(hod_params=dict(M_min="x")), dict(hod_params=dict(M_min=nan)), dict(hod_params=dict(M_min=20.0)), dict(hod_params=dict(M_min=None)))
    add(["Projected", "ProjectedWDM"], ["projected_corr_gal"], dict(rp_min=3, rp_max=1), dict(rp_num=0), dict(rp_num=-2), dict(rp_min=-1), dict(rp_min=0), dict(proj_limit=-1),
        dict(proj_limit=0.001), dict(rp_min="x"), dict(rp_max=-1), dict(rp_min=[-1.0, 2.0]), dict(rp_min=[]), dict(rp_min=nan), dict(rp_max=nan), dict(proj_limit="x"),
        dict(proj_limit=nan), dict(rp_min=0, rp_log=False), dict(rp_num="x"))
    add(["Angular"], ["angular_corr_gal"], dict(theta_min=-1), dict(theta_min=1, theta_max=0.1), dict(theta_num=0), dict(theta_num=-1), dict(zmin=0.5, zmax=0.2),
        dict(zmin=0.3, zmax=0.3), dict(znum=0), dict(logu_min=3), dict(unum=0), dict(zmin=-1), dict(p1=3), dict(p1="x"), dict(p2=2), dict(theta_min="x"), dict(logu_min="x"),
        dict(znum=-2), dict(theta_min=0), dict(theta_max=200), dict(theta_min=nan), dict(zmin=nan), dict(zmax=inf), dict(logu_max=nan))
    add(WARM, ["dndm", "power_auto_matter"], dict(wdm_mass=-1), dict(wdm_mass="x"), dict(wdm_mass=0), dict(wdm_params=dict(nope=1)),
        dict(alter_model="Schneider12", alter_params=dict(nope=1)))
    add(WARM, PS, dict(wdm_mass=nan))
    return e


ENTRIES = entries()

# all the names users can give, by parameter
FAMILIES = dict(halo_profile=(PS, "halo_profile_model"), halo_concentration=(PS, "halo_concentration_model"), bias=(BIAS, "bias_model"),
                hod=(["mean_tracer_den"], "hod_model"), exclusion=(CORR2, "exclusion_model"), sd_bias=(CORR2, "sd_bias_model"),
                tracer_profile=(["power_1h_auto_tracer"], "tracer_profile_model"), tracer_concentration=(["power_1h_auto_tracer"], "tracer_concentration_model"),
                hmf=(["dndm"], "hmf_model"))


def cases(rng, tier):
    k = 1 if tier == "quick" else 8
    out = []
    for i in range(len(ENTRIES)):
        for rep in range(k):
            out.append(dict(kind="entry", entry=i, rep=rep, cost=3))
    out += [dict(kind="sequence", rep=i, cost=6) for i in range(16 * k)]
    out += [dict(kind="family", family=f, rep=i, cost=8) for f in FAMILIES for i in range(1 if k == 1 else 3)]
    out += [dict(kind="arguments", rep=i, cost=2) for i in range(8 * k)]
    out += [dict(kind="splines", rep=i, cost=1) for i in range(4 * k)]
    out += [dict(kind="cross", rep=i, cost=4) for i in range(3 * k)]
    return out


def run(case, mon):
    rng = rng_for("c26", case["seed"])
    warnings.simplefilter("ignore")
    globals()["run_" + case["kind"]](case, mon, rng)


def config(rng, cls):
    kind = "dm" if cls in ("DM", "WDM") else "tracer"
    kw = G.draw(rng, kind, inf=False, exclusion=False, sdbias=False, masks=False, hods=["Zehavi05", "Zheng05", "Contreras13"])
    kw["halo_profile_model"] = G.pick(rng, ["NFW", "Hernquist", "CoredNFW"])
    kw["halo_profile_params"] = {}
    kw["halo_concentration_model"] = G.pick(rng, ["Duffy08", "Zehavi11", "Bullock01Power"])
    kw.pop("halo_concentration_params", None)
    # (relevant to the invalid settings)
    for q in ("rmin", "rmax", "rlog", "tracer_profile_model", "tracer_profile_params", "mdef_model", "mdef_params", "disable_mass_conversion"):
        kw.pop(q, None)
    if cls in ("Projected", "ProjectedWDM"):
        kw.update(rnum=25, rp_min=0.3, rp_max=15.0, rp_num=5)
    if cls == "Angular":
        kw.update(zmin=0.2, zmax=0.4, znum=8, unum=12, theta_num=4)
    if cls.endswith("WDM"):
        kw.update(wdm_mass=G.U(rng, 0.8, 4))
    return kw


def valid(rng, cls):
    """A model that works, with its parameters."""
    for _ in range(8):
        kw = config(rng, cls)
        try:
            m = G.build(G.model_class(cls), kw)
            np.sum(m.power_auto_matter)
            return kw, m
        except Exception:  # noqa: BLE001
            continue
    return None, None


def late(model, outs):
    """Whether all of these outputs raise (also when they are tried again)."""
    return all(isinstance(G.read(model, o), str) for _ in range(2) for o in outs)


def show(model, outs):
    return ", ".join(f"{o}={G._show(G.read(model, o))}" for o in outs)


def reported(model):
    return copy.deepcopy(dict(model.parameter_values))


def alike(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(alike(a[q], b[q]) for q in a)
    if isinstance(a, type) or isinstance(b, type):
        return getattr(a, "__name__", a) == getattr(b, "__name__", b)
    try:
        if np.shape(a) != np.shape(b):
            return False
        return bool(np.all((np.asarray(a) == np.asarray(b)) | (np.asarray(a) != np.asarray(a)) & (np.asarray(b) != np.asarray(b))))
    except Exception:  # noqa: BLE001
        return a is b or a == b


def as_asked(old, new, asked, name):
    """A reported parameter is what it was, or what was asked for."""
    if alike(new, old):
        return True
    if name not in asked:
        return False
    a = asked[name]
    if isinstance(a, dict):
        # (dictionaries merge)
        return isinstance(new, dict) and alike(new, {**(old or {}), **a} if a else {})
    if isinstance(a, str) and not isinstance(new, str):
        return getattr(new, "__name__", None) == a or name == "cosmo_model"
    try:
        return alike(new, a) or bool(np.allclose(np.asarray(new, float), np.asarray(a, float), equal_nan=True))
    except Exception:  # noqa: BLE001
        return alike(new, a) or type(a)(new) == a


def check_reported(mon, before, model, want, key, **ctx):
    asked = want
    after = reported(model)
    mon.check("reported-parameters", set(after) == set(before), key="names", msg=str(set(after) ^ set(before)), **ctx)
    for n in after:
        if n == "hod_params" and ("tracer_density" in asked or before.get("tracer_density") is not None):
            continue
        if n == "tracer_density" and "hod_params" in asked and after[n] is None:
            continue
        if n == "tracer_density" and before.get(n) is not None and after[n] is None:
            # (the update that could not reach the density)
            continue
        mon.check("reported-parameters", as_asked(before.get(n), after[n], asked, n), key=f"{n}|{key}", msg=f"{n}: {before.get(n)!r:.60} -> {after[n]!r:.60}", **ctx)


SLOW = {"angular_corr_gal", "angular_corr_matter"}


def outputs(cls):
    return G.names(G.model_class(cls))


def vs_fresh(mon, clause, cls, model, ctx, must=False):
    klass = G.model_class(cls)
    if not must:
        # an output can not raise now and be there later
        some = [n for n in outputs(cls) if n not in SLOW]
        first = G.snapshot(model, some)
        again = G.snapshot(model, some[::-1])
        compare(mon, "read-again", again, first, ctx, rtol=1e-12)
    try:
        fresh = G.build(klass, reported(model))
    except Exception as e:  # noqa: BLE001
        if must:
            mon.violation(clause, f"{cls}|fresh rejected", f"{type(e).__name__}: {e}", **ctx)
        else:
            mon.note("reported parameters cannot be built")
        return False
    allnames = outputs(cls)
    compare(mon, clause, G.snapshot(model, allnames), G.snapshot(fresh, allnames), ctx, rtol=1e-6)
    return True


VALID = dict(z=0.3, n=0.97, sigma_8=0.82, delta_c=1.68, dlog10m=0.19, hm_dlog10k=0.28, takahashi=False, force_1halo_turnover=False, dlnk=0.21, Mmax=15.5)


def recovery(before, asked):
    """Updates that go back to the parameters before."""
    first, second = {}, {}
    for n in asked:
        if n not in before:
            continue
        v = before[n]
        if isinstance(v, dict):
            first[n] = {}
            if v:
                second[n] = copy.deepcopy(v)
        else:
            first[n] = v
    return [u for u in (first, second) if u]


def run_entry(case, mon, rng):
    classes, bad, outs = ENTRIES[case["entry"]]
    cls = classes[int(rng.integers(len(classes)))] if rng.random() < 0.7 else classes[0]
    label = "|".join(f"{k}={v!r}" for k, v in bad.items())
    kw, model = valid(rng, cls)
    if model is None:
        mon.note("no valid base")
        return
    klass = G.model_class(cls)
    ctx = dict(cls=cls, kw=kw, bad=repr(bad))
    # construction
    both = {**kw, **copy.deepcopy(bad)}
    for p in bad:
        if p.endswith("_params") and isinstance(bad[p], dict) and isinstance(kw.get(p), dict):
            both[p] = {**kw[p], **bad[p]}
    try:
        m = G.build(klass, both)
    except Exception:  # noqa: BLE001
        mon.observe("construction", label)
    else:
        mon.check("construction", late(m, outs), key=label, msg=f"accepted; {show(m, outs)}" if not late(m, outs) else "", **ctx)
    # update
    for n in rng.choice(outputs(cls), size=8, replace=False):
        if str(n) not in SLOW:
            G.read(model, str(n))
    if rng.random() < 0.5:
        for o in outs:
            G.read(model, o)
    before = reported(model)
    asked = dict(copy.deepcopy(bad))
    if rng.random() < 0.6:
        extra = {q: VALID[q] for q in map(str, rng.choice(list(VALID), size=int(rng.integers(1, 3)), replace=False)) if q not in bad}
        items = [*asked.items(), *extra.items()]
        asked = {items[i][0]: items[i][1] for i in rng.permutation(len(items))}
    ctx["asked"] = repr(asked)
    rejected = False
    try:
        G.update(model, copy.deepcopy(asked))
    except Exception as e:  # noqa: BLE001
        rejected = type(e).__name__
        mon.observe("update", label)
    else:
        ok = late(model, outs)
        mon.check("update", ok, key=label, msg="" if ok else f"accepted; {show(model, outs)}", **ctx)
    if rejected:
        check_reported(mon, before, model, asked, f"{cls}", **ctx)
    # the model afterwards
    vs_fresh(mon, "rejected-vs-fresh", cls, model, ctx)
    if case["rep"] % 3 == 2:
        # an unrelated valid update first
        try:
            G.update(model, dict(z=0.6))
        except Exception:  # noqa: BLE001
            mon.note("still rejected")
    for up in recovery(before, asked):
        try:
            G.update(model, up)
        except Exception as e:  # noqa: BLE001
            mon.violation("recovered-vs-fresh", f"{label}|recovery rejected", f"{type(e).__name__}: {e}", up=repr(up), **ctx)
            return
    check_recovered(mon, before, model, ctx, label, z=case["rep"] % 3 == 2)
    vs_fresh(mon, "recovered-vs-fresh", cls, model, ctx, must=True)


def check_recovered(mon, before, model, ctx, label, z=False):
    after = reported(model)
    for n in before:
        if z and n == "z":
            continue
        if n in ("tracer_density", "hod_params") and before.get("tracer_density") is not None:
            continue
        if n == "tracer_density" and "M_min" in before["hod_params"] and after[n] is None:
            continue
        a, b = before[n], after[n]
        mon.check("recovered-vs-fresh", alike(a, b), key=f"parameter {n}", msg=f"{a!r:.60} -> {b!r:.60}", **ctx)


def run_sequence(case, mon, rng):
    """Several rejected and accepted updates in a row."""
    cls = ANY[case["rep"] % len(ANY)] if rng.random() < 0.4 else "Tracer"
    kind = "dm" if cls in ("DM", "WDM") else "tracer"
    kw, model = valid(rng, cls)
    if model is None:
        mon.note("no valid base")
        return
    mine = [e for e in ENTRIES if cls in e[0]]
    log = []
    ctx = dict(cls=cls, kw=kw, log=log)
    for _ in range(int(rng.integers(3, 6))):
        for n in rng.choice(outputs(cls), size=5, replace=False):
            if str(n) not in SLOW:
                G.read(model, str(n))
        before = reported(model)
        if rng.random() < 0.35:
            up = {G.pick(rng, list(VALID)): None}
            up = {q: VALID[q] for q in up}
            log.append(up)
            try:
                G.update(model, up)
            except Exception as e:  # noqa: BLE001
                mon.violation("recovered-vs-fresh", f"valid update rejected|{cls}", f"{type(e).__name__}: {e}", **ctx)
                return
            continue
        _, bad, outs = mine[int(rng.integers(len(mine)))]
        asked = copy.deepcopy(bad)
        log.append(repr(asked))
        try:
            G.update(model, asked)
        except Exception:  # noqa: BLE001
            mon.observe("update", repr(bad))
            check_reported(mon, before, model, asked, cls, **ctx)
        for up in recovery(before, asked):
            log.append(repr(up))
            try:
                G.update(model, up)
            except Exception as e:  # noqa: BLE001
                mon.violation("recovered-vs-fresh", f"{bad}|recovery rejected", f"{type(e).__name__}: {e}", up=repr(up), **ctx)
                return
        check_recovered(mon, before, model, ctx, repr(bad))
    vs_fresh(mon, "recovered-vs-fresh", cls, model, ctx, must=True)


def plugins(base):
    return dict(base._plugins)


def run_family(case, mon, rng):
    """Unknown parameters and wrong names of every registered component."""
    import hmf
    from halomod import bias, concentration, halo_exclusion, hod, profiles

    f = case["family"]
    outs, par = FAMILIES[f]
    base = dict(halo_profile=profiles.Profile, tracer_profile=profiles.Profile, halo_concentration=concentration.CMRelation, tracer_concentration=concentration.CMRelation,
                bias=bias.Bias, hod=hod.HOD, exclusion=halo_exclusion.Exclusion, sd_bias=bias.ScaleDepBias, hmf=hmf.mass_function.fitting_functions.FittingFunction)[f]
    klass = G.model_class("Tracer")
    skip = {"MooreInf", "GeneralizedNFWInf", "Moore", "GeneralizedNFW", "EinastoInf"}
    for name, comp in plugins(base).items():
        if name in skip or not comp.__module__.startswith(("halomod.", "hmf.")):
            continue
        kw = {**G.GRID["light"], par: name}
        if par == "halo_profile_model" and name == "Einasto":
            continue
        bad = {f"{f}_params": {"not_a_parameter": 1.0}}
        try:
            good = G.build(klass, kw)
            if late(good, outs):
                mon.note(f"control unavailable: {name}")
                continue
        except Exception:  # noqa: BLE001
            mon.note(f"control unavailable: {name}")
            continue
        mon.observe("controls", name)
        try:
            m = G.build(klass, {**kw, **bad})
        except Exception:  # noqa: BLE001
            mon.observe("component-parameters", f"{par}|{name}")
        else:
            mon.check("component-parameters", late(m, outs), key=f"{par}|{name}", msg=f"accepted; {show(m, outs)}" if not late(m, outs) else "")
        try:
            G.update(good, copy.deepcopy(bad))
        except Exception:  # noqa: BLE001
            mon.observe("component-parameters", f"{par}|{name}|update")
        else:
            mon.check("component-parameters", late(good, outs), key=f"{par}|{name}|update", msg="accepted")
        # names are taken literally
        for wrong in (name.lower(), name + " ", name + "X", name[:-1]):
            if wrong in plugins(base):
                continue
            def build(wrong=wrong):
                m = G.build(klass, {**G.GRID["light"], par: wrong})
                if late(m, outs):
                    raise ValueError

            mon.raises("component-names", build, key=f"{par}|{wrong!r}", msg="accepted")


def run_arguments(case, mon, rng):
    """Functions of profiles with unknown normalisations and coordinates."""
    kw, model = valid(rng, "Tracer")
    if model is None:
        return
    name = ["NFW", "Hernquist", "CoredNFW", "Constant", "NFWInf", "HernquistInf", "PowerLawWithExpCut", "NFW"][case["rep"] % 8]
    try:
        G.update(model, dict(tracer_profile_model=name))
    except Exception:  # noqa: BLE001
        return
    p = model.tracer_profile
    m = np.sort(10 ** rng.uniform(11, 15, 3))
    c = rng.uniform(3, 12, 3)
    r = rng.uniform(0.05, 1.0, 4)
    if rng.random() < 0.4:
        m, c = float(m[0]), float(c[0])
    for fn, norms, coords, good in [("rho", [None, "m", "rho"], ["r", "s"], ("m", "r")), ("u", [None, "m"], ["k"], ("m", "k")), ("lam", [None, "m"], ["r", "s"], ("m", "r"))]:
        if fn == "lam" and not p.has_lam:
            mon.raises("component-arguments", lambda: p.lam(r, m, c=c), key=f"{name}.lam|missing")
            continue
        f = getattr(p, fn)
        for norm in norms:
            for coord in coords:
                with mon.guard("controls", key=f"{name}.{fn}|{norm}|{coord}"):
                    with np.errstate(all="ignore"):
                        f(r, m, norm=norm, c=c, coord=coord)
                    mon.observe("controls", f"{name}.{fn}")
        for bad in ["q", "", "M", "density", 3, "rho" if fn != "rho" else "mass", "None"]:
            if bad == "rho" and fn == "rho":
                continue
            mon.raises("component-arguments", lambda: f(r, m, norm=bad, c=c, coord=good[1]), key=f"{name}.{fn}|norm", msg=f"norm={bad!r} accepted")
        for bad in ["q", "", "K", "R", "rs", None, 2, "k" if fn != "u" else "r"]:
            mon.raises("component-arguments", lambda: f(r, m, norm=good[0], c=c, coord=bad), key=f"{name}.{fn}|coord", msg=f"coord={bad!r} accepted")
    mon.raises("component-arguments", lambda: p.virial_velocity(), key=f"{name}.virial_velocity")


def run_splines(case, mon, rng):
    from halomod import tools

    x = np.sort(rng.uniform(0.5, 20, 30))
    y = x ** rng.uniform(-2, 2) * rng.uniform(0.5, 2)
    S = tools.ExtendedSpline
    for lo in (None, "boundary", "power_law", np.log):
        for up in (None, "boundary", "power_law", np.log):
            with mon.guard("controls", key="spline"):
                S(x, y, lower_func=lo, upper_func=up)
                mon.observe("controls", "spline")
    for bad in ["powerlaw", "", "POWER_LAW", "zero", 3, 0, 1.5, "bound", ["power_law"], False]:
        mon.raises("spline", lambda: S(x, y, lower_func=bad), key="lower", msg=f"lower_func={bad!r} accepted")
        mon.raises("spline", lambda: S(x, y, upper_func=bad), key="upper", msg=f"upper_func={bad!r} accepted")
        mon.raises("spline", lambda: S(x, y, lower_func="boundary", upper_func=bad), key="upper", msg=f"upper_func={bad!r} accepted")
    a, b = x[0], x[-1]
    for dom in [(a + 1e-6, np.inf), (-np.inf, b - 1e-6), (a + 0.1, b - 0.1), (b + 1, b + 2), (0, a - 1e-3)]:
        mon.raises("spline", lambda: S(x, y, domain=dom), key="domain", msg=f"x in [{a}, {b}] accepted in {dom}")
    with mon.guard("controls", key="domain"):
        S(x, y, domain=(a, b))
        mon.observe("controls", "domain")
    with mon.guard("controls", key="negative"):
        S(x - 10, y, lower_func="boundary")
    mon.raises("spline", lambda: S(x - x[3], y, lower_func="power_law"), key="power law at non-positive x", msg="accepted")
    f = lambda k: np.exp(-k)  # noqa: E731
    r = rng.uniform(0.3, 10, 3)
    for v in ("k", "r"):
        with mon.guard("controls", key="hankel"):
            tools.hankel_transform(f, r, v)
            mon.observe("controls", "hankel")
    for bad in ["kr", "rk", "", "x", "K", "R", None, 3]:
        mon.raises("transform", lambda: tools.hankel_transform(f, r, bad), key="name", msg=f"trns_var_name={bad!r} accepted")


def run_cross(case, mon, rng):
    from halomod.cross_correlations import ConstantCorr, CrossCorrelations

    k1, m1 = valid(rng, "Tracer")
    if m1 is None:
        return
    k1.update(rmin=0.02, rmax=110.0)
    k2 = dict(k1, hod_model="Zheng05", hod_params={})
    good = dict(cross_hod_model="ConstantCorr", cross_hod_params=dict(R_ss=0.3), halo_model_1_params=k1, halo_model_2_params=k2)
    try:
        model = CrossCorrelations(**copy.deepcopy(good))
        want = [np.array(model.power_cross), np.array(model.corr_cross)]
    except Exception:  # noqa: BLE001
        mon.note("no valid base")
        return
    mon.observe("controls", "cross")
    from halomod import profiles

    bads = [dict(cross_hod_model="Nope"), dict(cross_hod_model=3), dict(cross_hod_model=profiles.NFW), dict(cross_hod_params=dict(nope=1)), dict(cross_hod_params=3),
            dict(halo_model_1_params=dict(nope=1)), dict(halo_model_2_params=dict(nope=1)), dict(halo_model_1_params=dict(bias_model="Nope")),
            dict(halo_model_2_params=dict(hod_model="Nope")), dict(halo_model_2_params=dict(hod_params=dict(nope=1))), dict(halo_model_1_params=dict(rmin=10, rmax=1)),
            dict(nonsense=1), dict(hod_model="Zheng05"), dict(halo_model_2_params=dict(hod_params=dict(M_min=19.0)))]
    for bad in bads:
        key = f"{bad!r:.70}"

        def use(m):
            return np.array(m.power_cross), np.array(m.corr_cross)

        def build(bad=bad):
            kw = copy.deepcopy(good)
            for p, v in bad.items():
                kw[p] = {**kw[p], **v} if isinstance(v, dict) and p in kw else v
            use(CrossCorrelations(**kw))

        mon.raises("cross", build, key=key + "|construction", msg=f"{bad} accepted")

        def update(bad=bad):
            model.update(**copy.deepcopy(bad))
            use(model)

        mon.raises("cross", update, key=key + "|update", msg=f"{bad} accepted")
        # back
        with mon.guard("cross", key=key + "|recovery"):
            for p in bad:
                if p in good:
                    v = good[p]
                    if p.startswith("halo_model"):
                        # (these are passed on to the models as updates)
                        clear = {q: {} for q in bad[p] if q.endswith("_params")}
                        if clear:
                            model.update(**{p: clear})
                    elif isinstance(v, dict):
                        model.update(**{p: {}})
                    model.update(**{p: copy.deepcopy(v)})
            got = use(model)
            for g, w in zip(got, want):
                mon.close("cross", g, w, rtol=1e-9, atol=1e-12 * np.abs(w).max(), key=key + "|recovered")
    mon.raises("cross", lambda: ConstantCorr([m1.hod]), key="one tracer")
    mon.raises("cross", lambda: ConstantCorr([m1.hod] * 3), key="three tracers")
    mon.raises("cross", lambda: ConstantCorr([m1.hod] * 2, nope=1), key="unknown parameter")
