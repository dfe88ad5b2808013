"""C03: reading is pure."""
from __future__ import annotations

import copy
import warnings

import numpy as np

from ..core import rng_for
from . import modelgen as G
from .c01 import start

PROPERTY = "C03"
RULE = ("Differential execution of the same model with different read orders, repeated reads, interleaved evaluations of the returned functions and "
        "components at random points (other masses, redshifts, scalars, integers), on every model class; every returned array and every array given to "
        "a component or helper is copied before and compared bit-for-bit afterwards.")
REQUIRED = ["read-order", "repeat", "returned-arrays-intact", "evaluation-points", "component-probe", "inputs", "helper-inputs", "params-unchanged"]
CASE_TIMEOUT = 150

CLS = ["Tracer", "Tracer", "Tracer", "DM", "Projected", "Angular", "WDM", "TracerWDM"]


def cases(rng, tier):
    k = 1 if tier == "quick" else 12
    out = [dict(kind="order", cls=c, rep=i, cost=5) for c in CLS for i in range(4 * k)]
    out += [dict(kind="inputs", rep=i, cost=3) for i in range(10 * k)]
    out += [dict(kind="slowprof", name=n, rep=i, cost=8) for n in ["Moore", "GeneralizedNFW", "Einasto"] for i in range(k)]
    out += [dict(kind="helpers", rep=i, cost=2) for i in range(10 * k)]
    out += [dict(kind="cross", rep=i, cost=5) for i in range(3 * k)]
    return out


def run(case, mon):
    rng = rng_for("c03", case["seed"])
    warnings.simplefilter("ignore")
    globals()[f"run_{case['kind']}"](case, mon, rng)


def raw(model, name):
    try:
        return getattr(model, name)
    except Exception as e:  # noqa: BLE001
        return f"raises {type(e).__name__}"


def cmp(mon, clause, got, want, **ctx):
    bad = []
    for n in want:
        mon.observe(clause, n)
        why = G.differ(got[n], want[n], 0.0)
        if why:
            bad.append((n, why))
    for n, why in bad[:3]:
        mon.violation(clause, n, f"{why}; differ: {[b[0] for b in bad][:8]}", **ctx)


def probe_components(model, rng, tracer):
    """Exercise the public methods of the components at unrelated points."""
    m = 10 ** rng.uniform(9.5, 15.5, int(rng.integers(1, 6)))
    r = 10 ** rng.uniform(-2, 1, 3)
    k = 10 ** rng.uniform(-2, 1, 3)
    ops = [lambda: model.halo_concentration.cm(m, float(rng.uniform(0, 2))), lambda: model.halo_profile.rho(r, m), lambda: model.halo_profile.u(k, m),
           lambda: model.halo_profile.cdf(r, m=m), lambda: model.halo_profile.halo_mass_to_radius(m),
           lambda: model.halo_profile.virial_velocity(m, r[0]) if hasattr(model.halo_profile, "virial_velocity") else None,
           lambda: model.power_hh(k, 11.0, 12.5), lambda: model.power_hh(0.1, 12.0, 12.0), lambda: model.bias.bias(),
           lambda: model.halo_profile.populate(30, float(m[0])), lambda: model.mdef.halo_density(1.0, model.cosmo),
           lambda: model.growth.growth_factor(1.3), lambda: model.filter.sigma(r, 0), lambda: model.halo_profile.scale_radius(m),
           lambda: model.halo_concentration.cm(1e12, 0.0), lambda: model.halo_concentration.cm(int(1e13), 1.0),
           lambda: model.nu_fn(m) if hasattr(model, "nu_fn") else None]
    if tracer:
        ops += [lambda: model.hod.total_occupation(m), lambda: model.hod.satellite_occupation(np.sort(m)), lambda: model.hod.ss_pairs(m),
                lambda: model.hod.cs_pairs(m), lambda: model.hod.sigma_satellite(m), lambda: model.hod.sigma_central(m),
                lambda: model.hod.central_occupation(np.array([1e12])), lambda: model.hod.mmin, lambda: model.tracer_profile.rho(r, m),
                lambda: model.tracer_profile.u(k, m), lambda: model.tracer_concentration.cm(m, 0.7), lambda: model.hod.unit_conversion(model.cosmo, 1.0),
                lambda: model.tracer_profile.populate(10, float(m[0])), lambda: model.hod.nbar(m) if hasattr(model.hod, "nbar") else None]
    for i in rng.permutation(len(ops))[:8]:
        try:
            ops[i]()
        except Exception:  # noqa: BLE001 -- unsupported probes are not what is judged here
            pass


def eval_callable(model, name, rng):
    f = raw(model, name)
    if not callable(f):
        return
    x = G.pick(rng, [10 ** rng.uniform(-3, 2, 7), float(10 ** rng.uniform(-2, 1)), np.array([1, 2, 50]), 10 ** rng.uniform(-5, 4, (2, 3)), np.array([0.3])])
    x0 = copy.deepcopy(x)
    try:
        f(x)
    except Exception:  # noqa: BLE001
        return None
    return x, x0


def run_order(case, mon, rng):
    cls = case["cls"]
    klass = G.model_class(cls)
    kw, kind = start(rng, cls)
    tracer = kind == "tracer"
    try:
        a, b, c = (G.build(klass, kw) for _ in range(3))
    except Exception as e:  # noqa: BLE001
        mon.note(f"base rejected: {type(e).__name__}")
        return
    names = G.names(klass)
    fncs = [n for n in names if n.endswith("_fnc")]
    order = [str(x) for x in rng.permutation(names)]
    pa = {k: copy.deepcopy(v) for k, v in a.parameter_values.items() if not isinstance(v, type)}
    # a: one order, keeping the live arrays that were handed out
    live, want = {}, {}
    for n in order:
        v = raw(a, n)
        if isinstance(v, np.ndarray):
            live[n] = (v, v.copy())
        want[n] = G.read(a, n)
    want.update(G.read_objects(a, tracer))
    # b: another order, with component objects read in between
    got = {}
    for n in [str(x) for x in rng.permutation(names)]:
        got[n] = G.read(b, n)
    got.update(G.read_objects(b, tracer))
    cmp(mon, "read-order", got, want, kw=kw)
    # a again: reversed, each twice
    got = {}
    for n in reversed(order):
        G.read(a, n)
        got[n] = G.read(a, n)
    got.update(G.read_objects(a, tracer))
    cmp(mon, "repeat", got, want, kw=kw)
    # c: probes and function evaluations between the reads
    got = {}
    for j, n in enumerate(str(x) for x in rng.permutation(names)):
        if j % 6 == 0:
            probe_components(c, rng, tracer)
            mon.observe("component-probe", j)
        if j % 4 == 0:
            fn = G.pick(rng, fncs)
            r = eval_callable(c, fn, rng)
            if r is not None:
                mon.equal("inputs", r[0], r[1], fn)
        got[n] = G.read(c, n)
    got.update(G.read_objects(c, tracer))
    cmp(mon, "evaluation-points", got, want, kw=kw)
    cmp(mon, "evaluation-points", {n: G.read(c, n) for n in names}, {n: want[n] for n in names}, kw=kw)
    for n, (v, v0) in live.items():
        mon.equal("returned-arrays-intact", v, v0, n)
    bad = []
    for k, v in pa.items():
        w = a.parameter_values.get(k)
        try:
            ok = np.array_equal(w, v) if isinstance(v, (list, np.ndarray)) else bool(w == v)
        except Exception:  # noqa: BLE001
            ok = True
        if not ok:
            bad.append(k)
    mon.check("params-unchanged", not bad, ",".join(bad), f"reading changed parameters {bad}", kw=kw)
    # each returned function gives the same value for a point whatever else is evaluated
    for n in fncs:
        f = raw(a, n)
        if not callable(f):
            continue
        x = 10 ** rng.uniform(-2, 1.5, 9)
        try:
            full = np.array(f(x), dtype=float)
        except Exception:  # noqa: BLE001
            continue
        p = rng.permutation(9)
        ok = np.isfinite(full)
        mon.close("evaluation-points", np.array(f(x[p]))[ok[p]], full[p][ok[p]], rtol=1e-11, atol=1e-300, key=n)
        i = int(rng.integers(9))
        if ok[i]:
            mon.close("evaluation-points", np.ravel(f(x[i : i + 1])), full[i : i + 1], rtol=1e-11, atol=1e-300, key=n)


def run_cross(case, mon, rng):
    from halomod.cross_correlations import CrossCorrelations

    kws = [G.draw(rng, "tracer", hods=["Zehavi05", "Zheng05", "Tinker05", "Contreras13"], exclusion=False, sdbias=False, masks=False) for _ in range(2)]
    arg = dict(cross_hod_model="ConstantCorr", cross_hod_params=dict(R_ss=0.3, R_cs=-0.1), halo_model_1_params=kws[0], halo_model_2_params=kws[1])
    outs = [n for n in G.names(CrossCorrelations) if not n.endswith("_params")]
    ms = [G.build(CrossCorrelations, arg) for _ in range(3)]
    want = {n: G.read(ms[0], n) for n in outs}
    for m in ms[1:]:
        got = {}
        for n in (str(x) for x in rng.permutation(outs)):
            if rng.random() < 0.4:
                probe_components(m.halo_model_1, rng, True)
            if rng.random() < 0.4:
                G.read(m.halo_model_2, "corr_auto_tracer")
            m.cross_hod.ss_cross_pairs(G.M_EVAL)
            m.cross_hod.cs_cross_pairs(G.M_EVAL)
            got[n] = G.read(m, n)
        cmp(mon, "read-order", got, want, arg=arg)
        cmp(mon, "repeat", {n: G.read(m, n) for n in outs}, want, arg=arg)
    a = G.build(G.model_class("Tracer"), kws[0])
    names = G.names(type(a))
    cmp(mon, "read-order", {n: G.read(ms[1].halo_model_1, n) for n in names}, {n: G.read(a, n) for n in names}, arg=arg)


class Guarded:
    """Hand out arrays, then verify that none was modified."""

    def __init__(self, mon, clause):
        self.mon, self.clause, self.items = mon, clause, []

    def __call__(self, x):
        x = np.array(x)
        self.items.append((x, x.copy()))
        return x

    def verify(self, key):
        for x, x0 in self.items:
            self.mon.equal(self.clause, x, x0, key)
        self.items.clear()


def call(mon, g, key, fn):
    """Call twice with the same arguments: same answer, same arguments."""
    try:
        v1 = fn()
        c1 = copy.deepcopy(v1) if not isinstance(v1, np.ndarray) else v1.copy()
        v2 = fn()
    except Exception as e:  # noqa: BLE001 -- what is accepted is judged elsewhere
        mon.note(f"raised {key}: {type(e).__name__}")
        g.verify(key)
        return
    mon.equal("repeat", v2, c1, f"call {key}")
    mon.equal("returned-arrays-intact", v1, c1, f"call {key}")
    g.verify(key)


def shapes(rng, lo, hi, integer=True):
    """A coordinate as array (unsorted, sorted, integer, single) or scalar."""
    x = 10 ** rng.uniform(lo, hi, int(rng.integers(2, 7)))
    return G.pick(rng, [x, np.sort(x), np.sort(x)[::-1].copy(), x[:1]] + ([np.unique(np.ceil(x)).astype(int)] if integer else []))


def run_inputs(case, mon, rng):
    import halomod.bias as B
    import halomod.halo_exclusion as X
    import halomod.hod as H
    import halomod.profiles as P

    g = Guarded(mon, "inputs")
    hm = G.build(G.model_class("DM"), dict(G.GRID["light"], z=G.pick(rng, [0.0, 0.5])))
    conc = hm.halo_concentration
    M = lambda: g(shapes(rng, 10.2, 15))
    for name in G.HODS:
        h = getattr(H, name)(cosmo=hm.cosmo, **G.hod_params(rng, name), central=bool(rng.integers(2)))
        for meth in ("central_occupation", "satellite_occupation", "total_occupation", "ss_pairs", "cs_pairs", "sigma_satellite", "sigma_central",
                     "total_pair_function", "_central_occupation", "_satellite_occupation"):
            if hasattr(h, meth):
                m = M()
                call(mon, g, f"{name}.{meth}", lambda: getattr(h, meth)(m))
    for name in G.FAST_PROFILES + G.INF_PROFILES:
        p = getattr(P, name)(cm_relation=conc, mdef=hm.mdef, z=hm.z, nu_fn=hm.nu_fn, cosmo=hm.cosmo, **G.profile_params(rng, name))
        for i_c, (meth, lo, hi) in enumerate([("rho", -2, 0.5), ("u", -1, 1.5), ("lam", -2, 0.3), ("cdf", -2, 0.3), ("cdf", -2, 0.0)]):
            m, x = M(), g(shapes(rng, lo, hi))
            c = g(10 ** rng.uniform(0.3, 1.3, np.size(m)))
            if meth == "cdf":
                call(mon, g, f"{name}.cdf", lambda: p.cdf(x, m=m) if np.size(m) == 1 or i_c % 2 else p.cdf(x, c=c, m=m))
                continue
            if meth == "lam" and not p.has_lam:
                continue
            for kw in (dict(), dict(c=c), dict(norm="m"), dict(coord="x" if meth != "u" else "kappa")):
                if "coord" in kw and np.size(m) > 1:
                    continue
                call(mon, g, f"{name}.{meth}", lambda: getattr(p, meth)(x, m, **kw))
                g.items += [(m, m.copy()), (x, x.copy())]
        for meth in ("halo_mass_to_radius", "halo_radius_to_mass", "scale_radius", "cm_relation", "virial_velocity", "_rho_s"):
            if hasattr(p, meth):
                m = M()
                call(mon, g, f"{name}.{meth}", lambda: getattr(p, meth)(m))
    import halomod.concentration as C
    from hmf import Cosmology

    com = dict(filter0=conc.filter, growth=hm.growth, delta_c=1.686, profile=conc.profile, sigma_8=hm.sigma_8, ns=hm.n, mdef=hm.mdef, cosmo=Cosmology())
    for name in G.CONCS:
        cm = getattr(C, name)(**com, **G.jitter(rng, G.CM_PAR[name]))
        for z in (0.0, 0.8):
            m = M()
            call(mon, g, f"{name}.cm", lambda: cm.cm(m, z))
    for name in G.BIASES:
        nu, m, ne = g(np.linspace(0.3, 20, len(hm.m))), g(hm.m), g(hm.n_eff)
        b = getattr(B, name)(nu=nu, m=m, n_eff=ne, cosmo=hm.cosmo, n=hm.n, mstar=hm.mass_nonlinear, sigma_8=hm.sigma_8, delta_halo=g(np.array(200.0)))
        call(mon, g, f"bias.{name}", b.bias)
    xi = g(np.abs(hm.corr_halofit_mm_fnc(np.geomspace(0.1, 50, 20))))
    call(mon, g, "TinkerSD05", lambda: B.TinkerSD05(xi).bias_scale())
    m = np.logspace(11, 15, 24)
    r = np.geomspace(0.5, 20, 5)
    for name in G.EXCLUSIONS + G.EXCL_SLOW:
        dens = 1e-2 * (m / 1e12) ** -1.8 / 1e12
        for bias in (m ** 0.2 / 100, np.outer(np.linspace(1, 1.2, 5), m ** 0.2 / 100)):
            kw = dict(m=g(m), density=g(dens), power_integrand=g(np.outer(np.ones(3), dens)), bias=g(bias), r=g(r), halo_density=2e13)
            if rng.random() < 0.5:
                kw["xmin"] = float(m[5] * 1.2)
            try:
                e = getattr(X, name)(**kw)
            except Exception as ex:  # noqa: BLE001
                mon.note(f"raised {name}: {type(ex).__name__}")
                continue
            call(mon, g, f"exclusion.{name}", e.integrate)
            for k in ("m", "density", "power_integrand", "bias", "r"):
                g.items.append((kw[k], kw[k].copy()))
            call(mon, g, f"exclusion.{name}.density_mod", lambda: e.density_mod)


def run_slowprof(case, mon, rng):
    import halomod.profiles as P

    g = Guarded(mon, "inputs")
    hm = G.build(G.model_class("DM"), dict(G.GRID["light"]))
    name = case["name"]
    p = getattr(P, name)(cm_relation=hm.halo_concentration, mdef=hm.mdef, z=0.0, **({"use_interp": False} if name == "Einasto" else {}))
    for meth, lo, hi in (("rho", -2, 0.5), ("u", -1, 1.0)):
        m, x = g(10 ** rng.uniform(11, 15, 3)), g(10 ** rng.uniform(lo, hi, 4))
        call(mon, g, f"{name}.{meth}", lambda: getattr(p, meth)(x, m))
    x = g(10 ** rng.uniform(-2, 0, 5))
    call(mon, g, f"{name}.cdf", lambda: p.cdf(x, m=np.array([1e13])))


def run_helpers(case, mon, rng):
    from halomod import integrate_corr as I
    from halomod import tools as T

    g = Guarded(mon, "helper-inputs")
    x = np.geomspace(1e-3, 50, 30)
    y = G.pick(rng, [x**-1.5, -(x**-1.2), x**-1.5 - 0.3])
    zero = lambda q: np.zeros(np.shape(q))
    for lo in ("power_law", "boundary", zero, lambda t: t**-1.0):
        for hi in ("power_law", "boundary", zero):
            xx, yy, ev = g(x), g(y), g(G.pick(rng, [10 ** rng.uniform(-4, 3, 9), np.array([1, 2, 80]), 10 ** rng.uniform(-4, 3, (2, 4)), 10 ** rng.uniform(-2, 1, 3)]))
            call(mon, g, "ExtendedSpline", lambda: T.ExtendedSpline(xx, yy, lower_func=lo, upper_func=hi, match_lower=bool(rng.integers(1)))(ev))
    xx, yy = g(x), g(np.abs(y) + 0.1)
    for kw in (dict(), dict(xmin=0.02), dict(xmax=11.0, log=True), dict(xmin=0.5, xmax=3.0)):
        call(mon, g, "spline_integral", lambda: T.spline_integral(xx, yy, **kw))
        g.items += [(xx, xx.copy()), (yy, yy.copy())]
    P = lambda k: 1e4 * k * np.exp(-3 * k)
    for d in "rk":
        rr = g(shapes(rng, -0.5, 1))
        call(mon, g, "hankel_transform", lambda: T.hankel_transform(P, rr, d))
    k = np.geomspace(1e-4, 100, 300)
    for nm, args in (("power_to_corr_ogata", lambda kk, pp, rr: (pp, kk, rr)), ("corr_to_power_ogata", lambda kk, pp, rr: (pp, kk, rr)),
                     ("power_to_corr", lambda kk, pp, rr: (lambda lk: P(np.exp(lk)), rr))):
        f = getattr(T, nm)
        kk, pp, rr = g(k), g(P(k)), g(np.geomspace(0.3, 20, 6))
        call(mon, g, nm, lambda: f(*args(kk, pp, rr)))
        g.items += [(kk, kk.copy()), (pp, pp.copy()), (rr, rr.copy())]
    xi = lambda r: (np.asarray(r) / 5.0) ** -1.8
    r = np.geomspace(0.1, 100, 80)
    rr, xx, rp = g(r), g(xi(r)), g(np.geomspace(0.2, 20, 6))
    call(mon, g, "projected_corr_gal", lambda: I.projected_corr_gal(rr, xx, 90.0, rp))
    th = g(np.geomspace(1e-4, 1e-2, 4))
    call(mon, g, "angular_corr_gal", lambda: I.angular_corr_gal(th, xi, I.flat_z_dist(0.2, 0.4), 0.2, 0.4, -3, 2, znum=10, unum=20))
    z = g(np.linspace(0.1, 0.5, 9))
    call(mon, g, "dxdz", lambda: I.dxdz(z))
    call(mon, g, "flat_z_dist", lambda: I.flat_z_dist(0.2, 0.4)(z))
    # mock catalogue
    import halomod.hod as H
    import halomod.profiles as Pr

    hm = G.build(G.model_class("DM"), dict(G.GRID["light"]))
    cen, m = g(rng.uniform(0, 50, (12, 3))), g(10 ** rng.uniform(11.5, 14, 12))
    h = H.Zehavi05()
    np.random.seed(3)
    call_once(mon, g, "populate", lambda: T.populate(cen, m, profile=Pr.NFW(cm_relation=hm.halo_concentration, mdef=hm.mdef), hodmod=h, edges=g(np.array([0.0, 50.0])), rng=np.random.default_rng(2)))


def call_once(mon, g, key, fn):
    try:
        fn()
    except Exception as e:  # noqa: BLE001
        mon.note(f"raised {key}: {type(e).__name__} {e}")
    g.verify(key)
