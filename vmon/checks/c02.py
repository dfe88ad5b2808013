"""C02: models never share or leak state."""
from __future__ import annotations

import copy
import os
import pickle
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from .. import core
from ..core import rng_for
from . import modelgen as G

PROPERTY = "C02"
RULE = ("Interleaved lifetimes of two or more models of every class (built with shared parameter dictionaries, updated, read, cloned, deep-copied, "
        "pickled here and in a separate process): outputs of the untouched model, the caller's dictionaries and arrays and the default parameters "
        "of every component class are recorded before and compared bit-for-bit after.")
REQUIRED = ["other-model-unchanged", "caller-args-unchanged", "class-defaults", "copy-equals-original", "copy-independent",
            "original-independent", "component-args", "same-after-others", "fresh-process"]
CASE_TIMEOUT = 150
_DEFAULTS = {}
_PLUGINS = {}


def registries():
    import halomod.bias as B
    import halomod.concentration as C
    import halomod.cross_correlations as X
    import halomod.halo_exclusion as E
    import halomod.hod as H
    import halomod.profiles as P
    from hmf.density_field import filters, transfer_models
    from hmf.halos import mass_definitions as md
    from hmf.mass_function import fitting_functions as ff

    return [B.Bias, B.ScaleDepBias, C.CMRelation, E.Exclusion, H.HOD, P.Profile, X.ConstantCorr.__mro__[1], ff.FittingFunction, filters.Filter,
            transfer_models.TransferComponent, md.MassDefinition]


def defaults_now():
    out = {}
    for base in registries():
        for c in all_subclasses(base):
            if c.__module__.startswith(("halomod.", "hmf.")):
                out[c] = copy.deepcopy(getattr(c, "_defaults", None))
    return out


def plugins_now():
    return {(b.__name__, n): c for b in registries() for n, c in getattr(b, "_plugins", {}).items()}


def all_subclasses(c):
    out = {c}
    for s in c.__subclasses__():
        out |= all_subclasses(s)
    return out


def warmup():
    """The defaults as they are right after import, before any model exists."""
    _DEFAULTS.update(defaults_now())
    _PLUGINS.update(plugins_now())


def check_defaults(mon):
    now = defaults_now()
    plug = plugins_now()
    for k, c in _PLUGINS.items():
        if plug.get(k) is not c:
            mon.violation("class-defaults", f"registry {k[1]}", f"the name {k} now means {plug.get(k)}")
    bad = []
    for k, v in _DEFAULTS.items():
        mon.observe("class-defaults", f"{k.__module__}.{k.__name__}")
        if k not in now or not core.same(now[k], v)[0] or (isinstance(v, dict) and list(now[k]) != list(v)):
            bad.append(k)
    for k in bad[:3]:
        mon.violation("class-defaults", k.__name__, f"defaults changed from {_DEFAULTS[k]} to {now.get(k)}")


CLS = ["Tracer", "Tracer", "DM", "Projected", "Angular", "WDM", "TracerWDM"]


def cases(rng, tier):
    k = 1 if tier == "quick" else 10
    out = [dict(kind="interleave", a=str(rng.choice(CLS)), b=str(rng.choice(CLS)), shared=bool(i % 2), cost=6, rep=i) for i in range(22 * k)]
    out += [dict(kind="copies", cls=c, rep=i, cost=6) for c in ["Tracer", "Tracer", "DM", "Projected", "Angular", "WDM", "TracerWDM", "ProjectedWDM"]
            for i in range(2 * k)]
    out += [dict(kind="cross", rep=i, cost=8) for i in range(6 * k)]
    out += [dict(kind="colossus", rep=i, cost=4) for i in range(4 * k)]
    out += [dict(kind="component", rep=i, cost=1) for i in range(12 * k)]
    out += [dict(kind="process", cls=c, cost=8) for c in ["Tracer", "TracerWDM"] for _ in range(k)]
    return out


def config(rng, cls):
    from .c01 import start

    kw, kind = start(rng, cls)
    return kw


def make(cls, kw, mon):
    """Build with the caller's own dictionaries (no defensive copies)."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return G.model_class(cls)(**kw)
    except Exception as e:  # noqa: BLE001
        mon.note(f"base rejected: {type(e).__name__}")
        return None


def tracer(cls):
    return cls not in ("DM", "WDM")


def snap(m, cls):
    return G.snapshot(m, G.names(G.model_class(cls)), tracer(cls))


def cmp(mon, clause, got, want, rtol=0.0, **ctx):
    bad = [(n, G.differ(got[n], want[n], rtol)) for n in want]
    for n in want:
        mon.observe(clause, n)
    bad = [b for b in bad if b[1]]
    for n, why in bad[:3]:
        mon.violation(clause, n, f"{why}; differ: {[b[0] for b in bad][:8]}", **ctx)
    return not bad


def args_equal(mon, a, b, key, **ctx):
    ok, why = core.same(a, b)
    mon.check("caller-args-unchanged", ok, key, f"the caller's arguments were changed: {why}", **ctx)


def churn(rng, m, cls, kw, mon, n=3):
    """Updates and reads on a model."""
    from .c01 import kind_of, next_updates

    cur = copy.deepcopy(kw)
    for _ in range(n):
        for up in next_updates(rng, cur, cls, kind_of(cls)):
            up0 = copy.deepcopy(up)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    m.update(**up)
            except Exception as e:  # noqa: BLE001
                mon.note(f"update rejected: {type(e).__name__}")
                return cur
            args_equal(mon, up, up0, "update")
            cur = G.merge(cur, up)
        for q in rng.choice(G.names(G.model_class(cls)), size=8, replace=False):
            G.read(m, str(q))
    return cur


def run(case, mon):
    rng = rng_for("c02", case["seed"])
    warnings.simplefilter("ignore")
    globals()[f"run_{case['kind']}"](case, mon, rng)
    check_defaults(mon)


def run_interleave(case, mon, rng):
    ca, cb = case["a"], case["b"]
    ka = config(rng, ca)
    if case["shared"]:
        # the very same dictionary objects, with a different scalar here and there
        cb = ca
        kb = dict(ka)
        kb["z"] = 0.3
        for p in ("bias_params", "halo_profile_params", "halo_concentration_params", "cosmo_params", "hod_params"):
            if p not in ka and (p != "hod_params" or tracer(ca)):
                ka[p] = kb[p] = {}
    else:
        kb = config(rng, cb)
    ka0, kb0 = copy.deepcopy(ka), copy.deepcopy(kb)
    a = make(ca, ka, mon)
    if a is None:
        return
    args_equal(mon, ka, ka0, "init")
    s0 = snap(a, ca)
    args_equal(mon, ka, ka0, "read")
    b = make(cb, kb, mon)
    if b is None:
        return
    lazy = make(ca, ka, mon)  # built, but read only after everything else happened
    snap(b, cb)
    cur = churn(rng, b, cb, kb0, mon)
    snap(b, cb)
    c = b.clone()
    churn(rng, c, cb, cur, mon, 1)
    args_equal(mon, ka, ka0, "other model")
    args_equal(mon, kb, kb0, "own updates")
    ctx = dict(a=ka0, b=kb0)
    cmp(mon, "other-model-unchanged", snap(a, ca), s0, **ctx)
    cmp(mon, "other-model-unchanged", snap(lazy, ca), s0, **ctx)
    again = make(ca, ka, mon)
    cmp(mon, "same-after-others", snap(again, ca), s0, **ctx)


def run_copies(case, mon, rng):
    cls = case["cls"]
    kw = config(rng, cls)
    if cls.endswith("WDM") and rng.random() < 0.6:
        kw["halo_concentration_model"], kw["halo_concentration_params"] = "Duffy08WDM", {}
    m = make(cls, kw, mon)
    if m is None:
        return
    names = G.names(G.model_class(cls))
    want = snap(make(cls, kw, mon), cls)
    for q in rng.choice(names, size=int(rng.choice([0, 3, 30])), replace=False):
        G.read(m, str(q))
    ups = None
    for how in ("clone", "deepcopy", "pickle"):
        with mon.guard("copy-equals-original", f"{cls}|{how}", kw=kw):
            if how == "clone":
                c = m.clone()
            elif how == "deepcopy":
                c = copy.deepcopy(m)
            else:
                c = pickle.loads(pickle.dumps(m))
            from .c01 import kind_of, next_updates

            cmp(mon, "copy-equals-original", snap(c, cls), want, how=how, kw=kw)
            ups = next_updates(rng, kw, cls, kind_of(cls))
            cur = kw
            try:
                for up in ups:
                    G.update(c, up)
                    cur = G.merge(cur, up)
            except Exception as e:  # noqa: BLE001
                mon.note(f"update rejected: {type(e).__name__}")
                continue
            # reads of the two in random interleaving
            order = [str(x) for x in rng.permutation(names)[:40]]
            got_c, got_m = {}, {}
            for n in order:
                for who in rng.permutation(2):
                    if who:
                        got_c[n] = G.read(c, n)
                    else:
                        got_m[n] = G.read(m, n)
            ctx = dict(how=how, kw=kw, ups=ups)
            cmp(mon, "original-independent", got_m, {n: want[n] for n in order}, **ctx)
            cmp(mon, "original-independent", snap(m, cls), want, **ctx)
            fresh = make(cls, cur, mon)
            if fresh is not None:
                fw = snap(fresh, cls)
                cmp(mon, "copy-independent", got_c, {n: fw[n] for n in order}, 1e-9, **ctx)
                cmp(mon, "copy-independent", snap(c, cls), fw, 1e-9, **ctx)
                # and the other direction: changing the original leaves the copy alone
                z2 = 0.3 if cls == "Angular" else 0.45
                before = snap(c, cls)
                m2 = copy.deepcopy(m)
                d = m2.clone()
                G.update(m2, dict(z=z2))
                snap(m2, cls)
                cmp(mon, "copy-independent", snap(d, cls), want, **ctx)
                cmp(mon, "copy-independent", snap(c, cls), before, **ctx)


def run_cross(case, mon, rng):
    from halomod.cross_correlations import CrossCorrelations

    kws = [G.draw(rng, "tracer", hods=["Zehavi05", "Zheng05", "Tinker05"], exclusion=False, sdbias=False, masks=False) for _ in range(2)]
    arg = dict(cross_hod_model="ConstantCorr", cross_hod_params=dict(R_ss=0.3), halo_model_1_params=kws[0],
               halo_model_2_params=kws[0] if rng.random() < 0.4 else kws[1])
    arg0 = copy.deepcopy(arg)
    outs = [n for n in G.names(CrossCorrelations) if not n.endswith("_params")]
    rd = lambda x: {n: G.read(x, n) for n in outs}
    m = CrossCorrelations(**arg)
    w = rd(m)
    args_equal(mon, arg, arg0, "cross init")
    for how in ("clone", "deepcopy", "pickle"):
        with mon.guard("copy-equals-original", f"cross|{how}"):
            c = {"clone": lambda: m.clone(), "deepcopy": lambda: copy.deepcopy(m), "pickle": lambda: pickle.loads(pickle.dumps(m))}[how]()
            cmp(mon, "copy-equals-original", rd(c), w, how=how)
            up = dict(halo_model_1_params=dict(sigma_8=G.U(rng, 0.7, 0.78), hod_params=dict(M_1=G.U(rng, 13, 13.4))))
            up0 = copy.deepcopy(up)
            c.update(**up)
            args_equal(mon, up, up0, "cross update")
            got = rd(c)
            cmp(mon, "original-independent", rd(m), w, how=how)
            f = CrossCorrelations(**{**copy.deepcopy(arg), "halo_model_1_params": G.merge(arg["halo_model_1_params"], up["halo_model_1_params"])})
            cmp(mon, "copy-independent", got, rd(f), 1e-9, how=how)
    # a second framework built from the same dictionaries, updated
    c = CrossCorrelations(**arg)
    rd(c)
    c.update(halo_model_2_params=dict(z=0.4, hod_params=dict(M_min=12.1)), cross_hod_params=dict(R_cs=0.2))
    c.halo_model_1.update(hod_params=dict(M_1=13.35))
    rd(c)
    args_equal(mon, arg, arg0, "cross second")
    cmp(mon, "other-model-unchanged", rd(m), w)
    # a plain model sharing the inner dictionary
    a = G.model_class("Tracer")(**arg["halo_model_1_params"])
    a.update(hod_params=dict(M_min=12.3), halo_concentration_params=dict(norm=1.1))
    args_equal(mon, arg, arg0, "shared with plain model")
    cmp(mon, "other-model-unchanged", rd(m), w)


def run_colossus(case, mon, rng):
    """Components wrapped from colossus keep a global cosmology in that library."""
    cms = [n for n in ("diemer19", "child18", "duffy08", "prada12", "bhattacharya13")]
    import halomod.bias as B
    import halomod.concentration as C

    def conf():
        kw = dict(G.GRID["light"])
        kw.update(z=G.pick(rng, [0.0, 0.3]), sigma_8=G.U(rng, 0.7, 0.95), n=G.U(rng, 0.94, 1.0), cosmo_params=G.cosmo_params(rng),
                  mdef_model="SOCritical", mdef_params=dict(overdensity=200), disable_mass_conversion=False, hmf_model="Tinker08")
        return kw

    def mk(kw, bias, cm):
        return G.model_class("Tracer")(**kw, bias_model=B.make_colossus_bias(bias), halo_concentration_model=C.make_colossus_cm(cm))

    with mon.guard("other-model-unchanged", "colossus"):
        ka, kb = conf(), conf()
        ba, bb = [G.pick(rng, ["tinker10", "sheth01", "jing98", "bhattacharya11"]) for _ in range(2)]
        ca, cb = [G.pick(rng, cms) for _ in range(2)]
        names = G.names(G.model_class("Tracer"))
        a = mk(ka, ba, ca)
        s0 = G.snapshot(a, names)
        mon.note("colossus raising", sum(isinstance(v, str) for v in s0.values()))
        b = mk(kb, bb, cb)
        lazy = mk(ka, ba, ca)
        order = [str(x) for x in rng.permutation(names)]
        gb, gl = {}, {}
        for n in order:
            gb[n] = G.read(b, n)
            gl[n] = G.read(lazy, n)
        ctx = dict(a=ka, b=kb, bias=[ba, bb], cm=[ca, cb])
        cmp(mon, "other-model-unchanged", gl, {n: s0[n] for n in order}, **ctx)
        b.update(sigma_8=0.77)
        G.snapshot(b, names)
        a.update(z=0.2)
        a.update(z=ka["z"])
        cmp(mon, "other-model-unchanged", G.snapshot(a, names), s0, **ctx)


def run_component(case, mon, rng):
    """Components built by hand from shared dictionaries and arrays."""
    import halomod.hod as H
    from astropy.cosmology import FlatLambdaCDM

    hm = G.build(G.model_class("DM"), dict(G.GRID["light"], z=0.3))
    m = np.logspace(10.5, 14.5, 25)

    def unchanged(d, d0, key):
        ok, why = core.same(d, d0)
        mon.check("component-args", ok, key, why)

    import halomod.bias as B
    import halomod.concentration as C
    import halomod.profiles as P
    from hmf import Cosmology

    cosmo = FlatLambdaCDM(H0=70, Om0=0.3, Ob0=0.048, Tcmb0=2.725)
    for name in G.HODS:
        d = G.hod_params(rng, name)
        d0 = copy.deepcopy(d)
        h1 = getattr(H, name)(**d)
        v1 = np.array(h1.total_occupation(m))
        h2 = getattr(H, name)(**dict(d, M_min=d.get("M_min", 11.5) + 0.4))
        h2.total_occupation(m)
        h2.params.update(M_min=12.9)
        h2.ss_pairs(m)
        unchanged(d, d0, f"HOD {name}")
        mon.equal("other-model-unchanged", h1.total_occupation(m), v1, f"HOD {name}")
        mon.equal("same-after-others", getattr(H, name)(**d).total_occupation(m), v1, f"HOD {name}")
    base = hm.halo_concentration
    for name in G.CONCS:
        d = G.jitter(rng, G.CM_PAR[name])
        d0 = copy.deepcopy(d)
        com = dict(filter0=base.filter, growth=hm.growth, delta_c=1.686, profile=base.profile, sigma_8=0.8, ns=0.96, mdef=hm.mdef)
        mk = lambda dd, om=0.3: getattr(C, name)(cosmo=Cosmology(cosmo_params=dict(Om0=om)), **com, **dd)
        c1 = mk(d)
        v1 = np.array(c1.cm(m, 0.3))
        c2 = mk({**d, "norm": 1.3}, 0.25)
        c2.cm(m, 1.0)
        c2.params["norm"] = 2.0
        c2.cm(m, 0.0)
        unchanged(d, d0, f"CM {name}")
        mon.equal("other-model-unchanged", c1.cm(m, 0.3), v1, f"CM {name}")
        mon.equal("same-after-others", mk(d).cm(m, 0.3), v1, f"CM {name}")
    nu = np.linspace(0.3, 20, 25)
    for name in G.BIASES:
        d = G.jitter(rng, G.BIAS_PAR.get(name, {}))
        d0 = copy.deepcopy(d)
        a = dict(nu=nu.copy(), m=m.copy())
        com = dict(cosmo=cosmo, n=0.96, n_eff=hm.n_eff[: len(m)].copy(), mstar=hm.mass_nonlinear, sigma_8=0.8, delta_halo=200.0)
        mk = lambda dd: getattr(B, name)(**a, **com, **dd)
        b1 = mk(d)
        v1 = np.array(b1.bias())
        b2 = mk({**d, **G.jitter(rng, G.BIAS_PAR.get(name, {}))})
        b2.bias()
        mon.equal("other-model-unchanged", b1.bias(), v1, f"bias {name}")
        mon.equal("same-after-others", mk(d).bias(), v1, f"bias {name}")
        mon.equal("component-args", a["nu"], nu, f"bias {name} nu")
        mon.equal("component-args", a["m"], m, f"bias {name} m")
        unchanged(d, d0, f"bias {name}")
    for name in G.FAST_PROFILES + G.INF_PROFILES:
        d = G.profile_params(rng, name, p=1.0)
        d0 = copy.deepcopy(d)
        mk = lambda dd: getattr(P, name)(cm_relation=base, mdef=hm.mdef, z=0.3, nu_fn=hm.nu_fn, cosmo=cosmo, **dd)
        p1 = mk(d)
        r = np.array([0.01, 0.1, 0.4])
        v1 = np.array(p1.rho(r, m))
        p2 = mk({**d, "eta_bloat": 0.2})
        p2.rho(r, m)
        p2.u(r, m)
        unchanged(d, d0, f"profile {name}")
        mon.equal("other-model-unchanged", p1.rho(r, m), v1, f"profile {name}")
        mon.equal("same-after-others", mk(d).rho(r, m), v1, f"profile {name}")


def run_process(case, mon, rng):
    """The pickle of a model, loaded by a new process, gives the same outputs there."""
    cls = case["cls"]
    kw = config(rng, cls)
    kw.pop("exclusion_model", None)
    if cls.endswith("WDM"):
        kw["halo_concentration_model"], kw["halo_concentration_params"] = "Duffy08WDM", {}
    m = make(cls, kw, mon)
    if m is None:
        return
    names = [str(x) for x in rng.choice(G.names(G.model_class(cls)), size=45, replace=False)]
    for n in names[:15]:
        G.read(m, n)
    with tempfile.TemporaryDirectory() as td:
        with open(f"{td}/m.pkl", "wb") as f:
            pickle.dump(m, f)
        code = ("import pickle,sys\nfrom vmon import core\ncore.setup_process()\nfrom vmon.checks import modelgen as G\n"
                f"m=pickle.load(open({td + '/m.pkl'!r},'rb'))\nnames={names!r}\n"
                "o={n:G.read(m,n) for n in names}\nG.update(m,dict(sigma_8=0.777))\no2={n:G.read(m,n) for n in names}\n"
                f"pickle.dump((o,o2),open({td + '/o.pkl'!r},'wb'))\n")
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], cwd=core.VERIF, capture_output=True, text=True, timeout=140,
                           env=dict(os.environ))
        if not mon.check("fresh-process", p.returncode == 0, f"{cls}|load", p.stderr[-400:], kw=kw):
            return
        o, o2 = pickle.load(open(f"{td}/o.pkl", "rb"))
    cmp(mon, "fresh-process", o, {n: G.read(m, n) for n in names}, 1e-9, kw=kw)
    G.update(m, dict(sigma_8=0.777))
    cmp(mon, "fresh-process", o2, {n: G.read(m, n) for n in names}, 1e-9, kw=kw)
