"""C28: output grids only sample the answer, and finer internal resolution only refines it."""
from __future__ import annotations

import warnings

import numpy as np

from ..core import rng_for
from . import modelgen as G

PROPERTY = "C28"
RULE = ("Random models are built on one output grid and again on others (ranges, numbers, spacings, logarithmic or linear, explicit unordered arrays that "
        "contain the first grid); values at shared scales, values of the first model's functions at the second model's scales, and every quantity that is not "
        "reported on the grid are compared exactly. Internal resolutions (mass, wavenumber, radius tables and their ranges, line-of-sight and redshift "
        "integrals) are refined one at a time and the change is compared with discretisation error. The reported grids are the ones asked for.")
REQUIRED = ["r-grid", "k-grid", "shared-r", "function-r", "shared-k", "function-k", "rest-unchanged-r", "rest-unchanged-k", "refine-dlog10m", "refine-dlnk",
            "refine-dr_table", "refine-mrange", "refine-lnk", "cross-shared", "rp-grid", "theta-grid", "refine-projection", "order-of-reads", "asked"]
CASE_TIMEOUT = 240


def cases(rng, tier):
    q = tier == "quick"
    out = [dict(kind="outgrid", rep=i, cost=3) for i in range(64 if q else 500)]
    out += [dict(kind="refine", rep=i, cost=8) for i in range(60 if q else 500)]
    out += [dict(kind="cross", rep=i, cost=3) for i in range(10 if q else 80)]
    out += [dict(kind="projected", rep=i, cost=4) for i in range(12 if q else 100)]
    out += [dict(kind="angular", rep=i, cost=6) for i in range(8 if q else 60)]
    out += [dict(kind="asked", cls=["DM", "DM", "Tracer", "WDM", "Projected", "ProjectedWDM", "Angular", "Angular"][i % 8], rep=i, cost=0.2) for i in range(96 if q else 1500)]
    return out


def spaced(lo, hi, n, log):
    """n points from lo to hi, both included."""
    f = np.arange(n) / (n - 1) if n > 1 else np.zeros(1)
    return lo * (hi / lo) ** f if log else lo + (hi - lo) * f


def run_asked(case, mon, rng):
    """The reported grids are the ones asked for, at construction and after updates."""
    cls = case["cls"]
    U = lambda a, b: float(rng.uniform(a, b))
    N = lambda: int(G.pick(rng, [1, 2, 3, 5, 10, 49, 50, 51, 64, 99, 100, 101, 128, 200, 257, 500, 1000, 1001, 3000]))
    hm = None
    kw = dict(transfer_model="EH", dlog10m=0.25, dlnk=0.25)
    for step in range(4):
        up = {}
        if rng.random() < 0.8 or not step:
            up.update(hm_logk_min=U(-4, -1.5), hm_logk_max=U(-1, 3), hm_dlog10k=U(0.003, 0.5))
        if cls in ("DM", "Tracer", "WDM"):
            if rng.random() < 0.25:
                x = 10 ** rng.uniform(-2, 2, int(rng.integers(1, 400)))
                x = x if rng.random() < 0.5 else np.sort(x)
                up["rmin"] = x if rng.random() < 0.5 else [float(v) for v in x]
            else:
                lo = 10 ** U(-3, 1)
                up.update(rmin=lo, rmax=lo * 10 ** U(0.1, 3), rnum=N(), rlog=bool(rng.random() < 0.5))
        elif cls.startswith("Projected"):
            if rng.random() < 0.25:
                up["rp_min"] = np.sort(10 ** rng.uniform(-1.5, 1.5, int(rng.integers(1, 300))))
            else:
                lo = 10 ** U(-2, 1)
                up.update(rp_min=lo, rp_max=lo * 10 ** U(0.1, 2), rp_num=N(), rp_log=bool(rng.random() < 0.5))
            if rng.random() < 0.5:
                up["proj_limit"] = G.pick(rng, [None, U(300, 900)])
        else:
            lo, zl = 10 ** U(-4, -1), U(0.05, 1.5)
            up.update(theta_min=lo, theta_max=lo * 10 ** U(0.1, 2), theta_num=N(), theta_log=bool(rng.random() < 0.5))
            up.update(zmin=zl, zmax=zl + U(0.02, 1), znum=max(N(), 2), logu_min=U(-5, -2), logu_max=U(1, 2.5), unum=max(N(), 2))
        kw = {**kw, **up}
        if hm is None:
            hm = G.build(G.model_class(cls), kw)
        else:
            hm.update(**up)
        k = hm.k_hm
        d = kw["hm_dlog10k"]
        mon.close("asked", k[0], 10 ** kw["hm_logk_min"], rtol=1e-9, key="k|first")
        mon.close("asked", np.diff(np.log10(k)), np.full(len(k) - 1, d), rtol=1e-6, key="k|spacing")
        mon.check("asked", abs(len(k) - (kw["hm_logk_max"] - kw["hm_logk_min"]) / d) <= 1 + 1e-6, "k|number", f"{len(k)} {kw}")
        if cls in ("DM", "Tracer", "WDM"):
            explicit = hasattr(kw["rmin"], "__len__")
            mon.close("asked", hm.r, np.array(kw["rmin"]) if explicit else spaced(kw["rmin"], kw["rmax"], kw["rnum"], kw["rlog"]), rtol=1e-9, key=f"r|{explicit or kw['rlog']}")
        elif cls.startswith("Projected"):
            explicit = hasattr(kw["rp_min"], "__len__")
            rp = hm.rp
            mon.close("asked", rp, np.array(kw["rp_min"]) if explicit else spaced(kw["rp_min"], kw["rp_max"], kw["rp_num"], kw["rp_log"]), rtol=1e-9, key=f"rp|{explicit or kw['rp_log']}")
            if kw.get("proj_limit"):
                mon.close("asked", hm.rlim, kw["proj_limit"], rtol=1e-12, key="limit")
            mon.check("asked", hm.r[0] <= rp.min() * (1 + 1e-9) and hm.r[-1] >= hm.rlim * (1 - 1e-9) and hm.rlim >= rp.max(), "projection covers the line of sight", f"{hm.r[0]}..{hm.r[-1]}, limit {hm.rlim}")
        else:
            mon.close("asked", hm.theta, spaced(kw["theta_min"], kw["theta_max"], kw["theta_num"], kw["theta_log"]), rtol=1e-9, key=f"theta|{kw['theta_log']}")
            mon.close("asked", [hm.zvec[0], hm.zvec[-1], len(hm.zvec)], [kw["zmin"], kw["zmax"], kw["znum"]], rtol=1e-12, key="redshifts")
            mon.close("asked", [hm.uvec[0], hm.uvec[-1], len(hm.uvec)], [10 ** kw["logu_min"], 10 ** kw["logu_max"], kw["unum"]], rtol=1e-9, key="line of sight")


def run(case, mon):
    rng = rng_for("c28", case["seed"])
    warnings.simplefilter("ignore")
    with np.errstate(all="ignore"):
        globals()["run_" + case["kind"]](case, mon, rng)


def build(cname, kw, mon):
    try:
        return G.build(G.model_class(cname), kw)
    except Exception as e:  # noqa: BLE001
        mon.note(f"rejected: {type(e).__name__}")
        return None


def r_of(kw):
    """The separations asked for."""
    if np.ndim(kw["rmin"]):
        return np.array(kw["rmin"], dtype=float)
    if kw.get("rlog", True):
        return np.geomspace(kw["rmin"], kw["rmax"], kw["rnum"])
    return np.linspace(kw["rmin"], kw["rmax"], kw["rnum"])


def k_of(kw):
    n = int(np.ceil((kw["hm_logk_max"] - kw["hm_logk_min"]) / kw["hm_dlog10k"] - 1e-9))
    return 10 ** (kw["hm_logk_min"] + kw["hm_dlog10k"] * np.arange(n))


def random_r(rng):
    kw = dict(rmin=G.U(rng, 0.02, 2), rmax=G.U(rng, 5, 150), rnum=int(rng.integers(2, 15)), rlog=bool(rng.random() < 0.6))
    if rng.random() < 0.3:
        kw["rmin"] = [G.U(rng, 0.02, 120) for _ in range(int(rng.integers(1, 8)))]
    return kw


def random_k(rng):
    return dict(hm_logk_min=G.U(rng, -3, -1), hm_logk_max=G.U(rng, 0.3, 1.8), hm_dlog10k=G.U(rng, 0.1, 0.5))


def run_outgrid(case, mon, rng):
    cname = ["DM", "Tracer", "Tracer", "TracerWDM"][case["rep"] % 4]
    kw = G.draw(rng, "dm" if cname == "DM" else "tracer", grid="light", hods=G.HODS)
    if cname.endswith("WDM"):
        kw["wdm_mass"] = G.U(rng, 1, 5)
    kw.update(random_r(rng), **random_k(rng))
    a = build(cname, kw, mon)
    if a is None:
        return
    key = cname
    ctx = dict(kw=kw)
    names = G.names(type(a))
    corr = [n for n in names if n.startswith("corr") and not n.endswith("_fnc")]
    power = [n for n in names if n.startswith("power_") and not n.endswith("_fnc")]
    rest = [n for n in names if n not in corr + power + ["r", "k_hm"]]
    if case["rep"] % 2:
        rest = [n for n in rest if rng.random() < 0.5]
    A = {n: G.read(a, n) for n in corr + power + rest}
    mon.close("r-grid", a.r, r_of(kw), rtol=1e-11, key=key, **ctx)
    mon.close("k-grid", a.k_hm, k_of(kw), rtol=1e-11, key=key, **ctx)

    # another grid of separations
    up = random_r(rng)
    if rng.random() < 0.5:
        x = list(map(float, a.r)) + [G.U(rng, 0.02, 120) for _ in range(3)]
        up["rmin"] = [x[i] for i in rng.permutation(len(x))]
    b = other(a, cname, kw, up, rng, mon)
    if b is None:
        return
    mon.close("r-grid", b.r, r_of({**kw, **up}), rtol=1e-11, key=key, **ctx)
    same_rest("rest-unchanged-r", b, A, power + rest, mon, key, up, ctx, rng)
    same_points("r", a.r, b, corr, A, a, mon, key, up, ctx)

    # another grid of wavenumbers
    up = random_k(rng)
    if rng.random() < 0.5:
        # every point of the first grid and others between
        m = int(rng.integers(2, 4))
        up = dict(hm_dlog10k=kw["hm_dlog10k"] / m, hm_logk_min=kw["hm_logk_min"] - kw["hm_dlog10k"] / m * int(rng.integers(0, 3)), hm_logk_max=kw["hm_logk_max"] + 0.3)
    c = other(a, cname, kw, up, rng, mon)
    if c is None:
        return
    mon.close("k-grid", c.k_hm, k_of({**kw, **up}), rtol=1e-11, key=key, **ctx)
    same_rest("rest-unchanged-k", c, A, corr + rest, mon, key, up, ctx, rng)
    same_points("k", a.k_hm, c, power, A, a, mon, key, up, ctx)

    # the order in which grids' quantities are read does not matter
    d = build(cname, kw, mon)
    order = [power[i] for i in rng.permutation(len(power))] + [corr[i] for i in rng.permutation(len(corr))]
    if rng.random() < 0.5:
        order.reverse()
    for n in order:
        why = G.differ(G.read(d, n), A[n], 1e-9)
        mon.check("order-of-reads", not why, key=f"{cname}|{n}", msg=why, **ctx)


def other(a, cname, kw, up, rng, mon):
    """The same model on another grid: built anew, or an updated copy."""
    if rng.random() < 0.5:
        return build(cname, {**kw, **up}, mon)
    b = a.clone()
    G.update(b, up)
    return b


def same_rest(clause, b, A, names, mon, key, up, ctx, rng):
    for n in names:
        if rng.random() < 0.5:
            continue
        why = G.differ(G.read(b, n), A[n], 1e-10)
        mon.check(clause, not why, key=f"{key}|{n}", msg=f"{n} depends on {sorted(up)}: {why}", up=up, **ctx)


def same_points(which, x, b, names, A, a, mon, key, up, ctx):
    y = np.asarray(b.r if which == "r" else b.k_hm)
    pair = [(i, j) for i in range(len(x)) for j in range(len(y)) if abs(x[i] - y[j]) <= 1e-12 * x[i]]
    for n in names:
        B = G.read(b, n)
        if isinstance(B, str) or B is None or isinstance(A[n], str) or A[n] is None:
            mon.check(f"shared-{which}", G.differ(B, A[n]) == "", key=f"{key}|{n}|raises", msg=f"{n}: {G._show(B)} and {G._show(A[n])}", up=up, **ctx)
            continue
        scale = max(np.nanmax(np.abs(A[n])), np.nanmax(np.abs(B)))
        if not np.isfinite(scale):
            continue
        if pair:
            i, j = map(list, zip(*pair))
            mon.close(f"shared-{which}", B[j], A[n][i], rtol=1e-9, atol=1e-12 * scale, key=f"{key}|{n}", msg=f"{n} at shared points", up=up, **ctx)
        f = getattr(a, n + "_fnc", None)
        if callable(f):
            mon.close(f"function-{which}", B, f(y), rtol=1e-9 if n != "power_auto_matter" or "WDM" not in key else 1e-2, atol=1e-12 * scale, key=f"{key}|{n}", msg=f"{n}_fnc of the first model at the second one's points", up=up, **ctx)


# -- internal resolution -----------------------------------------------------------------
SMOOTH = ["Zheng05", "Contreras13", "Leauthaud11", "Zehavi05"]
REFINE = ["dlog10m", "dlnk", "dr_table", "mrange", "lnk"]


def run_refine(case, mon, rng):
    what = REFINE[case["rep"] % len(REFINE)]
    excl = what in ("dlnk", "lnk") and rng.random() < 0.3
    kw = G.draw(rng, "tracer", grid="fine", exclusion=excl, sdbias=False, inf=False, masks=True, hods=SMOOTH)
    kw.update(rmin=[0.05, 0.2, 0.7, 2.0, 6.0, 20.0, 60.0], rlog=True, hm_logk_min=-2.0, hm_logk_max=1.0, hm_dlog10k=0.25)
    for k in ("halo_profile_model", "tracer_profile_model"):
        if kw.get(k) == "Constant":
            kw[k] = "NFW"
    if what == "mrange":
        kw["hod_params"]["central"] = True
    if kw.get("hc_spectrum") == "filtered-nl" or kw.get("hc_spectrum") == "filtered-lin":
        kw["hc_spectrum"] = "linear"
    if excl and kw.get("exclusion_model"):
        # (below 0.01 h/Mpc the excluded power is replaced by that without exclusion)
        kw.update(exclusion_model=G.pick(rng, ["Sphere", "Sphere", "DblSphere_"]), hm_logk_min=-1.5, dlog10m=0.1, dr_table=0.1)
    up = {
        "dlog10m": dict(dlog10m=0.0125), "dlnk": dict(dlnk=0.025), "dr_table": dict(dr_table=0.025),
        "mrange": G.pick(rng, [dict(Mmin=6.5), dict(Mmax=17.5), dict(Mmin=7, Mmax=17)]),
        "lnk": G.pick(rng, [dict(lnk_min=-20.7), dict(lnk_max=12.5), dict(lnk_min=-19.5, lnk_max=11)]),
    }[what]
    a = build("Tracer", kw, mon)
    if a is None:
        return
    b = build("Tracer", {**kw, **up}, mon)
    if b is None:
        return
    ctx = dict(kw=kw, up=up)
    key = f"{what}"
    for n in ("power_auto_matter", "power_1h_auto_matter", "power_2h_auto_matter", "power_auto_tracer", "power_1h_auto_tracer", "power_2h_auto_tracer",
              "power_cross_tracer_matter", "corr_auto_matter", "corr_linear_mm", "corr_halofit_mm", "corr_auto_tracer", "corr_cross_tracer_matter",
              "corr_2h_auto_tracer", "mean_tracer_den", "bias_effective_tracer", "mass_effective", "satellite_fraction"):
        # matter below the smallest haloes is no part of these; nor of the bias of tracers with matter
        if what == "mrange" and (n in ("power_cross_tracer_matter", "corr_cross_tracer_matter") or (
                kw.get("force_unity_dm_bias") is False and n in ("power_auto_matter", "power_2h_auto_matter", "corr_auto_matter"))):
            continue
        va, vb = np.asarray(getattr(a, n), float), np.asarray(getattr(b, n), float)
        t, atol = tolerance(n, what, kw, a, vb)
        mon.close(f"refine-{what}", va, vb, rtol=t, atol=atol, key=f"{key}|{n}", msg=f"{n} when {up}", **ctx)


def tolerance(n, what, kw, a, v):
    t = 5e-3
    if what == "mrange":
        t = 2e-2 if n not in ("power_auto_matter", "power_2h_auto_matter", "corr_auto_matter") else 0.1
    # (with exclusion the power at small scales is a transform passing through zero)
    atol = (3e-4 if kw.get("exclusion_model") else 1e-6) * np.abs(v).max()
    if n.startswith("corr"):
        # where correlations are small, errors of the transform are not relative
        atol = max(atol, 2e-4)
        t = max(t, 1.5e-2)
    if kw["hod_model"] == "Zehavi05":
        t = max(t, 3e-2)  # a sharp threshold within a cell of the masses
    return t, atol


def run_cross(case, mon, rng):
    from halomod.cross_correlations import ConstantCorr, CrossCorrelations

    base = G.draw(rng, "dm", grid="light", exclusion=False, sdbias=False, inf=False, masks=True)
    t1, t2 = ({k: v for k, v in G.draw(rng, "tracer", grid="light", exclusion=False, sdbias=False, inf=False, hods=G.HODS[:4], masks=False).items()
               if k.startswith(("hod", "tracer"))} for _ in range(2))
    base.update(random_r(rng), **random_k(rng))
    par = dict(R_ss=G.U(rng, -0.5, 1), R_cs=G.U(rng, -0.5, 1), R_sc=G.U(rng, -0.5, 1))

    def make(**grids):
        return CrossCorrelations(cross_hod_model=ConstantCorr, cross_hod_params=par, halo_model_1_params={**base, **t1, **grids}, halo_model_2_params={**base, **t2, **grids})

    try:
        a = make()
        a.power_cross
    except Exception as e:  # noqa: BLE001
        mon.note(f"rejected: {type(e).__name__}")
        return
    ctx = dict(base=base, t1=t1, t2=t2)
    up = random_r(rng)
    uk = random_k(rng)
    b = make(**up)
    c = make(**uk)
    for n in ("power_1h_cross", "power_2h_cross", "power_cross"):
        A, f = getattr(a, n), getattr(a, n + "_fnc")
        s = np.abs(A).max()
        mon.close("cross-shared", getattr(b, n), A, rtol=1e-9, atol=1e-12 * s, key=f"{n}|r", up=up, **ctx)
        mon.close("cross-shared", getattr(c, n), f(np.asarray(k_of({**base, **uk}))), rtol=1e-9, atol=1e-12 * s, key=f"{n}|k", up=uk, **ctx)
    for n in ("corr_1h_cross", "corr_2h_cross", "corr_cross"):
        A, f = getattr(a, n), getattr(a, n + "_fnc")
        s = np.abs(A).max()
        mon.close("cross-shared", getattr(c, n), A, rtol=1e-9, atol=1e-12 * s, key=f"{n}|k", up=uk, **ctx)
        mon.close("cross-shared", getattr(b, n), f(r_of({**base, **up})), rtol=1e-9, atol=1e-12 * s, key=f"{n}|r", up=up, **ctx)


# -- projections -------------------------------------------------------------------------
def run_projected(case, mon, rng):
    kw = G.draw(rng, "tracer", grid="medium", exclusion=False, sdbias=False, inf=False, hods=SMOOTH[:3], rich=0.6)
    for k in ("rlog", "rmin", "rmax"):
        kw.pop(k, None)
    for k in ("halo_profile_model", "tracer_profile_model"):
        if kw.get(k) == "Constant":
            kw[k] = "NFW"
    lim = G.U(rng, 60, 110)
    kw.update(rp_min=G.U(rng, 0.1, 0.6), rp_max=G.U(rng, 8, 25), rp_num=int(rng.integers(4, 9)), rp_log=bool(rng.random() < 0.6), proj_limit=lim,
              rnum=int(rng.integers(60, 90)), dr_table=0.05)
    a = build("Projected", kw, mon)
    if a is None:
        return
    ctx = dict(kw=kw)
    want = np.geomspace(kw["rp_min"], kw["rp_max"], kw["rp_num"]) if kw["rp_log"] else np.linspace(kw["rp_min"], kw["rp_max"], kw["rp_num"])
    mon.close("rp-grid", a.rp, want, rtol=1e-11, key="range", **ctx)
    A = np.array(a.projected_corr_gal)
    near = 0.25 * lim  # far from the limit, where what is left out is the same
    s = np.abs(A).max()
    x = list(map(float, a.rp)) + [G.U(rng, kw["rp_min"], kw["rp_max"]) for _ in range(int(rng.integers(1, 12)))]
    b = build("Projected", {**kw, "rp_min": sorted(x)}, mon)
    mon.close("rp-grid", b.rp, sorted(x), rtol=1e-12, key="array", **ctx)
    B = np.array([b.projected_corr_gal[int(np.argmin(abs(b.rp - r)))] for r in a.rp])
    mon.close("rp-grid", B, A, rtol=2.5e-2, atol=2e-3 * s, key="among others", rp=x, **ctx)
    c = build("Projected", {**kw, "rp_min": float(min(x)), "rp_max": kw["rp_max"] * 1.3, "rp_num": 3 * kw["rp_num"], "rp_log": True}, mon)
    C = np.exp(np.interp(np.log(a.rp), np.log(c.rp), np.log(np.maximum(c.projected_corr_gal, 1e-9))))
    ok = (a.rp < near) & (A > 1e-2 * s)
    mon.close("rp-grid", C[ok], A[ok], rtol=0.06, atol=5e-3 * s, key="finer", **ctx)
    up = G.pick(rng, [dict(rnum=2 * kw["rnum"]), dict(dr_table=0.025), dict(dlog10m=0.05)])
    d = build("Projected", {**kw, **up}, mon)
    mon.close("refine-projection", np.array(d.projected_corr_gal), A, rtol=2.5e-2, atol=2e-3 * s, key=f"projected|{sorted(up)}", up=up, **ctx)
    # the matter quantities do not know about the projection
    mon.close("refine-projection", d.corr_auto_matter_fnc(G.R_EVAL), a.corr_auto_matter_fnc(G.R_EVAL), rtol=2e-2, atol=1e-3, key="matter", **ctx)


def run_angular(case, mon, rng):
    kw = G.draw(rng, "tracer", grid="medium", exclusion=False, sdbias=False, inf=False, hods=SMOOTH[:3], rich=0.6)
    for k in ("rlog", "rmin", "rmax"):
        kw.pop(k, None)
    for k in ("halo_profile_model", "tracer_profile_model"):
        if kw.get(k) == "Constant":
            kw[k] = "NFW"
    z1 = G.U(rng, 0.15, 0.6)
    z2 = round(z1 + G.U(rng, 0.1, 0.3), 4)
    log = bool(rng.random() < 0.6)
    t1, t2 = sorted((float(f"{10 ** rng.uniform(-2.6, -2.2):.5g}"), float(f"{10 ** rng.uniform(-1.8, -1.2):.5g}")))
    kw.update(z=round((z1 + z2) / 2, 4), zmin=z1, zmax=z2, znum=40, logu_min=-4, logu_max=2.0, unum=80, rnum=60, theta_min=t1, theta_max=t2,
              theta_num=int(rng.integers(4, 9)), theta_log=log, dr_table=0.05)
    a = build("Angular", kw, mon)
    if a is None:
        return
    ctx = dict(kw=kw)
    deg = np.pi / 180 if abs(a.theta_max - t2) > 1e-9 else 1.0
    want = np.geomspace(t1, t2, kw["theta_num"]) if log else np.linspace(t1, t2, kw["theta_num"])
    mon.close("theta-grid", a.theta, want * deg, rtol=1e-10, key="range", **ctx)
    n = kw["theta_num"]
    # between the points of the first grid; the same angles at the shared places
    b = build("Angular", {**kw, "theta_num": 2 * n - 1}, mon)
    q = "angular_corr_gal" if case["rep"] % 2 else "angular_corr_matter"
    A = np.array(getattr(a, q))
    s = np.abs(A).max()
    mon.close("theta-grid", np.array(getattr(b, q))[::2], A, rtol=1e-6, atol=1e-9 * s, key=f"{q}|twice", **ctx)
    # a part of the range
    if n >= 4 and log:
        i, j = 1, n - 1
        c = build("Angular", {**kw, "theta_min": float(want[i]), "theta_max": float(want[j]), "theta_num": j - i + 1}, mon)
        mon.close("theta-grid", np.array(getattr(c, q)), A[i:j + 1], rtol=2e-2, atol=2e-3 * s, key=f"{q}|part", **ctx)
    up = G.pick(rng, [dict(znum=80), dict(unum=160), dict(rnum=120), dict(dr_table=0.025)])
    d = build("Angular", {**kw, **up}, mon)
    mon.close("refine-projection", np.array(getattr(d, q)), A, rtol=3e-2, atol=3e-3 * s, key=f"{q}|{sorted(up)}", up=up, **ctx)
