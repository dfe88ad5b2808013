"""C14: halo exclusion integrals against direct double sums over halo pairs."""
from __future__ import annotations

import warnings

import numpy as np

PROPERTY = "C14"
RULE = ("Random halo densities, profiles u(k,m), biases (mass- and scale-dependent), separations, overdensities and lower mass limits on "
        "fine mass grids (even and odd lengths) for every exclusion model and its accelerated variant; plus halo models with each model. The "
        "reference is the direct double sum over pairs with the published exclusion probability, evaluated one mass cell inside and outside the boundary.")
REQUIRED = ["pair-integral", "density-mod", "never-exceeds", "large-scale", "accelerated", "inputs", "monotone", "continuous-xmin", "model", "model-corr", "model-power"]
ASSUMPTIONS = ["Sharp exclusion boundaries are resolved to one mass-grid cell (1% in r on the grids used)."]
CASE_TIMEOUT = 120

NAMES = ["NoExclusion", "Sphere", "DblSphere", "DblSphere_", "DblEllipsoid", "DblEllipsoid_", "NgMatched", "NgMatched_"]
ACC = ["DblSphere_", "DblEllipsoid_", "NgMatched_"]


def warmup():
    rng = np.random.default_rng(0)
    p = problem(rng, 30, None, "1d")
    from halomod import halo_exclusion as X

    for n in ACC:
        for xm in (None, p["kw"]["m"][5] * 1.1):
            try:
                getattr(X, n)(**{**p["kw"], "xmin": xm}).integrate()
            except Exception:  # noqa: BLE001 -- the cases themselves will report it
                pass


def cases(rng, tier):
    k = 3 if tier == "quick" else 12
    out = [dict(kind="comp", name=n, bias=b, xmin=x, cost=2) for n in NAMES for b in ("1d", "2d") for x in (False, True) for _ in range(2 * k)]
    out += [dict(kind="model", name=n, cost=6) for n in NAMES for _ in range(3 * k)]
    return out


def problem(rng, nm, xmin, bias):
    lo, hi = rng.uniform(10, 11.5), rng.uniform(14.5, 15.8)
    m = np.logspace(lo, hi, nm)
    mst = 10 ** rng.uniform(13, 14)
    N = 1 + (m / 10 ** rng.uniform(12, 13.5)) ** rng.uniform(0.7, 1.1)
    dens = m ** -rng.uniform(1.7, 1.95) * np.exp(-m / mst) * N
    sel = m >= (xmin or 0)
    dens /= np.trapezoid((dens * m), np.log(m))
    k = 10 ** rng.uniform(-2, 0.7, 3)
    rv = (3 * m / (4 * np.pi * 200 * 8e10)) ** (1 / 3)
    u = 1 / (1 + np.outer(k, rv) ** 2)
    hd = 200 * 8e10 * rng.uniform(0.5, 4)
    rhalo = (3 * m / (4 * np.pi * hd)) ** (1 / 3)
    mm = 10 ** rng.uniform(12, 14.5, 3)
    r = np.concatenate([2 * (3 * mm / (4 * np.pi * hd)) ** (1 / 3) * rng.uniform(0.9, 1.1, 3), [2.2 * rhalo[-1], 6 * rhalo[-1]]])
    r = np.sort(r)
    b = 0.6 + (m / 10 ** rng.uniform(12.5, 13.5)) ** rng.uniform(0.3, 0.5)
    if bias == "2d":
        b = np.outer(rng.uniform(0.9, 1.4, len(r)), b)
    return dict(kw=dict(m=m, density=dens, power_integrand=dens * u, bias=b, r=r, halo_density=hd), rhalo=rhalo, sel=sel)


def prob(name, r, R1, R2):
    base = name.rstrip("_")
    if base == "NoExclusion":
        return np.ones(np.broadcast(R1, R2).shape)
    if base == "Sphere":
        return ((R1 <= r / 2) & (R2 <= r / 2)).astype(float)
    if base == "DblSphere":
        return (R1 + R2 <= r).astype(float)
    y = np.clip((r / (R1 + R2) - 0.8) / 0.29, 0, 1)
    return 3 * y**2 - 2 * y**3


def fine(m, y, x0, n):
    """Resample y(ln m) on n points from x0 to the top (log-log cubic)."""
    from scipy.interpolate import CubicSpline

    L = np.linspace(np.log(x0), np.log(m[-1]), n)
    return L, np.exp(CubicSpline(np.log(m), np.log(y))(L))


def ref(name, r, kw, xmin, ik, ir, what, n=700):
    m = kw["m"]
    x0 = xmin or m[0]
    y = (kw["density"] if what == "dens" else kw["power_integrand"][ik]) * m
    if what == "pair":
        b = kw["bias"] if kw["bias"].ndim == 1 else kw["bias"][ir]
        y = y * b
    L, f = fine(m, y, x0, n)
    R = (3 * np.exp(L) / (4 * np.pi * kw["halo_density"])) ** (1 / 3)
    w = np.full(n, L[1] - L[0])
    w[[0, -1]] /= 2
    g = w * f
    return g @ prob(name, r, R[:, None], R[None, :]) @ g


def run(case, mon):
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(case["seed"])
    (comp if case["kind"] == "comp" else model)(case, mon, rng)


def comp(case, mon, rng):
    from halomod import halo_exclusion as X

    name = case["name"]
    base = name.rstrip("_")
    nm = int(rng.integers(220, 300))
    p = problem(rng, nm, None, case["bias"])
    kw = p["kw"]
    m = kw["m"]
    dl = np.log(m[1] / m[0])
    xmin = float(m[0] * np.exp(rng.uniform(5, 60) * dl)) if case["xmin"] else None
    keep = {k: np.array(v, copy=True) for k, v in kw.items()}
    E = getattr(X, name)(**kw, xmin=xmin)
    key = f"{name}|{case['bias']}|{'xmin' if xmin else 'full'}"
    I = np.asarray(E.integrate())
    D = np.broadcast_to(np.asarray(E.density_mod, dtype=float), kw["r"].shape)
    for k_, v in keep.items():
        mon.equal("inputs", kw[k_], v, key=f"{key}|{k_}")
    mon.equal("inputs", E.integrate(), I, key=key + "|repeat")
    shift = np.exp(0.67 * dl)  # one mass cell either side (R ~ m^1/3, two radii)
    nr, nk = len(kw["r"]), len(kw["power_integrand"])
    mon.check("pair-integral", I.shape in ((nr, nk), (1, nk)) and (I.shape[0] == nr or (base == "NoExclusion" and case["bias"] == "1d")), key=key + "|shape", msg=str(I.shape))
    I = np.broadcast_to(I, (nr, nk))
    full = np.array([[ref("NoExclusion", r, kw, xmin, ik, ir, "pair") for ik in range(nk)] for ir, r in enumerate(kw["r"])])
    dfull = np.sqrt(ref("NoExclusion", 1.0, kw, xmin, 0, 0, "dens"))
    tol = 0.004
    for ir, r in enumerate(kw["r"]):
        if base == "NgMatched":
            # the lower limit of both integrals is unity up to the mass where the cumulative density matches
            lo, hi = (np.sqrt(ref("DblEllipsoid", r * s, kw, xmin, 0, 0, "dens")) for s in (1 / shift, shift))
            mon.check("density-mod", lo * (1 - tol) - 1e-6 <= D[ir] <= hi * (1 + tol) + 1e-6, key=key, msg=f"{D[ir]} not in [{lo},{hi}]")
            L, f = fine(m, kw["density"] * m, xmin or m[0], 3000)
            cum = np.concatenate([[0], np.cumsum(0.5 * (f[1:] + f[:-1]) * (L[1] - L[0]))])
            for ik in range(nk):
                b = kw["bias"] if kw["bias"].ndim == 1 else kw["bias"][ir]
                _, g = fine(m, kw["power_integrand"][ik] * m * b, xmin or m[0], 3000)
                ci = np.concatenate([[0], np.cumsum(0.5 * (g[1:] + g[:-1]) * (L[1] - L[0]))])
                Lm = np.interp(D[ir], cum, L)
                # where the cumulative density is flat (all haloes included) the limit is the top of the grid
                l2 = ci[-1] ** 2 * (1 + tol) if D[ir] >= cum[-1] * 0.9985 else np.interp(Lm + 2 * dl, L, ci) ** 2
                l1 = np.interp(Lm - 2 * dl, L, ci) ** 2
                mon.check("pair-integral", l1 * (1 - tol) - 1e-9 * full[ir, ik] <= I[ir, ik] <= l2 * (1 + 2 * tol) + 1e-9 * full[ir, ik], key=key, r=r,
                          msg=f"{I[ir, ik]} not in [{l1},{l2}] full={full[ir, ik]}")
        else:
            if base != "NoExclusion":
                lo, hi = (np.sqrt(ref(name, r * s, kw, xmin, 0, 0, "dens")) for s in (1 / shift, shift))
                mon.check("density-mod", lo * (1 - tol) - 1e-6 * dfull <= D[ir] <= hi * (1 + tol) + 1e-6 * dfull, key=key, msg=f"{D[ir]} not in [{lo},{hi}]", r=r)
            else:
                mon.check("density-mod", D[ir] == 1, key=key)
            for ik in range(nk):
                lo, hi = (ref(name, r * s, kw, xmin, ik, ir, "pair") for s in (1 / shift, shift))
                a = 1e-6 * full[ir, ik]
                mon.check("pair-integral", lo * (1 - tol) - a <= I[ir, ik] <= hi * (1 + tol) + a, key=key, msg=f"{I[ir, ik]} not in [{lo},{hi}]", r=r, xmin=xmin)
    if base == "DblEllipsoid":  # smooth probability: direct comparison
        ir = int(rng.integers(nr))
        for ik in range(nk):
            w = ref(name, kw["r"][ir], kw, xmin, ik, ir, "pair", n=1500)
            mon.close("pair-integral", I[ir, ik], w, rtol=6e-3, atol=1e-4 * full[ir, ik], key=key + "|direct")
    # bounds
    mon.check("never-exceeds", np.all(I <= full * (1 + tol)) and np.all(I >= -1e-9 * full), key=key + "|pairs", msg=f"{(I / full).max()} {(I / full).min()}")
    if base != "NoExclusion":
        mon.check("never-exceeds", np.all(D <= dfull * (1 + tol)) and np.all(D >= 0), key=key + "|density")
    big = kw["r"] > 2.6 * p["rhalo"][-1]
    mon.close("large-scale", I[big], full[big], rtol=tol if base != "NgMatched" else 0.02, key=key)
    if base != "NoExclusion":
        mon.close("large-scale", D[big], np.full(big.sum(), dfull), rtol=tol, key=key + "|density")
    mon.check("monotone", case["bias"] == "2d" or np.all(np.diff(I, axis=0) >= -tol * full[:-1]), key=key)
    # accelerated = reference
    if name in ACC:
        S = getattr(X, base)(**kw, xmin=xmin)
        SI = np.asarray(S.integrate())
        rt = 0.01
        mon.close("accelerated", I, SI, rtol=rt, atol=3e-3 * full, key=key) if base != "NgMatched" else mon.close(
            "accelerated", I, SI, rtol=0.05, atol=0.02 * full, key=key)
        mon.close("accelerated", D, S.density_mod, rtol=rt, atol=3e-3 * dfull, key=key + "|density")
    # moving the lower limit by a small fraction of a cell changes the result slightly and monotonically
    if xmin:
        v = []
        for s in (0.0, 0.25, 0.5, 0.75):
            v.append(np.broadcast_to(getattr(X, name)(**kw, xmin=xmin * np.exp(s * dl)).integrate(), (nr, nk)))
        v = np.array(v)
        d = -np.diff(v, axis=0)
        # no step larger than a few times the others: smooth in the limit
        big_i = -1
        step = d[:, big_i, :]
        mon.check("continuous-xmin", np.all(step > 0) and np.all(step.max(0) < 2.5 * step.min(0)), key=key, step=step)
        below = getattr(X, name)(**kw, xmin=float(m[0]) * 0.5).integrate()
        none = getattr(X, name)(**kw, xmin=None).integrate()
        mon.close("continuous-xmin", below, none, rtol=1e-12, key=key + "|below-grid")


FAST = dict(transfer_model="EH", dlog10m=0.07, dlnk=0.1, dr_table=0.15, rmin=0.05, rmax=60, rnum=12, hm_dlog10k=0.2, Mmin=10.5, Mmax=15.5)


def model(case, mon, rng):
    from halomod import TracerHaloModel

    name = case["name"]
    kw = dict(FAST, z=float(rng.choice([0.0, 0.7])), hod_model=str(rng.choice(["Zheng05", "Zehavi05"])), hod_params={"M_min": float(rng.uniform(11.5, 12.5))},
              sd_bias_model=None if rng.random() < 0.5 else "TinkerSD05")
    a = TracerHaloModel(exclusion_model=name, **kw)
    b = TracerHaloModel(exclusion_model="NoExclusion", **kw)
    rmax = 2 * a.halo_profile.halo_mass_to_radius(a.m[-1], at_z=False) * 1.2
    r = a.r
    big = r > max(rmax, 8)
    small = r < 0.1
    for nm in ("corr_2h_auto_tracer", "corr_2h_auto_matter"):
        ca, cb = getattr(a, nm), getattr(b, nm)
        rt = 0.06 if "NgM" not in name else 0.1
        mon.close("model", ca[big], cb[big], rtol=rt, atol=1e-4, key=f"{name}|{nm}|large")
        mon.check("model", np.all(ca <= cb * (1.03) + 1e-3), key=f"{name}|{nm}|below", msg="excluded correlation exceeds unexcluded one", ca=ca, cb=cb)
        if name != "NoExclusion":
            mon.check("model", np.all(np.abs(ca[small]) < 0.2 * np.abs(cb[small])), key=f"{name}|{nm}|small", msg=f"{ca[small]} {cb[small]}")
    pipeline(mon, a, name)
    # accelerated models give the same answer
    if name in ACC:
        c = TracerHaloModel(exclusion_model=name.rstrip("_"), **kw)
        for nm in ("corr_2h_auto_tracer", "power_2h_auto_tracer"):
            w = getattr(c, nm)
            mon.close("accelerated", getattr(a, nm), w, rtol=0.08, atol=(0.02 if "corr" in nm else 1e-4) * np.abs(w).max(), key=f"{name}|{nm}|model")


def pipeline(mon, hm, name):
    """The 2-halo correlation of a model is the transform of its own pair integral times the centre spectrum, at each separation."""
    from halomod import halo_exclusion as X
    from halomod import tools as T

    table = getattr(hm, "_r_table", None)
    if table is None:  # (the table is not public: only used to avoid comparing interpolation errors)
        mon.note("no table")
        return
    table = np.asarray(table)
    sel = [int(np.argmin(np.abs(np.log(table / v)))) for v in (0.3, 0.8, 1.5, 3, 6, 15, 40)]
    r = table[sel]
    m, k = hm.m, hm.k
    sdb = hm.sd_bias_correction
    bias = hm.halo_bias if sdb is None else np.outer(np.asarray(sdb)[sel], hm.halo_bias)
    occ = hm.total_occupation
    todo = [("matter", hm.dndm * m / hm.mean_density_in_halos, hm.halo_profile_ukm, None)]
    if hm.hod_model.__name__ == "Zheng05":
        todo.append(("tracer", hm.dndm * occ / hm.mean_tracer_den, hm.tracer_profile_ukm, hm.tracer_mmin))
    for what, dens, u, xmin in todo:
        key = f"{name}|{what}|sd={sdb is not None}"
        e = getattr(X, name)(m=m, density=dens, power_integrand=dens * u, bias=bias, r=r, halo_density=hm.halo_overdensity_mean * hm.mean_density0,
                             xmin=xmin)
        integ = np.asarray(e.integrate())
        if integ.shape[0] == 1:
            integ = np.repeat(integ, len(r), axis=0)
        integ = integ * (np.ones(len(r)) * e.density_mod)[:, None]
        if what == "matter" and hm.force_unity_dm_bias:
            # forced to be unbiased at large separation
            x = np.log(m)
            far = 1.0 if sdb is None else np.asarray(sdb)[-1]
            integ = integ / T.spline_integral(m, dens * hm.halo_bias * far) ** 2
        up = "power_law" if name == "NoExclusion" else lambda q: np.zeros(np.shape(q))
        fs = [T.ExtendedSpline(k, row * hm.linear_power_fnc(k), lower_func=hm.linear_power_fnc, upper_func=up) for row in integ]
        want = T.hankel_transform(fs, r, "r", h=1e-4)
        fn = getattr(hm, f"corr_2h_auto_{what}_fnc")
        mon.close("model-corr", fn(r), want, rtol=2e-3, atol=2e-3 * np.abs(want).max() * 0.05, key=key)
        if name == "NoExclusion" and sdb is None:
            continue
        q = np.array([0.03, 0.1, 0.3, 1.0])
        q = k[[int(np.argmin(np.abs(np.log(k / v)))) for v in q]]
        pw = getattr(hm, f"power_2h_auto_{what}_fnc")
        mon.close("model-power", pw(q), T.hankel_transform(fn, q, "k", h=0.001), rtol=1e-3, atol=1e-6 * np.abs(pw(q)).max(), key=key)
        lo = k[(k > 1e-4) & (k < 5e-3)]
        b = hm.bias_effective_tracer if what == "tracer" else hm.bias_effective_matter
        mon.close("model-power", pw(lo), b**2 * hm.linear_power_fnc(lo), rtol=1e-4, key=key + "|large scales")
