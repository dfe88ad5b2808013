"""C05: a profile result does not depend on how coordinates and arrays are passed."""
from __future__ import annotations

import numpy as np

from vmon.checks import c04

PROPERTY = "C05"
RULE = ("Every density profile class x parameters x geometry; one quantity (rho/u/cdf/lam) is evaluated on a grid and "
        "compared with the same real code evaluated point by point, in other coordinates, with other normalisations, "
        "with explicit default concentrations, with integer inputs and in shuffled order.")
REQUIRED = ["shape", "pointwise", "coords", "norms", "explicit-c", "ints", "permuted", "radius-mass-inverse"]
CASE_TIMEOUT = 200
ALL = c04.TRUNC + c04.INF


def cases(rng, tier):
    out = []
    reps = 30 if tier == "quick" else 50
    for name in ALL:
        for _ in range(8 if (name in c04.NUMERIC and tier == "quick") else reps):
            out.append(dict(kind=name, prof=name, params=c04._params(name, rng), cost=20 if name in c04.NUMERIC else 1,
                            z=float(rng.choice([0.0, 0.5, 2.0])), mdef=str(rng.choice(["SOMean", "SOCritical", "SOVirial"])),
                            overdensity=float(rng.choice([180.0, 200.0, 350.0])), om=float(rng.choice([0.25, 0.3089]))))
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    name = case["prof"]
    prof, cosmo, mdef, rho0, delta = c04.build(case)
    num = name in c04.NUMERIC
    nm = 3
    nk = int(rng.choice([3, 5]))
    if not num and name not in ("MooreInf", "GeneralizedNFWInf") and rng.random() < 0.15:
        nm, nk = int(rng.choice([12, 40, 130])), int(rng.choice([7, 60, 300]))
    m = 10 ** rng.uniform(9, 15, nm)
    c0 = np.asarray(prof.cm_relation(m), dtype=float)
    rvir = (3 * m / (4 * np.pi * delta * rho0)) ** (1 / 3)
    r = rvir.max() * 10 ** rng.uniform(-2.5, 0.2, nk)
    k = 10 ** rng.uniform(-0.5, 1.3, nk) / rvir.max() * 3

    mon.close("radius-mass-inverse", prof.halo_mass_to_radius(m), rvir, rtol=1e-10, key=name)
    mon.close("radius-mass-inverse", prof.halo_radius_to_mass(prof.halo_mass_to_radius(m)), m, rtol=1e-10, key=name)
    mon.close("radius-mass-inverse", prof.halo_radius_to_mass(prof.halo_mass_to_radius(m, at_z=True), at_z=True), m, rtol=1e-10, key=name + "|at_z")

    # tolerance: 'u' of the numerical transforms interpolates between 100 wavenumbers of the request
    tol = {"rho": dict(rtol=1e-9), "cdf": dict(rtol=0, atol=1e-9),
           "u": dict(rtol=1e-8, atol=3e-3) if num else dict(rtol=1e-8, atol=1e-10),
           "lam": dict(rtol=1e-4 if name == "HernquistInf" else 1e-7)}
    quants = {"rho": (lambda x, mm, **kw: prof.rho(x, mm, **kw), r),
              "u": (lambda x, mm, **kw: prof.u(x, mm, **kw), k),
              "cdf": (lambda x, mm, c=None, **kw: prof.cdf(x, c=c, m=mm, **kw), r)}
    if name in c04.LAM:
        quants["lam"] = (lambda x, mm, **kw: prof.lam(x, mm, norm="m", **kw), r)

    for q, (fn, x) in quants.items():
        key = f"{name}.{q}"
        if q == "cdf" and not name.endswith("Inf") and name != "PowerLawWithExpCut":
            x = x * 0.6 * rvir.min() / x.max()  # inside every halo
        with mon.guard("shape", key=key):
            grid = np.asarray(fn(x.copy(), m.copy()), dtype=float)
            mon.check("shape", grid.shape == (nk, nm), key=key + "|grid", msg=f"{grid.shape} for {nk} x {nm}")
            if grid.shape != (nk, nm):
                continue
            one = np.asarray(fn(float(x[1]), float(m[1])), dtype=float)
            mon.check("shape", one.size == 1, key=key + "|scalar", msg=str(one.shape))
            mon.close("pointwise", one.ravel()[0], grid[1, 1], key=key + "|scalar", **tol[q])
            col = np.squeeze(np.asarray(fn(x.copy(), float(m[2])), dtype=float))
            mon.check("shape", col.shape == (nk,), key=key + "|vec-r", msg=str(col.shape))
            mon.close("pointwise", col, grid[:, 2], key=key + "|vec-r", **tol[q])
            row = np.squeeze(np.asarray(fn(float(x[0]), m.copy()), dtype=float))
            mon.check("shape", row.shape == (nm,), key=key + "|vec-m", msg=str(row.shape))
            mon.close("pointwise", row, grid[0], key=key + "|vec-m", **tol[q])
            # shuffled order
            pr, pm = rng.permutation(nk), rng.permutation(nm)
            mon.close("permuted", np.asarray(fn(x[pr], m[pm])), grid[np.ix_(pr, pm)], key=key, **(tol[q] if (num and q == "u") else dict(rtol=1e-9)))
            # explicit concentration equal to the default
            mon.close("explicit-c", np.asarray(fn(x.copy(), m.copy(), c=c0.copy())), grid, rtol=1e-10, key=key)
            mon.close("explicit-c", np.asarray(fn(x.copy(), float(m[0]), c=float(c0[0]))).reshape(-1), grid[:, 0], key=key + "|scalar-m", **tol[q])
            # another concentration is honoured, one per mass
            c1 = c0 * rng.uniform(0.6, 1.6, nm)
            g1 = np.asarray(fn(x.copy(), m.copy(), c=c1.copy()))
            for j in range(nm):
                mon.close("pointwise", np.asarray(fn(x.copy(), float(m[j]), c=float(c1[j]))).reshape(-1), g1[:, j], key=key + "|c-per-mass", **tol[q])
            # coordinates
            if q == "u":
                kap = x[:, None] * (rvir / c0)[None, :]
                mon.close("coords", np.asarray(fn(kap, m.copy(), coord="kappa")), grid, key=key + "|kappa-grid", **tol[q])
                mon.close("coords", np.asarray(fn(kap[:, 0].copy(), float(m[0]), coord="kappa")).reshape(-1), grid[:, 0], key=key + "|kappa", **tol[q])
            else:
                xx = x[:, None] / (rvir / c0)[None, :]
                mon.close("coords", np.squeeze(fn(xx.copy(), m.copy(), coord="x")), grid, key=key + "|x-grid", **tol[q])
                for j in range(nm):
                    mon.close("coords", np.asarray(fn(xx[:, j].copy(), float(m[j]), coord="x")).reshape(-1), grid[:, j], key=key + "|x", **tol[q])
                    mon.close("coords", np.asarray(fn(x / rvir[j], float(m[j]), coord="s")).reshape(-1), grid[:, j], key=key + "|s", **tol[q])
                s = np.sort(rng.uniform(0.02, 0.95, nk))
                gs = np.asarray(fn(s.copy(), m.copy(), coord="s"))
                mon.check("shape", gs.shape == (nk, nm), key=key + "|s-grid", msg=str(gs.shape))
                for j in range(nm):
                    mon.close("coords", gs[:, j], np.asarray(fn(s * rvir[j], float(m[j]))).reshape(-1), key=key + "|s-grid", **tol[q])
        # integers are just numbers
        with mon.guard("ints", key=key):
            mi = np.array([10**11, 3 * 10**13], dtype=np.int64)
            xi = np.array([1, 2, 3], dtype=np.int64) * (1 if q != "cdf" else 1)
            kw = dict(coord="x") if q != "u" else dict(coord="kappa")
            a = np.asarray(fn(xi, int(mi[0]), **kw), dtype=float)
            b = np.asarray(fn(xi.astype(float), float(mi[0]), **kw), dtype=float)
            mon.close("ints", a, b, rtol=1e-10, key=key + "|coord")
            a = np.asarray(fn(x.copy(), mi), dtype=float)
            b = np.asarray(fn(x.copy(), mi.astype(float)), dtype=float)
            mon.close("ints", a, b, rtol=1e-10, key=key + "|mass")

    # normalisations
    with mon.guard("norms", key=name):
        rm = np.asarray(prof.rho(r, m, norm="m"))
        rn = np.asarray(prof.rho(r, m))
        rr = np.asarray(prof.rho(r, m, norm="rho"))
        dz = mdef.mean_density(case["z"], cosmo)
        mon.close("norms", rn, rr * dz, rtol=1e-10, atol=1e-280, key=name + "|mean-density")
        if name != "PowerLawWithExpCut":
            mon.close("norms", rn, rm * m * dz / rho0, rtol=1e-8, atol=1e-270, key=name + "|halo-mass")
        um, un = np.asarray(prof.u(k, m)), np.asarray(prof.u(k, m, norm=None))
        mon.close("norms", un, um * m, rtol=1e-12, atol=1e-280, key=name + "|u")
        mon.raises("norms", lambda: prof.u(k, m, norm="nope"), key=name + "|invalid")
        mon.raises("norms", lambda: prof.rho(r, m, coord="nope"), key=name + "|invalid-coord")
        if "lam" in quants:
            mon.close("norms", np.asarray(prof.lam(r, m, norm=None)), np.asarray(prof.lam(r, m, norm="m")) * (m * dz / rho0) ** 2, rtol=1e-8, atol=1e-250, key=name + "|lam")
        sr = np.asarray(prof.scale_radius(m))
        mon.close("norms", sr, rvir / c0, rtol=1e-10, key=name + "|scale-radius")
