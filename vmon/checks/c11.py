"""C11: statistics of mock catalogues (hypothesis tests over large samples)."""
from __future__ import annotations

import numpy as np
from scipy.stats import poisson

from ..ref import profiles as refp
from .popgen import HODS, PROFILES, PROF_PAR, build

PROPERTY = "C11"
RULE = ("Random occupation model, parameters, central condition, profile and concentration; large samples from tools.populate and "
        "Profile.populate; central fractions, satellite means, dispersion, full number distribution, radii and directions are tested "
        "against the occupation and the independently integrated profile at > 5.5 sigma.")
REQUIRED = ["central-fraction", "satellite-mean", "satellite-dispersion", "satellite-distribution", "conditional", "radii", "isotropy",
            "halo-independence"]
Z = 5.5


def cases(rng, tier):
    n, m = (44, 44) if tier == "quick" else (500, 500)
    out = []
    for i in range(n):
        out.append(dict(kind="numbers", hod=list(HODS)[i % len(HODS)], profile="NFW", central=bool((i // len(HODS)) % 2)))
    for i in range(m):
        out.append(dict(kind="radii", hod="Zehavi05", profile=PROFILES[i % len(PROFILES)], central=False, z=float(rng.choice([0, 1])),
                        explicit=bool(rng.random() < 0.5)))
    return out


def ks(u):
    u = np.sort(u)
    n = len(u)
    return max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))


def run(case, mon):
    from halomod import tools as T

    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "numbers":
        _, prof, hod = build(case, rng)
        # masses spanning threshold to many satellites
        mm = float(hod.mmin)
        lo = getattr(hod, "params", {}).get("M_min", mm)
        lms = np.concatenate([rng.uniform(lo - 0.4, lo + 0.6, 5), rng.uniform(lo + 0.2, min(14.3, hod.params.get("M_1", 13) + 0.7), 3)])
        per = 2500
        masses = np.repeat(10**lms, per)
        order = rng.permutation(len(masses))
        group = np.repeat(np.arange(len(lms)), per)[order]
        masses = masses[order]
        centres = rng.uniform(0, 1e3, (len(masses), 3))
        pos, halo, ncen = T.populate(centres, masses, profile=prof, hodmod=hod, rng=np.random.default_rng(case["seed"] + 1))
        cen = np.bincount(halo[:ncen], minlength=len(masses))
        sat = np.bincount(halo[ncen:], minlength=len(masses))
        mark = 10 ** hod.params.get("logA", 0.0)
        co = np.asarray(hod.central_occupation(10**lms)) / mark
        so = np.asarray(hod.satellite_occupation(10**lms)) / mark
        for g in range(len(lms)):
            w = group == g
            p, mu = float(co[g]), float(so[g])
            key = case["hod"] + f"|central={case['central']}"
            se = np.sqrt(max(p * (1 - p), 0) / per)
            mon.check("central-fraction", abs(cen[w].mean() - p) <= Z * se + 2.5 / per, key=key, msg=f"{cen[w].mean()} vs {p} +- {se} at lgM={lms[g]:.3f}")
            s = sat[w]
            # satellites: Poisson in each host with the stated mean over all haloes
            pc = p if case["central"] else 1.0
            if pc <= 0:
                mon.check("satellite-mean", s.sum() == 0, key=key + "|none")
                continue
            lam = mu / pc
            var = pc * (lam + lam**2) - mu**2
            se = np.sqrt(var / per)
            mon.check("satellite-mean", abs(s.mean() - mu) <= Z * se + 4.0 / per, key=key, msg=f"{s.mean()} vs {mu} +- {se} at lgM={lms[g]:.3f} nc={p:.3f}")
            host = cen[w] > 0 if case["central"] else np.ones(per, bool)
            if case["central"]:
                mon.check("conditional", s[~host].sum() == 0, key=key)
            t = s[host]
            if len(t) > 300 and lam > 0.05:
                disp = t.var(ddof=1) / lam
                se = np.sqrt(2.0 / len(t) + 1.0 / (lam * len(t)))
                mon.check("satellite-dispersion", abs(disp - 1) <= Z * se * (1 + se), key=key, msg=f"var/mean {disp} +- {se}")
                kmax = int(lam + 6 * np.sqrt(lam) + 4)
                f = np.bincount(t, minlength=kmax + 1)[: kmax + 1] / len(t)
                D = np.max(np.abs(np.cumsum(f) - poisson.cdf(np.arange(kmax + 1), lam)))
                mon.check("satellite-distribution", D <= 2.8 / np.sqrt(len(t)), key=key, msg=f"D={D}")
            if not case["central"] and 0.1 < p < 0.9 and mu > 0.1:
                r = np.corrcoef(cen[w], s)[0, 1]
                mon.check("conditional", abs(r) <= Z / np.sqrt(per), key=key + "|uncorrelated", msg=f"corr={r}")
        # neighbours in the list are independent
        if np.std(sat[:-1]) > 0:
            z = (sat - so[group]) / np.sqrt(np.maximum(so[group], 1e-3))
            r = np.mean(z[:-1] * z[1:]) / max(np.mean(z**2), 1e-9)
            mon.check("halo-independence", abs(r) <= 8 / np.sqrt(len(z)) + 0.02, key="numbers", msg=f"{r}")
        return

    _, prof, hod = build(case, rng)
    m = float(10 ** rng.uniform(11, 15))
    n = 60000
    kw = {}
    c = float(np.ravel(prof.cm_relation(m))[0])
    if case["explicit"]:
        c = float(rng.uniform(3, 18))
        kw["c"] = c
    pos = prof.populate(n, m, rng=np.random.default_rng(case["seed"] + 2), **kw)
    rv = float(prof.halo_mass_to_radius(m))
    d = np.sqrt((pos**2).sum(1))
    key = case["profile"]
    f = refp.shape(case["profile"], prof.params)
    tab = np.concatenate([[0], np.geomspace(1e-6, 1, 3000)]) * c
    mid = 0.5 * (tab[1:] + tab[:-1])
    h = np.diff(tab)
    g = lambda x: f(np.maximum(x, 1e-12 * c)) * x**2
    M = np.concatenate([[0], np.cumsum(h / 6 * (g(tab[:-1]) + 4 * g(mid) + g(tab[1:])))])
    M /= M[-1]
    u = np.interp(d / rv * c, tab, M)
    D = ks(u)
    mon.check("radii", D <= 2.8 / np.sqrt(n) + 2e-3, key=key, msg=f"D={D} for c={c} m={m:.3g}")
    mon.check("radii", d.max() <= rv * (1 + 1e-4), key=key + "|inside")
    e = pos / np.where(d > 0, d, 1)[:, None]
    for i in range(3):
        mon.check("isotropy", ks((e[:, i] + 1) / 2) <= 2.8 / np.sqrt(n), key=f"cos{i}")
        j = (i + 1) % 3
        mon.check("isotropy", abs(np.mean(e[:, i] * e[:, j])) <= Z * np.sqrt(1 / 15 / n), key=f"quad{i}{j}")
        phi = (np.arctan2(e[:, j], e[:, i]) / (2 * np.pi)) % 1
        mon.check("isotropy", ks(phi) <= 2.8 / np.sqrt(n), key=f"phi{i}")
    mon.check("isotropy", abs(np.corrcoef(u, np.abs(e[:, 2]))[0, 1]) <= Z / np.sqrt(n), key="radius-direction")
    mon.check("isotropy", abs(np.corrcoef(u[:-1], u[1:])[0, 1]) <= Z / np.sqrt(n), key="successive")
    # one satellite in each of many haloes: haloes are independent, and of the right size
    k = 1500
    ms = 10 ** rng.uniform(11.5, 14.8, k)
    import halomod.hod as H

    hod = H.Zehavi05(M_min=9.0, M_1=13.0, alpha=0.0)  # one satellite on average in every halo
    cen = rng.uniform(0, 1000, (k, 3))
    pos, halo, ncen = T.populate(cen, ms, profile=prof, hodmod=hod, rng=np.random.default_rng(case["seed"] + 3))
    hs = halo[ncen:]
    d = pos[ncen:] - cen[hs]
    dist = np.sqrt((d**2).sum(1))
    cc = np.asarray([float(np.ravel(prof.cm_relation(q))[0]) for q in ms[hs]])
    rvs = np.asarray(prof.halo_mass_to_radius(ms[hs]))
    x = dist / rvs * cc
    full = np.concatenate([[0], np.geomspace(1e-7, 1, 6000)]) * max(cc.max(), 1)
    mid = 0.5 * (full[1:] + full[:-1])
    M = np.concatenate([[0], np.cumsum(np.diff(full) / 6 * (g2(f, full[:-1]) + 4 * g2(f, mid) + g2(f, full[1:])))])
    u = np.interp(x, full, M) / np.interp(cc, full, M)
    N = len(u)
    mon.check("halo-independence", ks(np.clip(u, 0, 1)) <= 2.8 / np.sqrt(N) + 4e-3, key=key + "|radii", msg=f"{ks(np.clip(u, 0, 1))} N={N}")
    mon.check("halo-independence", np.all(np.abs((d / dist[:, None]).mean(0)) <= Z / np.sqrt(3 * N)), key="directions")
    first = np.unique(hs, return_index=True)[1]
    mon.check("halo-independence", ks(np.clip(u[first], 0, 1)) <= 2.8 / np.sqrt(len(first)) + 4e-3, key=key + "|first", msg=f"{ks(np.clip(u[first], 0, 1))}")


def g2(f, x):
    x = np.asarray(x, dtype=float)
    return np.where(x > 0, f(np.maximum(x, 1e-12)) * x**2, 0)
