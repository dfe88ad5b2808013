"""C10: structure of the mock catalogues made by tools.populate and Profile.populate."""
from __future__ import annotations

import numpy as np

from .popgen import HODS, PROFILES, build

PROPERTY = "C10"
RULE = ("Random halo lists (0-400 haloes, any order, float/integer/list masses, clustered at box edges) x occupation model x central "
        "condition x profile x box form (none, size, two limits, prism) x seed, populated through the halo model or through a profile "
        "and occupation; every object of every catalogue returned is checked against its halo.")
REQUIRED = ["shapes", "valid-halo", "one-central", "central-at-centre", "sat-within-halo", "in-box", "counts", "unoccupied",
            "central-condition", "same-seed", "input-unchanged", "profile-populate", "empty"]


def cases(rng, tier):
    n = 900 if tier == "quick" else 4000
    out = []
    for i in range(n):
        out.append(dict(kind="populate", hod=str(rng.choice(list(HODS))), profile=str(rng.choice(PROFILES)), central=bool(rng.random() < 0.5),
                        model=bool(rng.random() < 0.15), z=float(rng.choice([0, 0, 0.5, 2])), overdensity=int(rng.choice([200, 200, 500, 1000])),
                        n=int(rng.choice([0, 1, 2, 5, 40, 150, 400])), box=str(rng.choice(["none", "size", "limits", "prism"])),
                        masses=str(rng.choice(["float", "float", "int", "list", "float32"])), low=bool(rng.random() < 0.2)))
    for i in range(12 if tier == "quick" else 30):
        out.append(dict(kind="bulk", n=int(rng.choice([1, 30])), hod=str(rng.choice(["ContinuousPowerLaw", "Constant"]))))
    return out


def run(case, mon):
    from halomod import tools as T

    if case["kind"] == "bulk":  # a tracer without discrete sources: nothing to place
        import halomod.hod as H
        from halomod.profiles import NFW
        from halomod.concentration import Duffy08
        from hmf import Cosmology

        rng = np.random.default_rng(case["seed"])
        pos, halo, ncen = T.populate(rng.uniform(size=(case["n"], 3)), 10 ** rng.uniform(11, 15, case["n"]),
                                     profile=NFW(cm_relation=Duffy08(cosmo=Cosmology())), hodmod=getattr(H, case["hod"])())
        mon.check("shapes", np.shape(pos) == (0, 3) and len(halo) == 0 and ncen == 0, key="bulk")
        return

    rng = np.random.default_rng(case["seed"])
    hm, prof, hod = build(case, rng)
    n = case["n"]
    lo, hi = np.zeros(3), np.full(3, 50.0)
    edges = None
    if case["box"] == "size":
        edges = 50.0 if rng.random() < 0.7 else 50
    elif case["box"] == "limits":
        lo, hi = np.full(3, -30.0), np.full(3, 25.0)
        edges = [-30.0, 25.0] if rng.random() < 0.5 else np.array([-30.0, 25.0])
    elif case["box"] == "prism":
        lo, hi = np.array([-10.0, 5.0, 0.0]), np.array([30.0, 45.0, 60.0])
        edges = np.array([lo, hi])
    L = hi - lo
    u = rng.uniform(size=(n, 3))
    near = rng.random((n, 3)) < 0.3  # crowd the faces of the box
    u = np.where(near, np.where(u < 0.5, u * 0.01, 1 - (1 - u) * 0.01), u)
    centres = lo + u * L
    lm = rng.uniform(9.5, 11, n) if case["low"] else rng.choice([rng.uniform(10.5, 13, n), rng.uniform(12.5, 14.8, n)]) if n else np.zeros(0)
    masses = 10**lm
    if case["masses"] == "int":
        masses = masses.astype(np.int64)
    elif case["masses"] == "float32":
        masses = masses.astype(np.float32)
    arg = masses.tolist() if case["masses"] == "list" else masses
    c0, m0 = centres.copy(), np.array(masses).copy()
    kw = dict(halomodel=hm) if hm is not None else dict(profile=prof, hodmod=hod)
    key = "populate"
    gs = np.random.get_state()[1].copy()
    pos, halo, ncen = T.populate(centres, arg, edges=edges, rng=np.random.default_rng(case["seed"]), **kw)
    mon.check("same-seed", np.array_equal(np.random.get_state()[1], gs), key="global-state-untouched")
    pos2, halo2, ncen2 = T.populate(centres, arg, edges=edges, rng=np.random.default_rng(case["seed"]), **kw)
    mon.check("same-seed", np.array_equal(pos, pos2) and np.array_equal(halo, halo2) and ncen == ncen2, key=key)
    mon.check("input-unchanged", np.array_equal(centres, c0) and np.array_equal(np.array(arg, dtype=m0.dtype), m0), key=key)

    pos, halo = np.asarray(pos), np.asarray(halo)
    ncen = int(ncen)
    N = len(halo)
    mon.check("shapes", pos.shape == (N, 3) and halo.shape == (N,) and 0 <= ncen <= N and np.issubdtype(halo.dtype, np.integer), key=key,
              msg=f"{pos.shape} {halo.shape} {ncen}")
    mon.check("shapes", np.all(np.isfinite(pos)), key=key + "|finite")
    mon.check("valid-halo", N == 0 or (halo.min() >= 0 and halo.max() < n), key=key)
    if N == 0:
        mon.observe("empty", key)
    mf = np.asarray(masses, dtype=float)
    hc, hs = halo[:ncen], halo[ncen:]
    mon.check("one-central", len(np.unique(hc)) == ncen, key=key)
    mon.check("central-at-centre", np.array_equal(pos[:ncen], centres[hc]) if edges is None else np.allclose(pos[:ncen], centres[hc], rtol=0, atol=1e-9), key=key)
    mon.check("counts", len(hs) == N - ncen, key=key)
    d = pos[ncen:] - centres[hs]
    if edges is not None:
        d -= L * np.round(d / L)
        mon.check("in-box", np.all(pos >= lo) and np.all(pos <= hi), key=f"{case['box']}", msg=f"{pos.min(0) if N else ''} {pos.max(0) if N else ''}")
    if len(hs):
        dist = np.sqrt((d**2).sum(1))
        rv = np.asarray(prof.halo_mass_to_radius(mf[hs]))
        mon.check("sat-within-halo", np.all(dist <= rv * (1 + 1e-4) + 1e-9), key=case["profile"], msg=f"max {np.max(dist / rv)}")
        mon.check("sat-within-halo", np.all(dist > 0) and len(np.unique(pos[ncen:], axis=0)) == len(hs), key="distinct-positions")
    if n:
        mm = np.asarray(masses)
        nc = np.broadcast_to(hod.nc(mf), n)
        ns = np.broadcast_to(hod.ns(mf), n)
        mon.check("unoccupied", np.all(nc[hc] > 0), key="centrals")
        mon.check("unoccupied", np.all(ns[hs] > 0), key="satellites")
        mon.check("unoccupied", set(np.flatnonzero(nc >= 1 - 1e-15)) <= set(hc.tolist()), key="certain-centrals")
        if case["central"]:
            mon.check("central-condition", set(hs.tolist()) <= set(hc.tolist()), key=key)
        # very large mean satellite numbers leave no halo empty
        sure = np.flatnonzero(ns > 60) if not case["central"] else np.flatnonzero((ns > 60) & (nc >= 1 - 1e-15))
        mon.check("unoccupied", set(sure.tolist()) <= set(hs.tolist()), key="certain-satellites")
        if n >= 40 and N - ncen > 5:
            pos3, _, _ = T.populate(centres, arg, edges=edges, rng=np.random.default_rng(case["seed"] + 1), **kw)
            mon.check("same-seed", pos3.shape != pos.shape or not np.array_equal(pos3, pos), key="other-seed-differs")
        # the catalogue of a permuted halo list is structurally the same problem
    m = float(10 ** rng.uniform(11, 15))
    for k in (0, 1, 7):
        ctr = rng.uniform(-5, 5, 3)
        p = prof.populate(k, m, centre=ctr, rng=np.random.default_rng(3))
        q = prof.populate(k, m, rng=np.random.default_rng(3))
        mon.check("profile-populate", np.shape(p) == (k, 3), key="shape")
        mon.close("profile-populate", p - ctr, q, atol=1e-9, key="centre")
        if k:
            rv = float(prof.halo_mass_to_radius(m))
            mon.check("profile-populate", np.all(np.sqrt((q**2).sum(1)) <= rv * (1 + 1e-4)), key="radius")
            c = float(np.ravel(prof.cm_relation(m))[0])
            mon.close("profile-populate", prof.populate(k, m, c=c, rng=np.random.default_rng(3)), q, rtol=1e-9, atol=1e-12, key="default-concentration")
