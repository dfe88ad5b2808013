"""Shared generators of mock-catalogue workloads (C10, C11)."""
from __future__ import annotations

import numpy as np

HODS = {
    "Zehavi05": lambda r: dict(M_min=r(11, 12.5), M_1=r(12.3, 13.5), alpha=r(0.8, 1.2)),
    "Zheng05": lambda r: dict(M_min=r(11, 12.5), M_1=r(12.3, 13.5), alpha=r(0.8, 1.2), sig_logm=r(0.15, 0.7), M_0=r(11, 12)),
    "Contreras13": lambda r: dict(M_min=r(11, 12.5), M_1=r(12.3, 13.5), alpha=r(0.8, 1.2), sig_logm=r(0.15, 0.7), fca=r(0.1, 0.35),
                                  fcb=r(0, 0.35), fs=r(0.2, 0.6), delta=r(0.5, 1.5)),
    "Tinker05": lambda r: dict(M_min=r(11, 12.5), M_1=r(12.3, 13.5), M_cut=r(11, 13)),
    "Zehavi05WithMax": lambda r: dict(M_min=r(11, 12.5), M_1=r(12.3, 13.5), alpha=r(0.8, 1.2), M_max=r(13.5, 14.5)),
    "Zehavi05Marked": lambda r: dict(M_min=r(11, 12.5), M_1=r(12.3, 13.5), alpha=r(0.8, 1.2), M_max=r(13.5, 15), logA=r(-1, 1)),
    "Leauthaud11": lambda r: dict(sm_thresh=r(9, 10.6), bsat=r(8, 14)),
}
PROFILES = ["NFW", "Hernquist", "Moore", "Einasto", "CoredNFW", "Constant", "GeneralizedNFW", "PowerLawWithExpCut", "NFWInf", "HernquistInf"]
PROF_PAR = {"Einasto": lambda r: dict(alpha=r(0.15, 0.3), use_interp=False), "GeneralizedNFW": lambda r: dict(alpha=r(0.7, 1.3)),
            "PowerLawWithExpCut": lambda r: dict(a=r(0.03, 0.3), b=r(1.1, 2.2))}


def build(case, rng, conc=None):
    """Profile and HOD objects (or a halo model holding them)."""
    import halomod.concentration as C
    import halomod.hod as H
    import halomod.profiles as P
    from hmf import Cosmology
    from hmf.halos import mass_definitions as md

    r = lambda a, b: float(rng.uniform(a, b))
    hp = HODS[case["hod"]](r)
    pp = PROF_PAR.get(case["profile"], lambda r: {})(r)
    z = case.get("z", 0.0)
    if case.get("model"):
        from halomod import TracerHaloModel

        hm = TracerHaloModel(transfer_model="EH", dlog10m=0.1, dlnk=0.2, Mmin=9, Mmax=16, z=z, hod_model=case["hod"],
                             hod_params={**hp, **({"central": True} if case["central"] else {})},
                             halo_profile_model="NFW" if case["profile"].endswith("Inf") else "CoredNFW",
                             tracer_profile_model=case["profile"], tracer_profile_params=pp)
        return hm, hm.tracer_profile, hm.hod
    cm = C.Duffy08(cosmo=Cosmology()) if conc is None else conc
    prof = getattr(P, case["profile"])(cm_relation=cm, mdef=md.SOMean(overdensity=case.get("overdensity", 200)), z=z, **pp)
    hod = getattr(H, case["hod"])(central=case["central"], **hp)
    return None, prof, hod
