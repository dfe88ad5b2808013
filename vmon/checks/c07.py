"""C07: occupation numbers against the published laws, for every model, mass and switch."""
from __future__ import annotations

import numpy as np
from scipy.special import erf

PROPERTY = "C07"
RULE = ("Random parameters for every registered occupation model x central condition x mass arrays (random, integer, sorted or not, "
        "placed exactly at, just below and just above every threshold mass); occupations, pair counts and scatter returned by the "
        "real classes are compared with an independent transcription of the published laws.")
REQUIRED = ["central", "satellite", "total", "nonneg", "ss-pairs", "cs-pairs", "nc-ns", "pointwise", "marked", "sigma", "mmin",
            "edges", "input-unchanged", "repeatable"]

MODELS = ["Zehavi05", "Zheng05", "Contreras13", "Geach12", "Tinker05", "Zehavi05WithMax", "Zehavi05Marked", "ContinuousPowerLaw",
          "Constant", "Spinelli19", "Leauthaud11"]


def params(rng, model):
    mm, m1, al = rng.uniform(10.5, 13), rng.uniform(12, 14), rng.uniform(0.7, 1.5)
    sg, m0 = rng.uniform(0.1, 0.8), rng.uniform(10.3, 13)
    r = lambda *a: float(rng.uniform(*a))
    p = {
        "Zehavi05": dict(M_min=mm, M_1=m1, alpha=al),
        "Zheng05": dict(M_min=mm, M_1=m1, alpha=al, sig_logm=sg, M_0=m0),
        "Contreras13": dict(M_min=mm, M_1=m1, alpha=al, sig_logm=sg, fca=r(0.05, 0.5), fcb=r(0, 1), fs=r(0.1, 1), delta=r(0.2, 2), x=r(0.4, 2)),
        "Tinker05": dict(M_min=mm, M_1=m1, M_cut=r(10.5, 13.5)),
        "Zehavi05WithMax": dict(M_min=mm, M_1=m1, alpha=al, M_max=r(13.2, 15.5)),
        "Zehavi05Marked": dict(M_min=mm, M_1=m1, alpha=al, M_max=r(13.2, 15.5), logA=r(-2, 2)),
        "ContinuousPowerLaw": dict(M_min=mm, M_1=m1, alpha=al, M_max=r(13.2, 15.5), logA=r(-2, 2), sigma_A=r(0, 2)),
        "Constant": dict(M_min=mm, logA=r(-2, 2), sigma_A=r(0, 2)),
        "Spinelli19": dict(a1=r(1e-4, 1e-2), a2=r(1e-5, 1e-3), alpha=r(0.3, 0.9), beta=r(0.2, 0.7), M_1=r(-3, 10), M_break=r(11, 12.5),
                           M_0=r(7, 9), M_break_sat=r(11, 12), alpha_sat=r(0.5, 1.2), beta_sat=r(0.7, 1.4),
                           M_min_counts=r(10.7, 11.3), M_max_counts=r(14.2, 15.5), M_1_counts=m1, alpha_counts=al),
        "Leauthaud11": dict(redshift=r(0, 2), sm_thresh=r(8.5, 11), smhm_m0_0=r(10.4, 11), smhm_m0_a=r(-0.5, 0.5), smhm_m1_0=r(12, 12.7),
                            smhm_m1_a=r(-0.3, 0.3), smhm_beta_0=r(0.38, 0.5), smhm_beta_a=r(-0.05, 0.05), smhm_delta_0=r(0.5, 0.65),
                            smhm_delta_a=r(-0.05, 0.05), smhm_gamma_0=r(1.2, 1.7), smhm_gamma_a=r(-0.2, 0.2), sig_logmstar=r(0.1, 0.4),
                            alphasat=r(0.8, 1.2), betasat=r(0.6, 1.1), bsat=r(8, 14), betacut=r(-0.4, 0.4), bcut=r(0.8, 2)),
    }
    p["Geach12"] = {k: v for k, v in p["Contreras13"].items() if k != "x"} | {"x": 1}
    return {k: float(v) for k, v in p[model].items()}


def law(model, p, m):
    """(centrals, satellites) without the central condition; None where not specified."""
    lm = np.log10(m)
    one = np.ones_like(m)
    if model in ("Zehavi05", "Zehavi05WithMax", "Zehavi05Marked", "Tinker05"):
        c = (m >= 10 ** p["M_min"]) * one
        if "M_max" in p:
            c = c * (m <= 10 ** p["M_max"])
        if model == "Tinker05":
            d = m - 10 ** p["M_min"]
            with np.errstate(all="ignore"):
                s = np.where(d > 0, np.exp(-(10 ** p["M_cut"]) / np.where(d > 0, d, 1)) * m / 10 ** p["M_1"], 0.0)
        else:
            s = (m / 10 ** p["M_1"]) ** p["alpha"]
        a = 10 ** p.get("logA", 0.0)
        return c * a, s * a
    if model == "Zheng05":
        d = m - 10 ** p["M_0"]
        return 0.5 * (1 + erf((lm - p["M_min"]) / p["sig_logm"])), np.where(d > 0, (np.maximum(d, 0) / 10 ** p["M_1"]) ** p["alpha"], 0)
    if model in ("Contreras13", "Geach12"):
        t = (lm - p["M_min"]) / (p["x"] * p["sig_logm"])
        c = p["fcb"] * (1 - p["fca"]) * np.exp(-(t**2) / 2) + p["fca"] * (1 + erf(t))
        return c, p["fs"] * (1 + erf((lm - p["M_1"]) / p["delta"])) * (m / 10 ** p["M_1"]) ** p["alpha"]
    if model == "ContinuousPowerLaw":
        ok = (m >= 10 ** p["M_min"]) & (m <= 10 ** p["M_max"])
        return 0 * one, np.where(ok, 10 ** p["logA"] * ((m / 10 ** p["M_1"]) ** p["alpha"] + 1), 0)
    if model == "Constant":
        return 0 * one, np.where(m > 10 ** p["M_min"], 10 ** p["logA"], 0.0)
    if model == "Spinelli19":
        mb = 10 ** p["M_break"]
        c = m * (p["a1"] * (m / 1e10) ** p["beta"] * np.exp(-((m / mb) ** p["alpha"])) + p["a2"]) * np.exp(-np.sqrt(10 ** p["M_1"] / m))
        ms = 10 ** p["M_break_sat"]
        return c, np.where(m >= 1e11, 10 ** p["M_0"] * (m / ms) ** p["beta_sat"] * np.exp(-((ms / m) ** p["alpha_sat"])), 0.0)
    if model == "Leauthaud11":
        a1 = 1 / (1 + p["redshift"]) - 1
        g = {k: p[f"smhm_{k}_0"] + p[f"smhm_{k}_a"] * a1 for k in ("m0", "m1", "beta", "delta", "gamma")}

        def mh(ls):
            x = 10 ** (ls - g["m0"])
            return g["m1"] + g["beta"] * (ls - g["m0"]) + x ** g["delta"] / (1 + x ** -g["gamma"]) - 0.5

        # invert by bisection, independently of any table
        lo, hi = np.full(m.shape, 0.0), np.full(m.shape, 14.0)
        for _ in range(80):
            mid = (lo + hi) / 2
            up = mh(mid) < lm
            lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
        c = 0.5 * (1 - erf((p["sm_thresh"] - lo) / (np.sqrt(2) * p["sig_logmstar"])))
        knee, mt = 0.72e12, 10 ** mh(p["sm_thresh"])
        msat = knee * p["bsat"] * (mt / knee) ** p["betasat"]
        mcut = knee * p["bcut"] * (mt / knee) ** p["betacut"]
        return c, c * (m / msat) ** p["alphasat"] * np.exp(-mcut / m)
    raise KeyError(model)


# the documented values of the parameters that are not given
PUBLISHED = {
    "Zehavi05": dict(M_min=11.6222, M_1=12.851, alpha=1.049),
    "Zheng05": dict(M_min=11.6222, M_1=12.851, alpha=1.049, M_0=11.5047, sig_logm=0.26),
    "Contreras13": dict(M_min=11.6222, M_1=12.851, alpha=1.049, M_0=11.5047, sig_logm=0.26, fca=0.5, fcb=0, fs=1, delta=1, x=1),
    "Tinker05": dict(M_min=11.6222, M_1=12.851, M_cut=12.0),
    "Zehavi05WithMax": dict(M_min=11.6222, M_1=12.851, alpha=1.049, M_max=18),
    "Zehavi05Marked": dict(M_min=11.6222, M_1=12.851, logA=0.0, alpha=1.049, M_max=18.0),
    "ContinuousPowerLaw": dict(M_min=11.6222, M_1=12.851, logA=0.0, alpha=1.049, M_max=18.0, sigma_A=0),
    "Constant": dict(logA=0, M_min=11.0, sigma_A=0),
    "Spinelli19": dict(a1=0.0016, a2=0.00011, alpha=0.56, beta=0.43, M_min=9, M_break=11.86, M_1=-2.99, sigma_A=0, M_max=18, M_0=8.31,
        M_break_sat=11.4, alpha_sat=0.84, beta_sat=1.1, M_1_counts=12.851, alpha_counts=1.049, M_min_counts=11, M_max_counts=15,
        a=0.049, b=2.248, eta=1.0),
    "Leauthaud11": dict(redshift=0.0, sm_thresh=9.0, smhm_m0_0=10.72, smhm_m0_a=0.0, smhm_m1_0=12.35, smhm_m1_a=0.0, smhm_beta_0=0.43,
        smhm_beta_a=0.0, smhm_delta_0=0.56, smhm_delta_a=0.0, smhm_gamma_0=1.54, smhm_gamma_a=0.0, sig_logmstar=0.206,
        alphasat=1.0, betasat=0.859, bsat=10.62, betacut=-0.13, bcut=1.47, M_min=10),
}
PUBLISHED["Geach12"] = PUBLISHED["Contreras13"]


INHERENT = {"Tinker05", "Leauthaud11"}
BULK = {"ContinuousPowerLaw", "Constant"}
THRESH = {"Zehavi05": ["M_min"], "Zheng05": ["M_0"], "Tinker05": ["M_min"], "Zehavi05WithMax": ["M_min", "M_max"],
          "Zehavi05Marked": ["M_min", "M_max"], "ContinuousPowerLaw": ["M_min", "M_max"], "Constant": ["M_min"],
          "Spinelli19": ["M_min_counts", "M_max_counts"]}


def cases(rng, tier):
    n = 160 if tier == "quick" else 700
    out = []
    for mod in MODELS:
        for i in range(n):
            out.append(dict(kind=mod, central=bool(i % 2), default=bool(i < 2), ints=bool(rng.random() < 0.2)))
    return out


def run(case, mon):
    import halomod.hod as H

    rng = np.random.default_rng(case["seed"])
    model = case["kind"]
    cls = getattr(H, model)
    p = params(rng, model)
    if case["default"]:
        p = {}
    cen = case["central"] and model not in BULK and model != "Spinelli19"
    h = cls(central=cen, **p) if (cen or rng.random() < 0.5) else cls(**p)
    full = {**PUBLISHED[model], **p}
    m = 10 ** np.concatenate([np.sort(rng.uniform(9, 16, 30)), rng.uniform(10, 15, 10)])
    edges = []
    for t in THRESH.get(model, []):
        e = 10 ** full[t]
        edges += [e, np.nextafter(e, 0), np.nextafter(e, np.inf), e * (1 - 1e-6), e * (1 + 1e-6), e * 0.5, e * 2]
    if model == "Spinelli19":
        edges += [1e11, np.nextafter(1e11, 0), np.nextafter(1e11, np.inf)]
    m = np.concatenate([m, edges])
    if case["ints"]:
        m = m.astype(np.int64)
    mf = m.astype(float)
    m0 = m.copy()
    C, S = law(model, full, mf)
    if cen and model not in INHERENT:
        S = S * C / 10 ** full.get("logA", 0.0)
    key = model
    rt = 3e-5 if model == "Leauthaud11" else 1e-9  # tabulated stellar-to-halo mass relation
    at = 1e-8 if model == "Leauthaud11" else 0
    b = lambda v: np.broadcast_to(np.asarray(v, dtype=float), m.shape)
    c, s, t = b(h.central_occupation(m)), b(h.satellite_occupation(m)), b(h.total_occupation(m))
    mon.close("central", c, C, rtol=rt, atol=at + 1e-13, key=key)
    mon.close("satellite", s, S, rtol=rt * 2, atol=at * 0.1 + 1e-300, key=f"{key}|central={cen}")
    mon.close("total", t, c + s, rtol=1e-12, key=key)
    mon.check("nonneg", np.all(c >= 0) and np.all(s >= 0), key=key)
    if model not in BULK:
        if model != "Contreras13" and model != "Geach12" and model != "Spinelli19":
            mon.check("nonneg", np.all(c <= 10 ** full.get("logA", 0.0) * (1 + 1e-12)), key=key + "|centrals<=1")
    if edges:
        # step models: on each side of a threshold the law of that side
        k = len(edges)
        mon.close("edges", c[-k:], C[-k:], rtol=rt, atol=at + 1e-13, key=key + "|c")
        mon.close("edges", s[-k:], S[-k:], rtol=rt, atol=at + 1e-300, key=key + "|s")

    ss, cs = b(h.ss_pairs(m)), b(h.cs_pairs(m))
    mon.close("ss-pairs", ss, S**2, rtol=4 * rt, atol=at * 0.1 + 1e-300, key=key)
    if model in BULK:
        mon.close("cs-pairs", cs, 0 * mf, atol=0, key=key)
    elif cen:
        mon.close("cs-pairs", cs, S * 10 ** full.get("logA", 0.0), rtol=2 * rt, atol=at * 0.1 + 1e-300, key=key + "|central")
    else:
        mon.close("cs-pairs", cs, C * S, rtol=4 * rt, atol=at * 0.1 + 1e-300, key=key)
    mon.close("total", h.total_pair_function(m), ss + cs, rtol=1e-12, key=key + "|pairs")

    # numbers of tracers (rather than amount)
    A = 10 ** full.get("logA", 0.0) if model == "Zehavi05Marked" else 1.0
    if model in BULK:
        mon.close("nc-ns", [h.nc(m), h.ns(m)], [0, 0], key=key)
    elif model != "Spinelli19":
        mon.close("nc-ns", h.nc(m), C / A, rtol=rt, atol=at + 1e-13, key=key + "|nc")
        mon.close("nc-ns", h.ns(m), S / A, rtol=2 * rt, atol=at * 0.1 + 1e-300, key=key + "|ns")
    else:
        # amount of HI per galaxy, in haloes which host galaxies (strictly inside the range: on its ends only one side counts)
        q = (mf > 10 ** full["M_min_counts"]) & (mf < 10 ** full["M_max_counts"])
        with np.errstate(all="ignore"):
            mon.close("nc-ns", b(h.nc(mf))[q], C[q], rtol=rt, key=key + "|nc")
            mon.close("nc-ns", b(h.ns(mf))[q], (S / (mf / 10 ** full["M_1_counts"]) ** full["alpha_counts"])[q], rtol=2 * rt, key=key + "|ns")
    if model in ("ContinuousPowerLaw", "Constant"):
        mon.close("sigma", h.sigma_satellite(mf), np.full(m.shape, full["sigma_A"]), key=key)
    elif model in ("Zehavi05", "Zheng05", "Tinker05", "Zehavi05WithMax", "Leauthaud11"):
        mon.close("sigma", h.sigma_satellite(m), np.sqrt(S), rtol=2 * rt, atol=at**0.5, key=key + "|s")
        mon.close("sigma", h.sigma_central(m), np.sqrt(np.maximum(C * (1 - C), 0)), rtol=1e-3, atol=max(2e-3 if at else 1e-6, 0), key=key + "|c")

    if model == "Zehavi05Marked":
        # a step function of the mass: no scatter of the centrals at any mass
        mon.close("sigma", b(h.sigma_central(m)), 0 * mf, atol=1e-300, key=key + "|c")
    if model in BULK and model != "Spinelli19":
        mon.close("sigma", b(h.sigma_central(m)), 0 * mf, atol=1e-300, key=key + "|c")
    if model in ("Contreras13", "Geach12"):
        mon.close("sigma", b(h.sigma_satellite(m)), np.sqrt(S), rtol=2 * rt, key=key + "|s")

    # one mass at a time, any order
    for i in rng.choice(len(m), 6, replace=False):
        mi = m[i:i + 1]
        mon.close("pointwise", [float(np.ravel(b1)[0]) for b1 in (h.central_occupation(mi) + 0 * mi, h.satellite_occupation(mi) + 0 * mi, h.ss_pairs(mi) + 0 * mi, h.cs_pairs(mi) + 0 * mi)],
                  [c[i], s[i], ss[i], cs[i]], rtol=1e-12, atol=1e-300, key=key + "|single")
    q = rng.permutation(len(m))
    mon.close("pointwise", b(h.satellite_occupation(m[q])), s[q], rtol=1e-12, atol=1e-300, key=key + "|order")
    mon.close("pointwise", b(h.central_occupation(m[q])), c[q], rtol=1e-12, atol=1e-300, key=key + "|order")
    half = m[q][: len(m) // 2]
    mon.close("pointwise", np.broadcast_to(h.total_occupation(half), half.shape), t[q][: len(half)], rtol=1e-12, atol=1e-300, key=key + "|subset")

    # a mark only scales
    if model == "Zehavi05Marked":
        p2 = dict(full)
        A = 10 ** p2.pop("logA")
        for other in ("Zehavi05WithMax",):
            g = getattr(H, other)(central=cen, **p2)
            mon.close("marked", c, A * g.central_occupation(mf), rtol=1e-12, key="c")
            mon.close("marked", s, A * g.satellite_occupation(mf), rtol=1e-12, key="s")
            mon.close("marked", ss, A**2 * g.ss_pairs(mf), rtol=1e-12, key="ss")
            mon.close("marked", cs, A**2 * g.cs_pairs(mf), rtol=1e-12, key="cs")
            mon.close("marked", h.nc(m), g.nc(mf), rtol=1e-12, key="nc")
            mon.close("marked", h.ns(m), g.ns(mf), rtol=1e-12, key="ns")
    if model in ("ContinuousPowerLaw", "Constant"):
        g = cls(**{**full, "logA": full["logA"] + 1})
        mon.close("marked", g.total_occupation(m), 10 * t, rtol=1e-12, key=model)

    # reported minimum mass
    if model == "Zheng05":
        mon.close("mmin", h.mmin, full["M_min"] - 5 * full["sig_logm"], rtol=1e-12, key=key)
    elif model != "Leauthaud11":
        mon.close("mmin", h.mmin, full["M_min"], rtol=1e-12, key=key)
    if h.mmin is not None and model not in ("Spinelli19", "Leauthaud11", "Contreras13", "Geach12"):
        below = 10 ** (np.asarray([h.mmin - 0.05, h.mmin - 0.5]))
        mon.check("mmin", np.all(np.asarray(h.central_occupation(below)) < 1e-5), key=key + "|nothing-below")

    mon.check("input-unchanged", np.array_equal(m, m0), key=key)
    mon.equal("repeatable", b(h.total_occupation(m)), t, key=key)
    h2 = cls(central=cen, **p) if cen else cls(**p)
    mon.equal("repeatable", b(h2.satellite_occupation(m)), s, key=key + "|new")
    mon.equal("repeatable", {k: v for k, v in h.params.items() if k in full}, {**full, **({"M_min": h.params["M_min"]} if model == "Leauthaud11" else {})}, key=key + "|params")
