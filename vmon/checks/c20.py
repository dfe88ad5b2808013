"""C20: ExtendedSpline interpolates inside its data and extrapolates as asked outside."""
from __future__ import annotations

import warnings

import numpy as np
from scipy.interpolate import CubicSpline

PROPERTY = "C20"
RULE = ("Random smooth functions tabulated on random grids x every extension option on each side x spline order x "
        "matching x data sign/dtype; the real ExtendedSpline is evaluated on scalars, integers, shuffled, nested and "
        "empty arrays and compared with the closed form of the function and of the requested extension.")
REQUIRED = ["knots", "inside", "lower", "upper", "scalar-equals-array", "order-and-shape", "integers", "domain", "input-unchanged"]

FUNCS = {
    "poly": (lambda x: 1 + 0.5 * x - 0.03 * x**2 + 0.001 * x**3, "any"),
    "exp": (lambda x: 3 * np.exp(-x / 7), "pos"),
    "gauss": (lambda x: np.exp(-((x - 5) ** 2) / 30) + 0.2, "pos"),
    "wave": (lambda x: np.sin(x / 2.5) + 0.1, "mixed"),
    "rational": (lambda x: 2.0 / (1 + 0.1 * x**2), "pos"),
    "neg": (lambda x: -5 * np.exp(-x / 9) - 0.1, "neg"),
    "pow": (lambda x: 4.0 * x**-1.7, "pos"),
    "negpow": (lambda x: -4.0 * x**-0.7, "neg"),
}
EXT = ["func", "func-nomatch", "power_law", "boundary", None, "zero"]


def _ext_fn(kind, side):
    if side == "lower":
        return lambda x: (np.asarray(x, dtype=float) ** 1.3 + 0.5) if not np.isscalar(x) else x**1.3 + 0.5
    return lambda x: np.exp(-np.asarray(x, dtype=float) / 4) if not np.isscalar(x) else float(np.exp(-x / 4))


def cases(rng, tier):
    out = []
    n = 1600 if tier == "quick" else 6000
    for _ in range(n):
        out.append(dict(kind="ext", fn=str(rng.choice(list(FUNCS))), lo=EXT[rng.integers(len(EXT))], hi=EXT[rng.integers(len(EXT))],
                        grid=str(rng.choice(["lin", "log", "random"])), n=int(rng.choice([30, 60, 150])), k=int(rng.choice([3, 3, 3, 1, 2, 5])),
                        pln=int(rng.choice([2, 5, 10, 15])), plu=int(rng.choice([2, 5, 10, 15])),
                        intdata=bool(rng.random() < 0.1), amp=float(10 ** rng.uniform(-14, 10)) if rng.random() < 0.35 else 1.0,
                        famp=float(10 ** rng.uniform(-14, 10)) if rng.random() < 0.25 else 1.0))
    return out


def run(case, mon):
    from halomod.tools import ExtendedSpline

    rng = np.random.default_rng(case["seed"])
    f0, sign = FUNCS[case["fn"]]
    f = f0 if case.get("amp", 1) == 1 else (lambda t: case["amp"] * f0(t))
    fa = case.get("famp", 1.0)

    def ext_fn(kind, side):
        e = _ext_fn(kind, side)
        return e if fa == 1 else (lambda t: fa * e(t))

    a, b = rng.uniform(0.6, 2.0), rng.uniform(12, 20)
    n = case["n"]
    if case["grid"] == "lin":
        x = np.linspace(a, b, n)
    elif case["grid"] == "log":
        x = np.geomspace(a, b, n)
    else:
        x = np.linspace(a, b, n)
        x[1:-1] += rng.uniform(-0.3, 0.3, n - 2) * (b - a) / n
    if case["intdata"]:
        x = np.arange(1, 31)
        y = (x**2 + 3).astype(int)
        f = lambda t: np.asarray(t, dtype=float) ** 2 + 3
        sign = "pos"
        a, b = 1.0, 30.0
    else:
        y = f(x)
    k = case["k"]
    if case["intdata"]:
        k = max(k, 2)
    kw = {}
    for side, kind, p in (("lower", case["lo"], case["pln"]), ("upper", case["hi"], case["plu"])):
        if kind in ("func", "func-nomatch"):
            kw[f"{side}_func"] = ext_fn(kind, side)
            kw[f"match_{side}"] = kind == "func"
        elif kind == "zero":
            kw[f"{side}_func"] = lambda t: np.zeros_like(t, dtype=float) if not np.isscalar(t) else 0.0
        else:
            kw[f"{side}_func"] = kind
        kw[f"{side}_power_law_n"] = p
    x0, y0 = x.copy(), y.copy()
    key = "spline"
    warnings.simplefilter("ignore")
    es = ExtendedSpline(x, y, k=k, **kw)
    sc = np.max(np.abs(y))
    mon.close("knots", es(x), y, rtol=1e-9, atol=1e-12 * sc, key=key)
    t = np.sort(rng.uniform(a, b, 15))
    h = np.max(np.diff(x)) / 2.5
    tol = {1: 0.6 * h**2, 2: 0.8 * h**3, 3: 1.0 * h**4, 5: 3 * h**6}[k] * sc * (8 if "pow" in case["fn"] else 1.5) + 1e-9 * sc
    if k == 3:  # interpolation error of these data, from an independent spline
        tol = tol * 0.01 + 2 * np.max(np.abs(CubicSpline(x, y)(t) - f(t))) + 1e-9 * sc
    if "pow" not in case["fn"] or k == 3:
        mon.close("inside", es(t), f(t), atol=max(tol, 1e-9 * min(sc, 1)), key=f"{key}|k={k}|{case['fn']}")
    # piecewise linear data between two knots must be between/near them for k=1: exact
    if k == 1:
        mon.close("inside", es(t), np.interp(t, x, y), rtol=1e-9, atol=1e-12 * sc, key="linear")

    lo_t = np.sort(rng.uniform(0.05, 0.98, 6)) * a
    hi_t = np.sort(rng.uniform(1.02, 6, 6)) * b
    if rng.random() < 0.5 and None not in (case["lo"], case["hi"]):  # very far out
        lo_t[0], hi_t[-1] = a * 10 ** rng.uniform(-6, -1.5), b * 10 ** rng.uniform(1, 5)
    for side, kind, tt, edge, ye, nn in (("lower", case["lo"], lo_t, x[0], y[0], case["pln"]), ("upper", case["hi"], hi_t, x[-1], y[-1], case["plu"])):
        got = np.asarray(es(tt), dtype=float)
        kk = f"{side}|{kind}"
        if kind == "func":
            g = ext_fn(kind, side)
            mon.close(side, got, g(tt) * ye / g(float(edge)), rtol=1e-8, atol=1e-290, key=kk)
            near = edge * (1 - 1e-9 if side == "lower" else 1 + 1e-9)
            mon.close(side, es(np.array([near])), [ye], rtol=1e-6, key=kk + "|continuous")
        elif kind == "func-nomatch":
            mon.close(side, got, ext_fn(kind, side)(tt), rtol=1e-10, atol=1e-290, key=kk)
        elif kind == "boundary":
            mon.close(side, got, np.full(len(tt), ye, dtype=float), rtol=1e-8, atol=1e-12 * sc, key=kk)
        elif kind == "zero":
            mon.check(side, np.all(got == 0), key=kk, msg=str(got))
        elif kind is None:
            if case["fn"] == "poly" and k >= 3 or case["intdata"]:
                mon.close(side, got, f(tt), rtol=1e-3, atol=1e-6 * sc * (tt[-1] / b) ** 6, key=kk)
            else:
                near = edge * (1 - 1e-7 if side == "lower" else 1 + 1e-7)
                mon.close(side, es(np.array([near])), [ye], rtol=1e-4, atol=1e-5 * sc, key=kk + "|continuous")
        elif kind == "power_law":
            xs, ys = (x[:nn], y[:nn]) if side == "lower" else (x[-nn:], y[-nn:])
            if np.all(ys > 0) or np.all(ys < 0):
                s = np.sign(ys[0])
                lx, ly = np.log(xs), np.log(np.abs(ys))
                c1, c0 = np.polyfit(lx, ly, 1)
                if np.sum((ly - c0 - c1 * lx) ** 2) > 0.5 * nn:
                    continue  # (data no power law could describe)
                mon.close(side, got, s * np.exp(c0 + c1 * np.log(tt)), rtol=1e-6, key=kk)
                if case["fn"] in ("pow", "negpow") and not case["intdata"]:
                    mon.close(side, got, f(tt), rtol=1e-7, key=kk + "|exact")
            else:
                mon.check(side, np.all(got == 0), key=kk + "|mixed-sign", msg=str(got))

    # the same value however it is asked for
    q = np.concatenate([lo_t[:3], t[:4], hi_t[:3], x[[0, -1]].astype(float)])
    base = np.asarray(es(q), dtype=float)
    for i in range(len(q)):
        mon.close("scalar-equals-array", float(es(float(q[i]))), base[i], rtol=1e-12, atol=1e-300, key=key)
    p = rng.permutation(len(q))
    mon.close("order-and-shape", es(q[p]), base[p], rtol=1e-12, key="shuffled")
    mon.close("order-and-shape", es(q.reshape(3, 4)), base.reshape(3, 4), rtol=1e-12, key="2d")
    mon.close("order-and-shape", es(list(q)), base, rtol=1e-12, key="list")
    mon.close("order-and-shape", es(q[:1]), base[:1], rtol=1e-12, key="single")
    mon.check("order-and-shape", np.asarray(es(np.array([]))).shape == (0,), key="empty")
    mon.close("order-and-shape", es(np.array(q[4])), base[4], rtol=1e-12, key="0d")
    # many points at once
    big = rng.permutation(np.concatenate([rng.uniform(0.3 * a, a, 400), rng.uniform(a, b, 1500), rng.uniform(b, 2 * b, 400)]))
    vb = np.asarray(es(big), dtype=float)
    for i in rng.integers(0, len(big), 12):
        mon.close("order-and-shape", float(es(float(big[i]))), vb[i], rtol=1e-12, atol=1e-300, key="many")
    qi = np.array([3, 1, 40, 7, 100, 12])
    bi = np.asarray(es(qi.astype(float)), dtype=float)
    mon.close("integers", es(qi), bi, rtol=1e-12, key="array")
    mon.close("integers", es(qi.tolist()), bi, rtol=1e-12, key="list")
    for v, w in zip(qi, bi):
        mon.close("integers", float(es(int(v))), w, rtol=1e-12, key="scalar")
    mon.close("integers", es(q.astype(np.float32)), np.asarray(es(q.astype(np.float32).astype(float))), rtol=1e-4, atol=1e-6 * sc, key="float32")

    mon.raises("domain", lambda: ExtendedSpline(x, y, domain=(a * 1.1, np.inf)), exc=ValueError, key="lower")
    mon.raises("domain", lambda: ExtendedSpline(x, y, domain=(0, b * 0.9)), exc=ValueError, key="upper")
    with mon.guard("domain", key="accepted"):
        ExtendedSpline(x, y, domain=(x[0], x[-1]))
        mon.observe("domain", "accepted")
    mon.raises("domain", lambda: ExtendedSpline(x, y, lower_func="nonsense"), key="bad-option")
    mon.check("input-unchanged", np.array_equal(x, x0) and np.array_equal(y, y0), key=key)
