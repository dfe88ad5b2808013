"""Independent mass integrals: dense quadrature over hand-built occupation, interpolated mass function and bias.

Only the ingredients (dndm, halo_bias, m) are taken from the model; occupation comes from a
hand-built occupation object, and the integral is a dense trapezium with every threshold
mass resolved from both sides.
"""
from __future__ import annotations

import numpy as np
from scipy.interpolate import CubicSpline

DENSE = 24


def hod_by_hand(model, kw):
    import halomod.hod as H

    cls = kw.get("hod_model", "Zehavi05")
    cls = getattr(H, cls) if isinstance(cls, str) else cls
    return cls(cosmo=model.cosmo, cm_relation=model.tracer_concentration, profile=model.tracer_profile, mdef=model.mdef, **kw.get("hod_params", {}))


def edges_of(h):
    """Masses at which the occupation has a step (log10)."""
    p = h.params
    out = []
    name = type(h).__name__
    if "Zheng" in name or "Contreras" in name or "Geach" in name or "Leauthaud" in name:
        return out
    for k in ("M_min", "M_max", "M_min_counts", "M_max_counts"):
        if p.get(k) is not None:
            out.append(float(p[k]))
    return out


def kinks_of(h):
    return [float(h.params[k]) for k in ("M_0",) if h.params.get(k) is not None and type(h).__name__ in ("Zheng05",)]


class Ref:
    def __init__(self, model, kw, hod=None):
        m = np.array(model.m)
        self.m = m
        self.h = h = hod or hod_by_hand(model, kw)
        self.cell = np.log(m[1] / m[0])
        x = np.log(m)
        n = DENSE * (len(m) - 1) + 1
        g = np.linspace(x[0], x[-1], n)
        add = []
        for e in edges_of(h) + kinks_of(h):
            e = e * np.log(10)
            add += [e - 1e-9, e + 1e-9]
        self.x = np.unique(np.concatenate([g, [a for a in add if x[0] < a < x[-1]]]))
        self.M = np.exp(self.x)
        dn = np.array(model.dndm)
        pos = dn > 0
        self.dndm = np.zeros_like(self.M)
        inside = (self.x >= x[pos][0]) & (self.x <= x[pos][-1])
        self.dndm[inside] = np.exp(CubicSpline(x[pos], np.log(dn[pos]))(self.x[inside]))
        self.bias = CubicSpline(x, model.halo_bias)(self.x)
        self.sharp = bool(h.sharp_cut and (getattr(h, "_central", False) or h.central_condition_inherent))
        lo = h.mmin * np.log(10) if self.sharp else -np.inf
        self.keep = self.x > lo
        z = np.zeros_like(self.M)
        self.cen = np.where(self.keep, h.central_occupation(self.M) + z, 0)
        self.sat = np.where(self.keep, h.satellite_occupation(self.M) + z, 0)
        self.tot = self.cen + self.sat

    def integ(self, f):
        """Integral of f over the masses that host the tracer."""
        w = (f * self.M)[self.keep]
        return float(np.trapezoid(w, self.x[self.keep]))

    def integ_all(self, f):
        return float(np.trapezoid(f * self.M, self.x))

    def step_error(self, f):
        """What a spline through the unresolved steps may get wrong: jump times one mass cell (in log mass)."""
        w = np.abs(f) * self.M
        err = 0.0
        for e in edges_of(self.h):
            e *= np.log(10)
            if self.x[0] - self.cell <= e <= self.x[-1] + self.cell:
                if self.sharp and abs(e - self.h.mmin * np.log(10)) < 1e-9:
                    continue
                near = np.abs(self.x - e) < self.cell
                err += (w[near].max() if near.any() else 0.0) * self.cell
        if type(self.h).__name__ == "Tinker05":
            # satellites switch on within a cell above the threshold
            near = np.abs(self.x - self.h.mmin * np.log(10)) < 1.5 * self.cell
            err += (w[near].max() if near.any() else 0.0) * self.cell * 0.5
        return err


# -- Fourier transform by brute force ---------------------------------------------------
_X = np.concatenate([np.geomspace(1e-7, 0.05, 1500)[:-1], np.arange(0.05, 1400, 0.04)])


def transform(power, r, damp=350.0, scale=False):
    """xi(r) of a power spectrum: dense quadrature of sin(kr) k P(k), smoothed over r/damp."""
    out = []
    for rr in np.atleast_1d(r):
        x = _X
        p = np.asarray(power(x / rr), dtype=float)
        if scale:  # what the oscillating integral is a difference of
            out.append(np.trapezoid(x**2 / (1 + x) * np.abs(p) * np.exp(-((x / damp) ** 2)), x) / (2 * np.pi**2 * rr**3))
            continue
        out.append(np.trapezoid(x * p * np.sin(x) * np.exp(-((x / damp) ** 2)), x) / (2 * np.pi**2 * rr**3))
    return np.array(out)


class Halos(Ref):
    """As Ref, with pair counts and the profiles of haloes and tracers on the dense masses."""

    def __init__(self, model, kw, hod=None):
        super().__init__(model, kw, hod)
        self.model = model
        z = np.zeros_like(self.M)
        self.ss = np.where(self.keep, self.h.ss_pairs(self.M) + z, 0)
        self.cs = np.where(self.keep, self.h.cs_pairs(self.M) + z, 0)
        self.ch = np.asarray(model.halo_concentration.cm(self.M, model.z))
        self.ct = np.asarray(model.tracer_concentration.cm(self.M, model.z))
        self.n = self.integ(self.dndm * self.tot)
        self.rho0 = model.mean_density0

    def uh(self, k):
        return self.model.halo_profile.u(np.asarray(k), self.M, c=self.ch)

    def ut(self, k):
        return self.model.tracer_profile.u(np.asarray(k), self.M, c=self.ct)

    def above(self, f, mcut):
        """Integral of f over masses above mcut (a sharp limit anywhere)."""
        x, w = self.x, f * self.M
        if mcut is None or mcut <= self.M[0]:
            return float(np.trapezoid(w, x))
        lx = np.log(mcut)
        if lx >= x[-1]:
            return 0.0
        i = np.searchsorted(x, lx)
        xs = np.concatenate([[lx], x[i:]])
        ws = np.concatenate([[np.interp(lx, x, w)], w[i:]])
        return float(np.trapezoid(ws, xs))
