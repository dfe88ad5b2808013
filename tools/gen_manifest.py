#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims every property that has a check module, lists the others."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
T = {
 "C01": ("trace monitor: read values after random update/read histories vs freshly built models",
         "Random histories over sampled parameters; equality to rounding level against a fresh model."),
 "C02": ("aliasing monitor over interleaved live objects", "Fingerprints of bystander models, caller objects and class defaults around every operation."),
 "C03": ("purity monitor: digests of outputs and inputs around reads in random orders", "Bit-for-bit comparison over random read orders; input arrays digested."),
 "C04": ("online oracle: numerical quadrature of documented shapes", "Sampled profiles/masses/concentrations; tolerances are the stated numerical accuracy."),
 "C05": ("metamorphic online monitor", "Sampled coordinates, shapes, dtypes; exact up to rounding."),
 "C06": ("online oracle: hand-built components and overdensity identities", "Sampled cosmologies, mass definitions and redshifts; two known findings listed."),
 "C07": ("online oracle: published formulae re-evaluated independently", "Sampled parameters and masses, thresholds included."),
 "C08": ("online oracle: independent mass integrals", "Sampled models; mass-grid discretisation bounds the accuracy."),
 "C09": ("conservation monitor: delivered vs requested density over histories", "Sampled histories; relative accuracy of the root finder."),
 "C10": ("structural monitor over generated catalogues", "Every tracer of every generated catalogue is inspected."),
 "C11": ("statistical monitor over large generated catalogues", "z-score limits chosen for a false alarm below 1e-6 per run; fixed seed reproduces."),
 "C12": ("online oracle: published formulae re-evaluated independently", "Sampled peak heights, redshifts, cosmologies and parameters."),
 "C13": ("online oracle: published formulae and defining equations", "Sampled masses, redshifts, cosmologies and parameters."),
 "C14": ("online oracle: direct double integral over halo pairs", "Sampled small grids; discretisation error bounds the accuracy."),
 "C15": ("conservation monitor: totals vs parts, large-scale limit", "Sampled models."),
 "C16": ("online oracle: closed forms and dense quadrature", "Sampled transform pairs; stated integrator accuracy."),
 "C17": ("online oracle: independent mass integrals and limits", "Sampled models."),
 "C18": ("online oracle: independent mass integrals", "Sampled models."),
 "C19": ("metamorphic monitor and independent mass integrals", "Sampled pairs of models."),
 "C20": ("online oracle: analytic functions inside, requested behaviour outside", "Sampled splines, dtypes and orders."),
 "C21": ("online oracle: analytic integrals", "Sampled integrands, grids and limits."),
 "C22": ("online oracle: adaptive line-of-sight quadrature", "Sampled models; 1% measured grid accuracy."),
 "C23": ("online oracle: independent Limber quadrature and closed forms", "Sampled selections and power laws."),
 "C24": ("online oracle: documented WDM decomposition and cold limit", "Sampled particle masses and cosmologies."),
 "C25": ("differential monitor: CLI and functional outputs vs Python model", "Real CLI runs in scratch directories."),
 "C26": ("negative-input monitor", "Enumerated invalid settings for every model class; state compared after each rejection."),
 "C27": ("sanity monitor over the component zoo", "Every registered component at least once, random combinations beyond."),
 "C28": ("metamorphic monitor: outputs on different grids", "Sampled grids and models."),
 "C29": ("online oracle: transforms and scalings of the tabulated spectra", "Sampled cosmologies and redshifts."),
}
checks, na = [], []
for line in open(V / "properties.jsonl"):
    d = json.loads(line)
    i = d["id"]
    if (V / "vmon" / "checks" / f"{i.lower()}.py").exists():
        t, note = T[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i} --tier quick", thorough_cmd=f"./check {i} --tier thorough",
                           technique="runtime monitoring: " + t, level="exploration",
                           level_note=note + " Real code runs unmodified; the verdict covers only the executions observed "
                           "(counts in the evidence file). Trusts numpy, scipy, hmf, colossus, astropy."))
    else:
        na.append(dict(property=i, reason="No check built yet; not claimed."))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="No hooks in /repo: all monitors observe public API values. See DESIGN.md.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed;", [x["property"] for x in na])
