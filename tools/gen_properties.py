#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, pathlib
S = "src/halomod/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=n, where=S + w) for n, w in mech],
                          observe_at=observe or [], hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=S + w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "Any history of updates and reads gives what a freshly built model gives",
 "For every model class, after any sequence of parameter updates interleaved with reads of output quantities, every quantity read next equals the one read from a model newly constructed with the resulting parameters. This holds for every parameter: switching component models, changing their parameter dictionaries (merged key by key), cosmology, redshift, grids, options and the requested tracer density. An update that is later undone restores the original outputs.",
 ["histories", "configurations"], "all sequences of updates and reads over all parameters of the tracer, dark-matter, projected, angular, cross-correlation and warm-dark-matter models",
 "Cache invalidation depends on which quantities were read before which update; tests build a model and change at most one parameter in a fixed order.",
 ["halo_model.py", "integrate_corr.py", "cross_correlations.py", "wdm.py"],
 [("parameter/cached_quantity declarations of the frameworks", "halo_model.py"), ("update() and tracer density handling", "halo_model.py:TracerHaloModel.update"), ("projected/angular parameters", "integrate_corr.py"), ("cross-model parameters", "cross_correlations.py:CrossCorrelations")],
 ["public attributes of the model objects"])

prop("C02", "Models never share or leak state",
 "Building, updating, reading, cloning, deep-copying or pickling one model never changes another model, any parameter dictionary or array the caller passed to a halomod component, or the default parameters of any component class. A clone, deep copy or unpickled model gives exactly the outputs of the model it was made from and is thereafter independent of it.",
 ["histories", "configurations"], "all interleavings of construct/update/read/clone/pickle over several models alive at once, including models that were given the same parameter objects",
 "Needs several live objects and an interleaving of operations on them; every test uses one model at a time.",
 ["halo_model.py", "wdm.py", "concentration.py", "cross_correlations.py"],
 [("param-dictionary setters", "halo_model.py"), ("component class defaults", "wdm.py:CMRelationWDMRescaled"), ("cross model sub-models", "cross_correlations.py:CrossCorrelations")],
 ["public attributes; caller-owned dicts; Component class defaults"])

prop("C03", "Reading is pure: order, repetition and evaluation points do not matter",
 "Reading any output or evaluating any returned function never changes what any other read returns, whatever the order and number of reads, and the result is bit-for-bit repeatable. Component methods and numerical helpers never modify the arrays they are given.",
 ["histories", "inputs"], "all orders and repetitions of reads of all outputs, and all component/tool calls with caller-owned arrays",
 "Tests read quantities once in one order; aliasing and in-place arithmetic only show on a second read.",
 ["halo_model.py", "profiles.py", "hod.py", "halo_exclusion.py", "tools.py", "bias.py"],
 [("cached quantities derived from shared arrays", "halo_model.py"), ("in-place arithmetic in component methods", "profiles.py"), ("exclusion integrals", "halo_exclusion.py")],
 ["public attributes", "component methods"])

prop("C04", "Halo profiles: density, Fourier transform, CDF and self-convolution agree",
 "For every density profile, mass and concentration, the mass-normalised density integrates to one over the halo, the unnormalised one (a physical density on comoving radii) to the halo mass times the growth of the mean density, the Fourier profile equals the numerical Fourier transform of that density within its numerical accuracy (tending to one at small wavenumber for truncated profiles), the cumulative fraction equals its enclosed mass fraction and rises from zero to one at the halo boundary, and the self-convolution equals the numerical self-convolution. Truncated profiles vanish beyond the halo radius; the shape is the profile's documented formula.",
 ["inputs", "configurations"], "all profile classes and their shape parameters, all masses, concentrations, redshifts, wavenumbers and radii",
 "Closed forms have many branches (truncation, x<c, c<x<2c, parameter-dependent special cases); tests check a handful of points for internal shape agreement.",
 ["profiles.py"],
 [("closed-form and numerical h/p/l functions", "profiles.py"), ("normalisation", "profiles.py:Profile._rho_s")],
 ["Profile.rho/u/cdf/lam"])

prop("C05", "Profile results do not depend on how coordinates or arrays are passed",
 "Evaluating a profile quantity with scalars, vectors or grids of radii, wavenumbers, masses and concentrations gives the pointwise results, with the lengths of the inputs kept and the results arranged with radius/wavenumber along the first axis and mass along the second. Physical, scale-radius and virial-radius coordinates describe the same halo, the different normalisations differ exactly by the halo mass or mean density, and an explicit concentration equal to the default one changes nothing.",
 ["inputs"], "all combinations of scalar/array r, k, m, c, all coordinate systems and normalisations, all profiles",
 "Shape handling is input-dependent broadcasting code; tests cover NFW and few shapes.",
 ["profiles.py"],
 [("coordinate handling", "profiles.py:Profile._get_r_variables"), ("wavenumber handling", "profiles.py:Profile._get_k_variables"), ("shape reduction", "profiles.py:Profile._reduce")],
 ["Profile.rho/u/cdf/lam"])

prop("C06", "Halo sizes follow the model's own mass definition, cosmology and redshift",
 "Mass-to-radius and radius-to-mass conversions are inverse and a halo encloses exactly the overdensity of the chosen mass definition times the mean matter density of the cosmology in use. Every component inside a model (profiles, concentration, bias, occupation) uses that model's own cosmology, mass definition, redshift and mass grid, so it equals the same component built by hand from those values.",
 ["configurations", "inputs"], "all cosmologies, redshifts, mass definitions, masses and component choices",
 "Tests use the default cosmology and redshift zero, where a component that ignores either looks right.",
 ["halo_model.py", "profiles.py", "bias.py", "concentration.py"],
 [("component construction", "halo_model.py"), ("geometry", "profiles.py:Profile.halo_mass_to_radius")],
 ["model.halo_profile, model.bias, model.halo_concentration, model.hod and their outputs"])

prop("C07", "Halo occupation follows the published laws for every model and mass",
 "For every occupation model, mean central and satellite numbers at each mass equal the model's published formula, are non-negative, and do not depend on which other masses are in the array; the total is their sum and the threshold, cut-off and maximum-mass parameters act at exactly those masses. With the central condition enforced satellites are weighted by the chance of having a central (unless the model already includes it) and central-satellite pairs equal the mean satellites, otherwise the product of means; satellite pairs are the square of the mean; marked models are the unmarked ones scaled by the mark.",
 ["inputs", "configurations"], "all occupation models, parameters, masses and the central-condition switch",
 "Tests check a few default models at default masses; edges and parameter combinations are unbounded.",
 ["hod.py"],
 [("occupation functions", "hod.py"), ("central condition", "hod.py:HOD.satellite_occupation"), ("pair counts", "hod.py:HODPoisson")],
 ["HOD.central_occupation/satellite_occupation/total_occupation/ss_pairs/cs_pairs/mmin"])

prop("C08", "Tracer summary numbers are the occupation-weighted mass integrals",
 "Mean tracer density, effective bias, effective mass and satellite and central fractions equal the corresponding integrals of mass function, occupation and halo bias over the halo masses that host the tracer, including sharp mass cut-offs that fall between grid points. Fractions lie in [0,1] and sum to one, the effective mass and bias lie within the range of those of the hosts, and density-normalised quantities do not change when the occupation is multiplied by a constant.",
 ["inputs", "configurations"], "all occupation models and parameters, mass functions, bias models, redshifts and mass grids",
 "Existing regression data are empty arrays; the sharp-cut branch depends on where the cut falls in the mass grid.",
 ["halo_model.py", "tools.py", "hod.py"],
 [("tracer integrals", "halo_model.py:TracerHaloModel"), ("cut-off handling", "halo_model.py:TracerHaloModel.tracer_mmin"), ("spline integration", "tools.py:spline_integral")],
 ["mean_tracer_den, bias_effective_tracer, mass_effective, satellite_fraction, central_fraction"])

prop("C09", "A requested tracer density is what the model delivers",
 "When a tracer density is requested, at construction or in an update, the minimum-mass parameter is set so that the integrated mean tracer density equals the request, and stays so after later updates of anything else until a minimum mass is given explicitly. A density that cannot be reached is rejected with an error. Requesting the density produced by a given minimum mass recovers that minimum mass.",
 ["histories", "inputs"], "all attainable densities, occupation models, cosmologies, redshifts and update sequences",
 "Needs a search over densities and histories; tests use one value and one model.",
 ["halo_model.py"],
 [("minimum-mass solver", "halo_model.py:TracerHaloModel._find_m_min"), ("update handling", "halo_model.py:TracerHaloModel.update")],
 ["tracer_density, mean_tracer_den, hod_params"])

prop("C10", "Mock catalogues are structurally consistent with their haloes",
 "For any halo catalogue, generated tracers are listed as centrals first then satellites, each carries the index of a real halo, each halo has at most one central which sits exactly at its centre, satellites lie within the radius of their halo, and all positions lie inside the periodic box when a box size is given. The numbers of centrals and satellites reported match the lists returned, no halo outside the occupied mass range gets tracers, with the central condition no satellite appears without a central, and the same random seed gives the same catalogue.",
 ["inputs"], "all halo lists (any order, any number, empty outcomes), boxes, occupation models, profiles and seeds",
 "One test with one catalogue; consistency must hold per object for every random draw.",
 ["tools.py", "profiles.py"],
 [("catalogue generator", "tools.py:populate"), ("in-halo placement", "profiles.py:Profile.populate")],
 ["tools.populate return values", "Profile.populate"])

prop("C11", "Mock catalogues have the statistics of the occupation and profile",
 "Over many haloes, the fraction of haloes with a central and the mean and Poisson variance of the satellite numbers agree with the occupation model at each mass, also when the central condition is enforced. Satellite radii follow the mass profile's cumulative distribution and their directions are isotropic.",
 ["inputs"], "all occupation models, masses, profiles and concentrations (statistical, over seeds)",
 "Requires hypothesis tests on large samples; no existing test looks at the distribution.",
 ["tools.py", "profiles.py", "hod.py"],
 [("catalogue generator", "tools.py:populate"), ("inverse-CDF sampling", "profiles.py:Profile.populate")],
 ["tools.populate return values", "Profile.populate"])

prop("C12", "Halo bias follows the published relations at every mass, redshift and cosmology",
 "Each bias model returns, for every peak height and parameter choice, the value of its published formula, evaluated elementwise and at the redshift and cosmology of the model; bias is finite, and increases with mass for massive haloes. The models derived by the peak-background split (Mo-White, Sheth-Tormen and Manera forms, Tinker10PBSplit) satisfy the consistency relation with the mass function of the same parameters, so the mass-weighted mean bias over all haloes is one. Scale-dependent bias equals its published function of the correlation function.",
 ["inputs", "configurations"], "all bias models, parameters, peak heights, redshifts, overdensities and cosmologies",
 "Tests compare a few models for ordering only; each formula has its own coefficients and branches.",
 ["bias.py", "halo_model.py"],
 [("bias formulas", "bias.py"), ("bias construction in the model", "halo_model.py:DMHaloModel.bias")],
 ["Bias.bias(), model.halo_bias, ScaleDepBias.bias_scale()"])

prop("C13", "Concentration relations follow their definitions",
 "Each concentration-mass relation gives, for every mass, redshift and parameter choice, its published formula or the solution of its defining equation, pointwise in mass, positive and finite, and non-increasing with mass over the calibrated range. The normalisation parameter scales it, a relation wrapped from an external library equals that library's value in the same cosmology, and an interpolated relation agrees with the relation it interpolates.",
 ["inputs", "configurations"], "all relations, masses, redshifts, cosmologies and parameters",
 "Tests check sign and a few default values.",
 ["concentration.py"],
 [("relations", "concentration.py"), ("external wrapper", "concentration.py:make_colossus_cm"), ("interpolation wrapper", "concentration.py:interp_concentration")],
 ["CMRelation.cm, model.cmz_relation"])

prop("C14", "Halo exclusion integrals are right and lead back to no exclusion at large scale",
 "For every exclusion model, the pair integral at each scale and wavenumber equals the direct double integral over halo pairs with the model's exclusion probability, the excluded density never exceeds the full one and the integral tends to the unexcluded value on scales larger than any halo and never exceeds it for positive integrands. The accelerated variants equal their reference versions, including with a lower mass limit and with scale-dependent bias.",
 ["inputs", "configurations"], "all mass grids, densities, profiles, biases (scale-dependent or not), separations and mass limits",
 "Tests compare pure and compiled versions on one model; the double integral itself is never evaluated independently.",
 ["halo_exclusion.py", "halo_model.py"],
 [("exclusion integrals", "halo_exclusion.py"), ("use in 2-halo term", "halo_model.py:DMHaloModel._get_power_2h_primitive")],
 ["Exclusion.integrate, Exclusion.density_mod, model.corr_2h_auto_tracer"])

prop("C15", "Totals are the sum of their 1-halo and 2-halo parts and vanish at large r",
 "Every total power spectrum equals its 1-halo plus 2-halo part, and the 1-halo part its central-satellite plus satellite-satellite part, on any wavenumbers; the same holds for correlation functions up to the documented constant of the pair-count convention. Total correlation functions approach the 2-halo (linear) correlation on scales larger than any halo, never a spurious constant, for every profile and occupation choice, and quantities at the model's grid equal the corresponding callable there.",
 ["configurations", "inputs"], "all profiles (with and without analytic self-convolution), occupation models, central-condition settings, and evaluation points",
 "Different code branches per profile and occupation; tests only look at one branch.",
 ["halo_model.py", "cross_correlations.py", "tools.py"],
 [("sum callables", "halo_model.py"), ("cross totals", "cross_correlations.py:CrossCorrelations"), ("sum helper", "tools.py")],
 ["power_auto_*, corr_auto_*, power_cross_*, corr_cross_* and their 1h/2h parts"])

prop("C16", "Power spectrum and correlation function transforms are accurate inverses",
 "The transforms between power spectrum and correlation function agree with known analytic pairs and with independent numerical quadrature within their stated accuracy, are linear in the input, respect rescaling of lengths, and applying both directions recovers the input. The result at one point does not depend on which other points are requested, nor on the array's type or shape.",
 ["inputs"], "all smooth spectra of cosmological shape (power laws with cut-offs, Lorentzians, Gaussians, linear power), all scales in range",
 "Oscillatory quadrature errors appear only for particular slopes and scales; tests use one spectrum.",
 ["tools.py"],
 [("Hankel transforms", "tools.py:hankel_transform"), ("direct integration", "tools.py:power_to_corr"), ("inverse", "tools.py:corr_to_power_ogata")],
 ["tools functions, corr_linear_mm"])

prop("C17", "2-halo terms: bias-weighted halo-centre power with correct large-scale limit",
 "Without exclusion, each 2-halo power spectrum equals the halo-centre spectrum times the square (or product) of the profile-weighted mean bias, and at small wavenumber tends to the squared effective bias times the linear spectrum; matter is unbiased with respect to itself when unity is enforced and carries the computed mean bias otherwise. The selected halo-centre spectrum (linear, nonlinear or filtered at the documented scale) is the one used, the halo-halo power in a mass range scales with the mean bias in it, and the 2-halo correlation is the transform of the 2-halo power.",
 ["configurations", "inputs"], "all bias models, mass functions, profiles, occupation models, redshifts and halo-centre spectra",
 "The limit has to hold for every combination; regression data are empty.",
 ["halo_model.py"],
 [("2-halo terms", "halo_model.py:DMHaloModel._get_power_2h_primitive"), ("halo-centre spectrum", "halo_model.py:DMHaloModel._power_halo_centres_fnc"), ("matter bias", "halo_model.py:DMHaloModel.bias_effective_matter")],
 ["power_2h_*, corr_2h_*, power_hh, bias_effective_*, *_fnc spectra"])

prop("C18", "1-halo terms equal the integral over haloes of pairs and profiles",
 "Every 1-halo power spectrum and correlation function (matter, tracer central-satellite, satellite-satellite and total, tracer-matter) equals the mass integral of mass function, pair counts and halo profile, normalised by the squared mean density. They are non-negative, the correlation is the transform of the power, and the large-scale turnover option only removes power on scales larger than haloes, from the smallest haloes first, and otherwise changes nothing.",
 ["configurations", "inputs"], "all profiles, occupation models, central-condition settings, mass functions, redshifts, wavenumbers and the turnover option",
 "Branches depend on the profile having a closed self-convolution and on sharp cut-offs; regression data are empty.",
 ["halo_model.py", "tools.py"],
 [("1-halo integrals", "halo_model.py:DMHaloModel._do_1halo_integral"), ("tracer 1-halo terms", "halo_model.py:TracerHaloModel")],
 ["power_1h_*, corr_1h_*"])

prop("C19", "Cross-correlations are symmetric and reduce to auto-correlations",
 "Cross-correlating two models gives the same result when the two are swapped, equals the auto-correlation pair terms when both are the same and fully correlated, and its 1-halo and 2-halo terms equal the mass integrals over the two occupations and profiles with the chosen correlation between their central and satellite numbers. Updating either model's parameters through the cross model affects only that side.",
 ["configurations", "histories"], "all pairs of tracer models, correlation coefficients, and updates",
 "One test builds one pair; symmetry and pair formulas are never checked.",
 ["cross_correlations.py"],
 [("cross terms", "cross_correlations.py:CrossCorrelations"), ("pair models", "cross_correlations.py:ConstantCorr")],
 ["power_1h_cross, power_2h_cross, corr_1h_cross, corr_2h_cross, power_cross, corr_cross"])

prop("C20", "Extended splines interpolate inside and extrapolate as asked outside",
 "An extended spline reproduces its data at the knots and a smooth function between them, and outside the data follows exactly the requested behaviour on each side: the given function, rescaled to be continuous when matching is requested, the power law fitted to the outermost data, a constant boundary value, or zero. This holds for any numeric type, sign and order-independent array of evaluation points, point by point, and data outside an explicitly declared domain are rejected.",
 ["inputs"], "all data sets, extrapolation choices, domains and evaluation points",
 "Edge behaviour depends on data sign, types and mixtures of points; tests sample a few.",
 ["tools.py"],
 [("extended spline", "tools.py:ExtendedSpline")],
 ["ExtendedSpline.__call__"])

prop("C21", "Mass integrals are accurate wherever the limits fall on the grid",
 "The spline-based integral of tabulated data equals the integral of the underlying smooth function between any lower and upper limits, including limits between grid points, for linear and logarithmic integration; it is additive over adjacent ranges, linear in the integrand, and changes continuously as a limit moves.",
 ["inputs"], "all grids, smooth integrands, and limits inside the range",
 "Errors appear only when a limit falls at special positions relative to the grid.",
 ["tools.py"],
 [("spline integral", "tools.py:spline_integral")],
 ["tools.spline_integral"])

prop("C22", "Projected correlation is the line-of-sight integral of the 3-D correlation",
 "The projected correlation function equals twice the line-of-sight integral of the model's real-space correlation function out to the chosen maximum separation, for any projected separations and sufficiently resolved grid, and tends to the known power-law result for a power-law correlation. It is unaffected by the choice of output grid.",
 ["inputs", "configurations"], "all models, separations, line-of-sight limits and power-law slopes",
 "One regression number; analytic and quadrature identities are not checked.",
 ["integrate_corr.py"],
 [("projection", "integrate_corr.py:projected_corr_gal"), ("projected model", "integrate_corr.py:ProjectedCF")],
 ["ProjectedCF.projected_corr_gal, projected_corr_gal()"])

prop("C23", "Angular correlation follows Limber's projection of the 3-D correlation",
 "The angular correlation function equals the integral of the real-space correlation over the two redshift selections for any normalised selection, angle grid and redshift range, following the model's current redshift limits and cosmology; the selection functions used are normalised. It is unaffected by the output angle grid, invariant when selections are exchanged, and agrees with the closed form for a power-law correlation.",
 ["inputs", "configurations"], "all selections, redshift ranges, angles, cosmologies and update sequences",
 "Tests compare one configuration with an approximate formula.",
 ["integrate_corr.py"],
 [("angular model", "integrate_corr.py:AngularCF"), ("Limber integral", "integrate_corr.py:angular_corr_gal")],
 ["AngularCF.angular_corr_gal, angular_corr_gal()"])

prop("C24", "Warm dark matter models reduce to cold ones and conserve matter",
 "For very heavy dark-matter particles every warm-dark-matter output tends to its cold counterpart. For any particle mass the matter is split into a halo fraction between zero and one and a smooth remainder, the total matter power is the documented mass-fraction weighted sum of halo-halo, halo-smooth and smooth-smooth parts, and the rescaled concentration equals the base relation times its documented suppression.",
 ["configurations", "inputs"], "all particle masses, redshifts, profiles and concentration relations",
 "Two smoke tests.",
 ["wdm.py"],
 [("WDM model", "wdm.py:HaloModelWDM"), ("WDM concentration", "wdm.py:CMRelationWDMRescaled")],
 ["HaloModelWDM outputs"])

prop("C25", "The command line, functional and object interfaces give the same results",
 "Running the command-line tool on a configuration writes, for each requested quantity, the values the Python model gives for the same parameters (array quantities), and the configuration written alongside reproduces them. Iterating over parameter combinations yields exactly the full set of combinations, each labelled with its own parameters and with the quantities of a fresh model built with them.",
 ["configurations", "inputs"], "all configurations and requested quantities; all parameter-combination lists",
 "One smoke test of the command line; the label/value pairing under in-place updates is not tested.",
 ["_cli.py", "functional.py"],
 [("command line", "_cli.py"), ("combination iterator", "functional.py:get_halomodel")],
 ["files written by `halomod run`", "functional.get_halomodel results"])

prop("C26", "Invalid settings are rejected and never silently accepted",
 "Unknown parameter names, unknown component names, unknown parameters of a component in use, wrong types, non-positive or inverted grids and out-of-range options raise an error at construction, at an update, or at the latest when an output depending on them is read, for every model class; they never silently produce that output. The same holds for the functions of the components (unknown normalisations, coordinates or extrapolations, points outside a spline's domain). A rejected request never leaves a model whose outputs are inconsistent with its reported parameters, and the model is usable again once valid parameters are given.",
 ["inputs", "fault_sequences"], "all unknown names and out-of-range values for every parameter, at construction and in updates",
 "Tests cover a few of the rejected inputs and never look at the model afterwards.",
 ["halo_model.py", "integrate_corr.py", "profiles.py", "hod.py"],
 [("parameter validation", "halo_model.py:DMHaloModel.validate"), ("component parameter checks", "halo_model.py")],
 ["constructor/update exceptions; parameters and outputs afterwards"])

prop("C27", "Every supported combination gives finite, correctly shaped, physical outputs",
 "For every combination of registered mass-function, bias, profile, concentration, occupation and exclusion models that the package accepts, all power spectra and correlation functions are finite, have the length of their output grid, power spectra are non-negative (to within the ringing of the internal transforms), satellite fractions lie in [0,1], and total correlation functions of smooth profiles and galaxy-like occupations exceed minus one. Component names resolve to the same models as the component classes.",
 ["configurations"], "all combinations of registered components, redshifts and options",
 "The combinatorial space is far beyond the tested few.",
 ["halo_model.py", "bias.py", "profiles.py", "hod.py", "concentration.py", "halo_exclusion.py"],
 [("framework", "halo_model.py:TracerHaloModel")],
 ["all public outputs"])

prop("C28", "Output grids only sample the answer and resolution only refines it",
 "Changing the grid on which correlation functions or power spectra are reported (range, number, spacing, or an explicit array) changes only where they are sampled (exactly the grid asked for), not the values at given scales. Refining internal mass, wavenumber or radius resolution changes outputs only within discretisation error.",
 ["configurations", "inputs"], "all output grids and internal resolutions",
 "Tests use one grid; a quantity accidentally tied to the output grid looks right there.",
 ["halo_model.py", "integrate_corr.py", "tools.py"],
 [("output grids", "halo_model.py:DMHaloModel.r"), ("internal tables", "halo_model.py:DMHaloModel._r_table")],
 ["r, k_hm, power_*, corr_*"])

prop("C29", "Linear and nonlinear matter statistics used by the halo model are consistent",
 "The model's linear and nonlinear power functions reproduce the tabulated spectra on the transfer grid and extrapolate as the primordial power law below it; the matter correlation functions are the transforms of exactly those spectra on all scales, including their dependence on redshift, amplitude and cosmology, where doubling the amplitude squared doubles the linear correlation.",
 ["configurations", "inputs"], "all cosmologies, redshifts, amplitudes, spectral indices and scales",
 "Tests check signs at default settings.",
 ["halo_model.py", "tools.py"],
 [("spectra as functions", "halo_model.py:DMHaloModel.linear_power_fnc"), ("matter correlation", "halo_model.py:DMHaloModel.corr_linear_mm_fnc")],
 ["linear_power_fnc, nonlinear_power_fnc, corr_linear_mm, corr_halofit_mm"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
