"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe_at=None, hook=False):
    anchors = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mechanism]}
    if state:
        anchors["state"] = [{"name": state, "meaning": "what the property is a function of", "where": files[0]}]
    anchors["observe_at"] = observe_at or []
    anchors["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=anchors))


SP, BL = "agnpy/spectra/spectra.py", "agnpy/emission_regions/blob.py"
TE, TU, TT = ("agnpy/time_evolution/time_evolution.py", "agnpy/time_evolution/_time_evolution_utils.py",
              "agnpy/time_evolution/types.py")

prop("C01", "Particle densities follow their documented shape within their range",
     "Every particle energy distribution (power law, broken power law, log-parabola, both exponential cut-off shapes, interpolated, empty) "
     "returns, for any Lorentz factor between its minimum and maximum (both included), the documented analytical density for its current parameters, and exactly zero outside. "
     "The value for one Lorentz factor does not depend on the container it is passed in: scalar, one-element, unsorted, integer-typed or multi-dimensional arrays all give the same densities. "
     "Only a first or last array element beyond a limit by less than one part in 1e10 counts as lying on that limit, and the array passed in is never modified.",
     ["inputs", "histories"],
     "all parameter values (including integers, equal or extreme indices, break/cut-off/pivot inside or outside the range), all Lorentz-factor arrays, after any sequence of parameter updates",
     "The tests evaluate a few parameter sets on one sorted float grid; they do not reach limits, one-element or integer arrays, breaks outside the range, nor check that the argument is left alone.",
     [SP], ["evaluate of each distribution, masking between the limits", "boundary-value correction", "log10 interpolation of tabulated densities"],
     "parameters of one distribution", ["return value of calling / evaluating a distribution"])

prop("C02", "Normalisation constructors and integrals deliver the requested total",
     "A distribution built from a total density, a total energy density, a total energy in a volume, or a density at Lorentz factor 1 has exactly that total (respectively that density) on the library's 200-point logarithmic integration grid, with the requested mass and shape parameters. "
     "Integrating a distribution over a sub-range and with any power of the Lorentz factor gives the quadrature of that power times the density on 200 logarithmically spaced points between the requested limits (its own limits by default). "
     "The constructor's shape parameters and the totals may be given in any equivalent units and for electrons or protons.",
     ["inputs", "configurations"],
     "all shapes x constructors x particle masses x requested totals x integration limits and powers",
     "The tests use one parameter set per shape and electrons in most cases; sub-range integrals and unit variants are sampled at a single point.",
     [SP], ["from_total_density / from_total_energy_density / from_total_energy / from_density_at_gamma_1", "integrate"],
     None, ["constructed distribution's parameters, its integrals"])

prop("C03", "Self-absorption integrand equals gamma^2 d/dgamma (n/gamma^2) for every shape",
     "For every particle distribution and every Lorentz factor inside its range, the self-absorption integrand equals gamma^2 times the derivative of n(gamma)/gamma^2 of that same distribution with its current parameters; outside the range it is zero. "
     "It scales linearly with the normalisation and is evaluated element by element.",
     ["inputs", "histories"],
     "all shapes, parameters and Lorentz factors, on both sides of a break or pivot, after any parameter updates",
     "The tests compare one parameter set per shape against a numerical derivative with a loose tolerance on a single grid.",
     [SP], ["evaluate_SSA_integrand of each distribution"], None, ["return value of the integrand"])

prop("C04", "Blob derived quantities always reflect its current parameters",
     "At every moment, every derived quantity of an emission region (volume, variability time, bulk velocity, viewing angle, Lorentz-factor grids, particle numbers, densities, energies, magnetic and synchrotron energy densities, equipartition ratio, jet powers) equals its defining formula evaluated on the parameters the region has at that moment. "
     "This holds after any sequence of parameter assignments, distribution replacements, in-place edits of the attached distributions and Doppler-factor updates from a viewing angle, and changing one region never changes another. "
     "The luminosity distance is the cosmological distance of the redshift (and cosmology) the region was created with.",
     ["histories", "inputs"],
     "all sequences of updates and observations on one or several regions, any units of length and magnetic field, electrons with or without protons",
     "The tests build a region and read each quantity once; they never interleave updates and observations, share distributions or edit a distribution after attaching it.",
     [BL, "agnpy/utils/conversion.py"], ["properties recomputed from the stored parameters", "set_delta_D"],
     "R_b, z, d_L, delta_D, Gamma, B, xi, n_e, n_p and grid sizes of each region", ["all public properties of a region"])

prop("C05", "Synchrotron spectra and self-absorption follow the current emission region",
     "The electron- and proton-synchrotron SED of a region at each frequency is the quadrature, over the region's Lorentz-factor grid and with the process's integration rule, of the documented single-particle power folded with the region's particle content, Doppler-boosted, redshifted and diluted with distance. "
     "With self-absorption enabled it is multiplied by the attenuation of the documented opacity, a factor in (0, 1] equal to 1 for an optical depth below 1e-3; the delta-approximation spectrum, peak frequency and electron energy-loss rate follow their formulas. "
     "All of this holds for the parameters at the time of the call, after any history of updates, for any frequency array.",
     ["inputs", "histories", "configurations"],
     "all regions, shapes, grids, integrators, self-absorption on/off, frequency arrays, and update histories",
     "The tests compare a handful of blobs with digitised reference figures within tens of percent; absorption, protons and updates are sampled once.",
     ["agnpy/synchrotron/synchrotron.py", "agnpy/synchrotron/proton_synchrotron.py", "agnpy/utils/conversion.py", "agnpy/utils/math.py"],
     ["evaluate_sed_flux, evaluate_tau_ssa, tau_to_attenuation, evaluate_sed_flux_delta_approx, electron_energy_loss_rate"],
     "blob parameters and process settings", ["sed_flux, evaluate_* and loss-rate return values"])

prop("C06", "Self-Compton spectra, photon densities and loss rates follow the current region",
     "The synchrotron self-Compton SED at each frequency is the double quadrature of the isotropic Compton kernel over the region's own synchrotron photon density (with the process's self-absorption setting and integration rule) and its electrons, boosted and diluted like the synchrotron SED. "
     "The electron cooling rate is the documented integral over that photon density with the Klein-Nishina correction for every Lorentz factor, and the Thomson-limit rate is proportional to the region's total synchrotron energy density. "
     "All of them use the parameters at the time of the call, after any history of updates.",
     ["inputs", "histories", "configurations"],
     "all regions, shapes, integrators, self-absorption settings, frequency and Lorentz-factor arrays, and update histories",
     "The tests compare a few blobs with digitised figures within tens of percent and never combine settings or update a region between calls.",
     ["agnpy/compton/synchrotron_self_compton.py", "agnpy/compton/kernels.py", BL],
     ["evaluate_sed_flux (SSC)", "electron_energy_loss_rate and its Thomson limit", "isotropic_kernel", "u_ph_synch_diff"],
     "blob parameters and process settings", ["sed_flux, loss rates, kernels"])

prop("C07", "External-Compton spectra follow the region, the target and the distance",
     "The external-Compton SED on each supported target (CMB, point source behind the jet, Shakura-Sunyaev disk, spherical broad-line region, ring torus) is, at each frequency, the quadrature over the electron and angle grids of the documented angle-dependent kernel for that target's photon field at the current distance. "
     "Every electron enters with the density at its Lorentz factor divided by the Doppler factor; below the kinematic threshold the contribution is zero, and the result is never negative. "
     "The generic SED of a process equals the SED of its own target's type and uses the parameters of region, target and distance at the time of the call.",
     ["inputs", "histories", "configurations"],
     "all targets, distances inside and outside the target, viewing angles, regions, shapes, grids and update histories",
     "The tests compare a few target/distance combinations with digitised figures within tens of percent.",
     ["agnpy/compton/external_compton.py", "agnpy/compton/kernels.py", "agnpy/utils/geometry.py"],
     ["evaluate_sed_flux_iso_mono / ps_behind_jet / ss_disk / blr / dt", "compton_kernel and its threshold", "dispatch on target type"],
     "blob, target, distance", ["sed_flux and evaluate_sed_flux_*"])

prop("C08", "Flux conversions, band integrals, luminosities and peaks agree with the SED",
     "For every radiative process, the differential photon flux is the SED divided by the photon energy squared, the luminosity SED is the SED times the sphere at the luminosity distance, and the peak flux and frequency are the maximum of the SED on the given grid and where it is reached. "
     "The band-integrated energy flux and photon flux are the trapezoidal integrals of the SED over frequency and of the differential flux over energy on the requested number of logarithmic points, with limits given in frequency, energy or wavelength.",
     ["inputs", "configurations"],
     "all processes and regions, frequency arrays in any spectral unit (any order), limits and numbers of points",
     "The tests check conversions for one synthetic process or one blob and one unit.",
     ["agnpy/radiative_process/core.py", "agnpy/synchrotron/synchrotron.py", "agnpy/synchrotron/proton_synchrotron.py",
      "agnpy/compton/synchrotron_self_compton.py", "agnpy/compton/external_compton.py"],
     ["diff_energy_flux, energy_flux_integral, flux_integral, sed_luminosity, sed_peak_flux, sed_peak_nu"], None,
     ["return values"])

prop("C09", "Evaluations are pure: no hidden state, no modified arguments, no shared objects",
     "Repeating any evaluation with the same parameters gives the same result whatever other calls and updates on whatever other objects happened in between. "
     "No evaluation modifies the arrays, quantities, dictionaries or objects passed to it, the region, distributions, targets or processes involved, or the library's default integration grids, and two objects created independently never share mutable state. "
     "The result for each frequency does not depend on the other frequencies in the array nor on the unit in which a parameter is expressed.",
     ["histories", "inputs"],
     "all interleavings of constructions, updates and evaluations over several regions, distributions, targets and processes",
     "Each test evaluates fresh objects once; hidden coupling only shows in sequences of calls or by inspecting arguments afterwards.",
     [SP, BL, "agnpy/synchrotron/synchrotron.py", "agnpy/compton/external_compton.py", "agnpy/utils/math.py", "agnpy/absorption/targets_absorption.py"],
     ["default grids shared by all processes", "default arguments", "boundary-value correction of Lorentz-factor arrays"],
     "module-level grids, object attributes", ["snapshots of all inputs, objects and grids around every call"])

prop("C10", "Photon targets: energy densities, characteristic energies and thermal spectra",
     "The energy density of each photon target, at any distance, in the galaxy frame and in the frame of a moving region, follows its documented formula, as do the redshift scaling of the CMB, the line energies, line radii and luminosity fractions derived from H-beta, the torus temperature-to-energy and sublimation-radius relations, and the disk's accretion rate, gravitational radius, radial energy and temperature profiles. "
     "The disk and torus thermal SEDs are the documented redshifted black-body integrals normalised to the disk (respectively reprocessed) luminosity, and scale linearly with it.",
     ["inputs", "configurations", "histories"],
     "all targets, lines, distances, viewing angles, regions, radii given in physical or gravitational units",
     "The tests check a few targets at a few distances and one disk SED against a figure.",
     ["agnpy/targets/targets.py"], ["u(r, blob) of each target", "SSDisk profiles and SEDs", "RingDustTorus SED", "line dictionary scalings"],
     "target parameters", ["public methods and attributes of the targets"])

prop("C11", "Gamma-gamma opacities on radiation fields follow the documented integrals",
     "The opacity for photon-photon pair production on each supported target (point source, disk, broad-line region, torus, and a region's own synchrotron photons) is at each frequency the quadrature of the pair-production cross section over the target photons along the photon path, for the source's redshift, distance and viewing angle, with the axis case and the inclined case each treated by its own formula. "
     "It is never negative and zero below the pair-production threshold; the attenuation is exp(-tau), and for emission produced inside the absorber (1-exp(-tau))/tau, both always between 0 and 1 and tending to 1 as the opacity vanishes. "
     "It uses the target and distance at the time of the call.",
     ["inputs", "histories", "configurations"],
     "all targets, distances inside/outside the target, viewing angles, redshifts, frequencies including far below threshold, grid sizes and update histories",
     "The tests compare a few opacities with figures within tens of percent, and the axis against the inclined case for one geometry.",
     ["agnpy/absorption/targets_absorption.py", "agnpy/utils/geometry.py"],
     ["sigma(s)", "tau_* evaluators and dispatch on target and viewing angle", "absorption, absorption_homogeneous", "nudging of the path near the shell"],
     "target, distance, viewing angle", ["tau, absorption, absorption_homogeneous"])

prop("C12", "EBL absorption is the tabulated model, interpolated and physical",
     "For each of the available extragalactic-background-light models, the absorption at a tabulated redshift and energy is the tabulated value, and in between it is the bilinear interpolation of the neighbouring tabulated values over energy and redshift (no number outside the table), one value per requested frequency in the requested order. "
     "The result is independent of the unit and order in which the frequencies are given and of previous evaluations, and an unknown model is refused.",
     ["inputs", "configurations"],
     "all models, redshifts and frequency arrays in and between tabulated nodes",
     "The tests compare two redshifts per model with a coarse tolerance.",
     ["agnpy/absorption/ebl_absorption.py"], ["table loading and interpolation"], None, ["EBL.absorption"])

prop("C13", "Spectral constraints follow the region's current parameters",
     "The maximum and break Lorentz factors from Larmor confinement, ballistic escape, synchrotron, self-Compton and external-Compton cooling equal their documented balance conditions for the region's and the torus's parameters at the time they are read. "
     "They keep their relations after any update: the ballistic limit is the acceleration coefficient times the Larmor limit, and each cooling limit equates acceleration with the cooling rate of that process.",
     ["inputs", "histories"],
     "all regions, acceleration coefficients, tori and distances, in any units and after any updates",
     "The tests evaluate each limit once at one parameter set, mostly with acceleration coefficient 1.",
     ["agnpy/constraints/spectral_constraints.py"], ["gamma_max_* and gamma_break_*"], "blob parameters", ["property values"])

prop("C14", "Time evolution accounts for time exactly and reports every step faithfully",
     "A time evolution over a given total time takes steps that are positive, never exceed the requested fixed step, and sum to exactly the total time; the number of fixed-length steps is the smallest that covers it. "
     "After every step the callback is called once with the elapsed time, Lorentz factors, densities, subgroup fractions and each family of rates under its own label, and the returned result describes the same final state as the last callback. "
     "After every step the region carries a distribution that takes exactly the reported density at every reported Lorentz factor with particles (an empty distribution if there are none).",
     ["histories", "configurations", "inputs"],
     "all step policies, methods, sets of energy-change and injection functions, bounds, initial arrays and total times",
     "The tests look at final distributions of a few runs; per-step reports, labels and step accounting are not compared.",
     [TE, TU, TT], ["eval_with_states-like loop in the evaluation", "result assembly", "update_distribution"],
     "elapsed time, bins, density, rates", ["callback arguments, returned result, blob.n_e after each step"])

prop("C15", "Each evolution step moves energies and densities by the documented update",
     "In one step every Lorentz factor moves by the total energy-change rate times the step, the density in its (narrow) bin scales inversely with the bin's change in width, and injections add the absolute rate and the relative rate times the density, times the step; the Heun method uses the average of the energy-change rates at the two ends of the step. "
     "Consequently particles in a bin are conserved when nothing is injected or escapes, and an empty set of processes leaves Lorentz factors and densities unchanged. "
     "A step that would make a Lorentz factor or a density negative raises an error instead of continuing.",
     ["histories", "inputs", "configurations"],
     "all rate functions (gains, losses, density-dependent), step lengths, methods and initial states",
     "The tests compare a few runs with analytical solutions within percents after many steps, where per-step errors cancel or hide.",
     [TE, TU], ["recalc_gamma_bins_and_density", "_apply_time_eval", "Heun averaging"],
     "bins (lower/upper), density, rates", ["successive callbacks and rate-function calls"])

prop("C16", "Bin management keeps a sorted, bounded, well-separated set of bins",
     "After every step the Lorentz factors are strictly increasing, coinciding bins are merged into one (geometric mean of the Lorentz factors), and, when a minimum separation is requested, interior bins closer than it are merged with the density interpolated at the merged point. "
     "When bounds are given, bins that leave the bounds are dropped, and an empty bin is added at a bound exactly when the outermost bin has crept away from it by the configured amount while moving inward; bins otherwise keep their identity, density and subgroup split.",
     ["histories", "configurations", "inputs"],
     "all histories of bin movements (crossing, collapsing, leaving, creeping), bounds, separations and creep thresholds",
     "The tests exercise merging helpers on fixed arrays and two evolution runs; combinations of merging, removal and addition in one step are not reached.",
     [TE, TU], ["_sort_and_merge_bins, _remove_gamma_beyond_bounds, _add_boundary_bins", "merge_points, combine_mapping, remap"],
     "bins, density, mappings", ["successive callbacks"])

prop("C17", "Subgroups evolve by their own processes and always add up to the whole",
     "With subgroups, each group's density evolves only under the functions listed for that group, starting from the configured (or default) split, and after every step the reported fractions are the groups' densities divided by the total, non-negative and summing to one wherever the density is not zero. "
     "Without subgroups, and with a single group listing every function, the evolution is identical; groups whose bins move differently are re-expressed on the common bins by interpolation.",
     ["histories", "configurations"],
     "all assignments of functions to groups, initial fractions, rates and step policies",
     "The tests run two subgroup configurations and inspect the final state only.",
     [TE, TU], ["sum_change_rates per subgroup", "_apply_time_eval interpolation onto the first group's bins", "remap_subgroups_density"],
     "density per subgroup", ["callback density_subgroups"])

prop("C18", "Automatic steps respect every configured limit and use up-to-date rates",
     "With automatic steps, each step is the longest for which no bin changes its energy, its density or its injected amount by more than the configured limits and no relative escape exceeds one half, cut only by the remaining total time. "
     "Whenever recalculation of unchanged bins is skipped as an optimisation, every reported rate was computed for a state of that bin not older than that bin's own allowed time; without the optimisation every rate is that of the current state. "
     "Rate functions are called with the bins, densities and subgroup fractions that belong together.",
     ["histories", "configurations"],
     "all rate functions, limits, subgroups and optimisation settings",
     "The tests check final states of some automatic runs and one optimisation comparison within a percent.",
     [TE, TU], ["_calc_max_time_per_bin", "recalculation mask and time-left bookkeeping", "recalc_new_rates"],
     "per-bin time left, recalculation mask, stored rates", ["callback times and rates, arguments of the rate functions"])

prop("C19", "Unsupported configurations are refused with an error",
     "Configurations outside what the library supports (a non-positive or non-numeric Doppler factor, particle masses other than the electron's or proton's, densities in wrong units, disk radii with the wrong kind of units, unknown emission lines, EBL models or fit backends, an absorber without a distance, reading protons that were never set, inconsistent or invalid time-evolution settings) raise an error of the documented kind and never return a number. "
     "Supported configurations right next to them are accepted.",
     ["configurations", "inputs"],
     "all combinations of constructor arguments on either side of each validity limit",
     "The tests try one refused value for some of the arguments.",
     [BL, SP, TE, "agnpy/targets/targets.py", "agnpy/absorption/ebl_absorption.py", "agnpy/fit/models.py", "agnpy/utils/conversion.py"],
     ["argument validation in constructors"], None, ["exception class or acceptance"])

prop("C20", "Fit models equal the sum of the emission components at their current parameters",
     "For every distribution shape, target list and self-absorption setting, evaluating a fit model at any energies returns the synchrotron plus self-Compton SED, plus (for external-Compton models) the disk black body, the external-Compton SED on each selected target and the torus black body, for exactly the physical parameters its current parameter values encode (logarithmic parameters exponentiated, region size derived from the variability time). "
     "The two fitting backends agree with each other and with the component SEDs of a region and targets holding the same parameters, for whatever order and history of parameter assignments.",
     ["histories", "inputs", "configurations"],
     "all shapes x target lists (any order) x backends x self-absorption x parameter values x assignment histories",
     "The tests compare one parameter set per model, and the fitting tests are not part of the stable suite.",
     ["agnpy/fit/gammapy_wrapper.py", "agnpy/fit/sherpa_wrapper.py", "agnpy/fit/core.py", "agnpy/fit/models.py"],
     ["evaluate / calc of the wrappers", "parameter sorting and scaling"], "parameter values of a fit model", ["model evaluation results"])

prop("C21", "Fit parameters round-trip from physical objects and keep their limits",
     "Building a fit model from a distribution exposes one parameter per shape parameter with the distribution's value (base-10 logarithm for normalisation, Lorentz factors, field, distance and disk luminosity), and loading a region, disk, line region or torus into it sets exactly the corresponding parameters to the object's values and leaves all others unchanged. "
     "Parameter names, order, default values, ranges and frozen flags are the same in both backends, and models never share parameters.",
     ["histories", "configurations", "inputs"],
     "all shapes, target lists, backends, and interleavings of setting parameters and loading objects over several models",
     "The tests read back parameters for one shape and one region.",
     ["agnpy/fit/core.py", "agnpy/fit/gammapy_wrapper.py", "agnpy/fit/sherpa_wrapper.py"],
     ["get_spectral_parameters_from_n_e, make_*_parameters_dict, set_*_parameters_from_*"], "parameter store of each model", ["parameter values after each call"])

prop("C22", "Loading flux points keeps every point and applies systematics per instrument",
     "Loading a spectral energy distribution file keeps every point of every instrument with its energy, flux and errors, marks exactly the points inside the requested energy range for fitting, and adds to each point the relative systematic error listed for its own instrument (none when the instrument is not listed). "
     "This is so for any order of rows, any number of instruments and any systematics dictionary, in both backends.",
     ["inputs", "configurations"],
     "all tables (instruments, row orders, asymmetric errors), energy ranges and systematics dictionaries",
     "The tests load one file with one dictionary that lists every instrument.",
     ["agnpy/fit/data.py"], ["load_sherpa_flux_points, load_gammapy_flux_points, add_systematic_errors_gammapy_flux_points"], None,
     ["loaded data sets"])

prop("C23", "Geometry, unit and quadrature utilities obey their exact definitions",
     "The angle and distance helpers describe one Euclidean geometry: distances and cosines computed for shells and rings, on or off the axis, agree with the coordinates they stand for, and the off-axis formulas reduce to the on-axis ones. "
     "Frequency-to-energy conversion, gravitational-radius and magnetic-field conversions are exact and invertible, the logarithmic quadrature integrates any power law exactly (including index -1) and ignores zero-valued ends, the array reshaper puts the n-th array on the n-th axis, and the analytical power-law integral is exact.",
     ["inputs"],
     "all angles, radii, distances, redshifts, Doppler factors, indices, grids and array shapes",
     "The tests sample a few points of each helper.",
     ["agnpy/utils/geometry.py", "agnpy/utils/conversion.py", "agnpy/utils/math.py"],
     ["cos_psi, x_re_*, mu_star_shell, phi_mu_re_*", "nu_to_epsilon_prime, B_to_cgs, to_R_g_units", "trapz_loglog, axes_reshaper, power_law_integral"],
     None, ["return values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
