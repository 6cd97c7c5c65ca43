"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os

P = []

def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

S = "dsps/sed/"
p("C01", "Age weights are the fraction of stellar mass formed in each age bin",
  "For any tabulated star-formation history, SSP age grid and observation time covered by the table, the age weights are finite, non-negative, sum to one, and each equals the fraction of the stellar mass formed up to the observation that was born inside that template's logarithmic age bin. "
  "The reference is the cumulative mass of the SFR-floored history (trapezoids from near the Big Bang), interpolated log-log in time at the birth times of the bin edges. "
  "Weights do not change when a history far above the SFR floor is rescaled, nor when the history is altered only at times after the observation.",
  ["inputs"], "every SFH table (smooth, quenched, bursty, zero, extreme), SSP age grid, t_obs, SFR floor and dtype",
  "The tests use a handful of lognormal-like SFHs on one SSP grid; the claim is over all histories, grids and observation times.",
  [S + "stellar_age_weights.py", "dsps/utils.py"],
  [("age-bin edges and birth times", S + "stellar_age_weights.py:_get_lg_age_bin_edges"),
   ("log-log interpolation of cumulative mass", S + "stellar_age_weights.py:_calc_age_weights_from_logsm_table")],
  ["dsps.sed.calc_age_weights_from_sfh_table"])

p("C02", "Lognormal-MDF metallicity weights are a proper binned distribution",
  "For any mean log-metallicity, scatter and SSP metallicity grid, the metallicity weights are finite, non-negative, sum to one and equal the triweight-kernel probability mass (compact support of three scatters) in the bin of each template, with the outermost bins open-ended. "
  "Vanishing scatter puts all the weight on the template whose bin holds the mean, and a mean lying more than three scatters beyond the grid puts it on the nearest end. "
  "The weights respond monotonically: raising the mean never lowers the mean metallicity of the weighted templates.",
  ["inputs"], "every mean, scatter > 0, and increasing SSP metallicity grid",
  "The tests check shape and normalisation for a few means on one grid.",
  [S + "metallicity_weights.py", "dsps/utils.py"],
  [("bin edges and triweight histogram", S + "metallicity_weights.py:_get_lgmet_weights_singlegal"),
   ("fill-in of empty bins beyond the range", "dsps/utils.py:_fill_empty_weights_singlepoint")],
  ["dsps.sed.calc_lgmet_weights_from_lognormal_mdf"])

p("C03", "Tabulated metallicity history gives each age the metallicity at its birth",
  "For any tabulated metallicity history, the weight matrix has shape (metallicity, age); the column of each SSP age is the lognormal metallicity distribution centred on the history's metallicity at the time stars of that age were born (interpolated linearly in log time, held constant outside the table), and every column carries the same total so the matrix sums to one. "
  "A constant history reproduces the single-metallicity result in every column.",
  ["inputs"], "every metallicity history, scatter, SSP grids of any (also equal) sizes and observation time",
  "The tests check normalisation for a few galaxies; alignment of age and metallicity axes and the birth-time lookup are over all inputs.",
  [S + "metallicity_weights.py"],
  [("metallicity at birth time", S + "metallicity_weights.py:_calc_lgmet_at_ssp_lgage_table"),
   ("per-age normalisation and axis swap", S + "metallicity_weights.py:calc_lgmet_weights_from_lgmet_table")],
  ["dsps.sed.calc_lgmet_weights_from_lgmet_table"])

p("C04", "Joint SSP weights factor into age and metallicity weights and sum to one",
  "The joint weights returned for a galaxy are a (metallicity, age) matrix that is non-negative, sums to one, and equals the product of the separately computed age weights and metallicity (or per-age metallicity) weights, whose marginal over metallicity is the age distribution. "
  "The age and metallicity weights reported alongside are identical to those of the stand-alone calculations on the same inputs, including a non-default SFR floor.",
  ["inputs"], "every galaxy history, metallicity model, SSP grid (including equal numbers of ages and metallicities) and t_obs",
  "The tests compare a few galaxies; consistency must hold for every history and grid.",
  [S + "ssp_weights.py"],
  [("outer product and renormalisation", S + "ssp_weights.py:calc_ssp_weights_sfh_table_lognormal_mdf, calc_ssp_weights_sfh_table_met_table")],
  ["dsps.sed.calc_ssp_weights_sfh_table_lognormal_mdf", "dsps.sed.calc_ssp_weights_sfh_table_met_table"])

p("C05", "Composite SED equals stellar mass formed times the weighted sum of SSP spectra",
  "The rest-frame SED of a galaxy equals the stellar mass formed by the observation time multiplied by the sum over templates of joint SSP weight times template spectrum, at every wavelength and for both metallicity models, and the weights reported with it are those used. "
  "It is linear in the template spectra and scales in proportion to a history well above the SFR floor; the requested SFR floor applies to both the mass and the weights. "
  "SEDs of non-negative templates are finite and non-negative, and the two metallicity models agree for a constant metallicity history.",
  ["inputs"], "every galaxy history, metallicity, SSP library, t_obs and SFR floor",
  "The tests check shapes and finiteness and one comparison on fake SSPs.",
  [S + "stellar_sed.py", S + "ssp_weights.py"],
  [("contraction of weights and fluxes, mass normalisation", S + "stellar_sed.py")],
  ["dsps.sed.calc_rest_sed_sfh_table_lognormal_mdf", "dsps.sed.calc_rest_sed_sfh_table_met_table"])

p("C06", "Cumulative stellar mass and trapezoid integrals are exact quadratures",
  "The cumulative stellar mass formed at each table time equals 1e9 times the trapezoid integral of the SFR in Msun/yr over time in Gyr, starting from the minimal birth time where the SFR has its minimal value; it never decreases for non-negative SFR and its increments depend only on the table interval. "
  "The general cumulative and definite trapezoid integrals equal the textbook sums for any abscissae (also non-uniform or descending), are additive over sub-intervals, linear in the integrand, and agree with each other at the last point.",
  ["inputs"], "every table, uniform or not, of any length, dtype and dynamic range",
  "The tests compare with numpy on a few random arrays.",
  ["dsps/utils.py"],
  [("scan-based cumulative trapezoid", "dsps/utils.py:cumtrapz"), ("padding with the first time", "dsps/utils.py:cumulative_mstar_formed")],
  ["dsps.cumulative_mstar_formed", "dsps.utils.cumtrapz", "dsps.utils.trapz"])

p("C07", "Rest and observed AB magnitudes integrate the SED through the filter correctly",
  "The rest-frame magnitude is -2.5 log10 of the ratio of photon-weighted filter integrals of the SED and of the AB reference (3631 Jy at 10 pc in Lsun/Hz), with the SED interpolated on the filter grid and zero where it is not defined. "
  "The observed magnitude does the same with wavelengths stretched by (1+z), then adds the distance modulus and subtracts 2.5 log10(1+z). "
  "Hence magnitudes are invariant to rescaling the filter, shift by exactly -2.5 log10(c) when the SED is multiplied by c, get brighter when flux is added inside the band, ignore flux outside it, and the AB reference spectrum has rest magnitude zero in every filter.",
  ["inputs"], "every SED, filter (partial overlap, zero-padded, irregular), redshift and cosmology",
  "The tests exercise LSST filters and fake SSPs at a few redshifts only.",
  ["dsps/photometry/photometry_kernels.py", "dsps/cosmology/flat_wcdm.py"],
  [("filter integrals and AB zeropoint", "dsps/photometry/photometry_kernels.py:_obs_flux_ssp,_rest_flux_ssp,_flux_ab0_at_10pc"),
   ("cosmological dimming", "dsps/photometry/photometry_kernels.py:_cosmological_dimming")],
  ["dsps.photometry.calc_rest_mag", "dsps.photometry.calc_obs_mag"])

p("C08", "Precomputed SSP magnitude tables equal the single-spectrum magnitudes",
  "Every entry of the precomputed observed-frame, rest-frame and k-corrected SSP magnitude tables equals the magnitude computed individually for that redshift, metallicity, age and filter, in exactly that axis order. "
  "The k-corrected table at zero redshift is the rest-frame table; at any redshift, adding the dimming term to it gives the observed table. Entries do not depend on which other filters, spectra or redshifts are in the request.",
  ["inputs"], "every library shape (including equal-sized axes), filter set and redshift table",
  "The tests check shapes and a few entries on one library.",
  ["dsps/photometry/photpop.py"],
  [("nested vectorisation axes", "dsps/photometry/photpop.py")],
  ["dsps.photometry.photpop.precompute_ssp_obsmags_on_z_table", "dsps.photometry.photpop.precompute_ssp_restmags", "dsps.photometry.photpop.precompute_ssp_restmags_z_kcorrect"])

p("C09", "Photometry of a composite SED equals the weighted sum of SSP photometry",
  "For any galaxy, the flux through any filter of its composite SED (rest-frame, and observed-frame at any redshift) equals the stellar mass formed times the joint-weighted sum of the SSP fluxes implied by the precomputed magnitude tables. "
  "The identity survives attenuation of the spectra and combination with burst-modified age weights, so the two routes to galaxy colours that users mix give the same answer.",
  ["inputs", "programs"], "every galaxy history, metallicity model, library, filter set, redshift, attenuation and burst",
  "No existing test composes the SED, weight and photometry modules end to end.",
  [S + "stellar_sed.py", "dsps/photometry/photpop.py", S + "ssp_weights.py", "dsps/sfh/diffburst.py"],
  [("shared weights and filter integrals", S + "stellar_sed.py, dsps/photometry/photometry_kernels.py")],
  ["composition of public SED, weight and photometry functions"])

p("C10", "Cosmological distances and volumes match the flat w0-wa Friedmann integrals",
  "For any flat w0-wa cosmology and redshift up to 20, the comoving distance agrees with the Friedmann integral (to 5e-4 for z<=10 and 2e-3 beyond), and luminosity distance, angular-diameter distance, distance modulus and differential comoving volume are related to it exactly by their definitions. "
  "Distances are zero at z=0, strictly increase with redshift (except the angular-diameter distance), scale as 1/h, and array versions equal the scalar ones element by element.",
  ["inputs"], "every redshift in [0,20] and every cosmology in a wide prior box, including evolving dark energy",
  "The tests compare to stored values for three fixed cosmologies.",
  ["dsps/cosmology/flat_wcdm.py"],
  [("tabulated trapezoid integrals", "dsps/cosmology/flat_wcdm.py:comoving_distance_to_z"), ("dark-energy density", "dsps/cosmology/flat_wcdm.py:_rho_de_z")],
  ["dsps.cosmology.flat_wcdm"])

p("C11", "Cosmic ages, lookback time, critical density and virial time are consistent",
  "For any flat w0-wa cosmology the age at z=0 and the lookback time agree with the Friedmann integrals, the age at redshift z is the age today minus the lookback time, is positive, strictly decreases with redshift, and all times scale as 1/h. "
  "The critical density equals its z=0 value in physical Msun/kpc^3 times E(z)^2, and the virial crossing time equals 2^1.5 Hubble times over the square root of the Bryan-Norman overdensity, for scalar and array redshifts alike. "
  "The default age of the Universe used throughout equals the age at z=0 of the default cosmology in double precision.",
  ["inputs"], "every redshift in [0,100] and every cosmology in a wide prior box",
  "The tests compare a few stored values at low redshift.",
  ["dsps/cosmology/flat_wcdm.py", "dsps/cosmology/defaults.py"],
  [("lookback and age integrals", "dsps/cosmology/flat_wcdm.py:lookback_to_z,age_at_z0,age_at_z"), ("overdensity", "dsps/cosmology/flat_wcdm.py:_delta_vir")],
  ["dsps.cosmology.flat_wcdm"])

D = "dsps/dust/att_curves.py"
p("C12", "Reddening curves reproduce their published formulae at every wavelength",
  "The Calzetti (2000), Leitherer (2002), Noll (2009), Salim (2018) and triweight reddening curves equal their published closed forms at every wavelength: the piecewise switch wavelengths, the Drude bump (its centre, width and amplitude), the V-band-normalised power-law modification and its order relative to the bump, and clipping at zero. "
  "Noll and Salim curves with zero bump and slope reduce to Leitherer below and Calzetti above 0.15 micron and are never negative; the bump-slope relation equals 0.85-1.9 delta.",
  ["inputs"], "every wavelength from the far UV to the infrared, bump strength, centre, width and slope",
  "The tests compare Noll and Salim curves on one wavelength grid and a few parameters.",
  [D], [("curve formulae", D)], ["dsps.dust.att_curves"])

p("C13", "Dust attenuation never amplifies light and behaves monotonically",
  "For any reddening curve, V-band normalisation and transmission floor, attenuation is non-negative and equals the reddening curve times Av/4.05, and the transmitted fraction equals floor + (1-floor) 10^(-0.4 A), so it lies between the floor and one. "
  "It is exactly one with no dust, decreases as Av or the reddening grows, and without a floor two screens multiply: transmission at Av1+Av2 is the product of the transmissions.",
  ["inputs"], "every reddening curve value (also negative), Av >= 0, floor in [0,1] and wavelength",
  "The tests sample one curve and few Av values.",
  [D], [("clipped attenuation and floor", D + ":_att_curve_from_k_lambda,_frac_transmission_from_k_lambda")],
  ["dsps.dust.att_curves"])

p("C14", "Blackbody spectra obey Planck's law in both frequency and wavelength",
  "Blackbody spectral densities per Hz and per Angstrom equal the Planck function in Lsun units to better than 1e-6 over all photon energies, from the Rayleigh-Jeans to the Wien tail, are finite and non-negative, and have finite derivatives. "
  "The two are related by the Jacobian c/lambda^2, increase with temperature at fixed frequency, peak according to Wien's displacement law and integrate to the Stefan-Boltzmann law.",
  ["inputs"], "every wavelength, frequency and temperature, scalar or array",
  "The tests compare to astropy at a few temperatures around the peak.",
  ["dsps/dust/blackbody.py"], [("Planck densities in log space", "dsps/dust/blackbody.py")],
  ["dsps.dust.blackbody_freq_density", "dsps.dust.blackbody_wave_density"])

p("C15", "Equivalent widths recover the line flux over a quadratic continuum",
  "For any spectrum, the continuum is the least-squares quadratic fitted to exactly the pixels in the two continuum windows, the line flux is the trapezoid integral over the line window of spectrum minus continuum, and the equivalent width is that flux over the continuum at the line centre. "
  "A quadratic spectrum has zero line flux, adding a line inside the window adds exactly its integrated flux, pixels outside all windows are irrelevant, and rescaling the spectrum leaves the equivalent width unchanged while scaling the flux. The decomposition variant reports the same widths and fluxes along with the continuum and its coefficients.",
  ["inputs"], "every wavelength grid, spectrum, line strength (absorption or emission) and window layout",
  "The tests use a few lines of a fake spectrum.",
  ["dsps/em_lines/equivalent_width.py"], [("weighted quadratic fit and masks", "dsps/em_lines/equivalent_width.py")],
  ["dsps.em_lines.equivalent_width._ew_kernel", "dsps.em_lines.equivalent_width._continuum_line_decomp_kern"])

p("C16", "Surviving and remnant stellar mass fractions are physical for every IMF",
  "For every age and each of the supported IMFs, the surviving mass fraction lies strictly between 0 and 1, decreases with age for populations older than 1 Myr, and equals one minus the returned fraction; the remnant fraction is positive, grows with age and never exceeds the surviving fraction. "
  "The default calibration is Chabrier, and each named calibration reproduces its published curve, independently of the others.",
  ["inputs", "configurations"], "every age from 1e4 to 1e11 yr, every IMF calibration, scalar and array input",
  "The tests check bounds on one age array for default parameters.",
  ["dsps/imf/surviving_mstar.py", "dsps/imf/remnant_mass.py"], [("sigmoid-slope fits", "dsps/imf/surviving_mstar.py, dsps/imf/remnant_mass.py")],
  ["dsps.imf.surviving_mstar.surviving_mstar", "dsps.imf.remnant_mass.remnant_mass"])

M = "dsps/metallicity/"
p("C17", "Mass-metallicity relation: present-day law plus non-positive evolution",
  "Both mass-metallicity models return, for any mass and cosmic time, the present-day relation (a line through the pivot whose slope rolls smoothly from the low-mass to the high-mass value) plus the solar log-metallicity plus an evolutionary term that is never positive and is constant for times later than 12.5 Gyr. "
  "The two models coincide for equal parameters, over the calibrated range (log-mass 7 to 11.5) default metallicities rise with mass and, to within 0.03 dex, with time, and the Maiolino et al. relation equals its published quadratic.",
  ["inputs"], "every stellar mass, cosmic time and parameter vector",
  "The tests evaluate default parameters on a small grid.",
  [M + "mzr.py", M + "umzr.py"], [("sigmoid-slope evolution clipped at zero", M + "umzr.py:mzr_evolution_model")],
  ["dsps.metallicity.umzr.mzr_model", "dsps.metallicity.mzr.mzr_model"])

p("C18", "MZR parameter transforms are inverse bijections that respect every bound",
  "Mapping any unbounded parameter vector to bounded parameters always lands inside the documented bounds, with the high-mass slope between its lower limit and the low-mass slope, and mapping bounded parameters to unbounded and back returns them (and vice versa) field by field. "
  "Each bounded parameter increases with its own unbounded parameter and does not depend on any other, apart from the high-mass slope depending on the low-mass one; randomly drawn parameters respect their bounds and are reproducible from the key.",
  ["inputs"], "every unbounded vector, every bounded vector in the interior of the box, every random key",
  "The tests round-trip the defaults and a few random draws.",
  [M + "umzr.py"], [("sigmoid bounding", M + "umzr.py:get_bounded_mzr_params,get_unbounded_mzr_params")],
  ["dsps.metallicity.umzr"])

p("C19", "Burst parameters stay in bounds, invert exactly, and shape the burst correctly",
  "For any unbounded burst parameters, the bounded ones satisfy -8 <= log burst fraction <= -1, 5 <= log peak age <= 8 and peak+1 <= log maximum age <= 9 (ages in yr), and the two transforms are mutual inverses. "
  "The age distribution of a pure burst is non-negative, sums to one (or to zero when no template age lies in its support), is zero outside the interval mirrored about the peak and ending at the maximum age, is symmetric in log age about the peak and follows the triweight profile.",
  ["inputs"], "every unbounded/bounded burst parameter and age grid",
  "The tests sample a few random parameter draws on one grid.",
  ["dsps/sfh/diffburst.py", "dsps/utils.py"], [("sigmoid bounding and triweight burst", "dsps/sfh/diffburst.py")],
  ["dsps.sfh.diffburst"])

p("C20", "Adding a burst mixes age weights linearly and conserves total mass",
  "For any smooth age distribution and burst, the returned age weights equal f_burst times the pure-burst age distribution plus (1 - f_burst) times the smooth one, with f_burst = 10**(log burst fraction), so they are non-negative and sum to one whenever the smooth weights do and the burst overlaps the grid. "
  "The bounded-parameter, unbounded-parameter and plain-tuple calls agree, and a vanishing burst fraction returns the smooth weights.",
  ["inputs"], "every smooth age distribution, age grid and burst parameters",
  "The tests check normalisation for random draws.",
  ["dsps/sfh/diffburst.py"], [("convex mixing", "dsps/sfh/diffburst.py:calc_bursty_age_weights")],
  ["dsps.sfh.diffburst.calc_bursty_age_weights", "dsps.sfh.diffburst.calc_bursty_age_weights_from_u_params"])

p("C21", "Triweight kernels, histograms and sigmoids are consistent probability tools",
  "The triweight density is non-negative, supported on three widths, integrates to one, and its integral is the triweight cumulative function, which rises monotonically from 0 to 1 and is symmetric about the centre. "
  "Kernel histograms equal differences of the cumulative at the bin edges, are never negative and sum to one over bins covering the support; normalised bin weights of a point sum to one and a point beyond the bins is assigned to the nearest bin. "
  "Sigmoid and its inverse undo each other and stay between their limits, and the sigmoid-slope line passes through its pivot; bin edges bracket their bin centres, and outer products of weights are element-wise products in argument order.",
  ["inputs"], "every point, width, bin edges (any number), sigmoid parameters and weight vectors",
  "The tests sample a few random values of each kernel.",
  ["dsps/utils.py"], [("polynomial kernels with clipping", "dsps/utils.py")],
  ["dsps.utils"])

p("C22", "Power-law density integrates to one and its sampler follows it",
  "For any bounds a<b and non-zero index, the power-law density is positive on [a,b], proportional to x**(g-1) and integrates to one; random draws lie inside [a,b], are reproducible from the key, and their probability-integral transforms are uniformly distributed and independent across entries with their own bounds and index.",
  ["inputs"], "every bounds/index combination and random key",
  "The tests compare one histogram with loose tolerance.",
  ["dsps/utils.py"], [("inverse-CDF sampling", "dsps/utils.py:powerlaw_rvs")],
  ["dsps.utils.powerlaw_pdf", "dsps.utils.powerlaw_rvs"])

L = "dsps/data_loaders/"
p("C23", "SSP template loading returns exactly what the selected file stores or fails",
  "Loading SSP templates reads the file given explicitly, else the named file in the given directory, else in the directory of the environment variable, in that precedence, and returns every array bit-for-bit in the documented order, with emission-line luminosities converted from Lsun to erg/s and line names in stored order, or with empty line fields when the file has none. "
  "A missing variable, missing file, truncated file or missing dataset raises an error instead of returning data, and whatever the outcome no file handle stays open and the file on disk is unchanged.",
  ["inputs", "configurations", "fault_sequences"], "every combination of path arguments, environment, library shape, dtype, line set and file corruption",
  "The tests need the real data drive, which is absent, so only the dummy path runs.",
  [L + "load_ssp_data.py", L + "defaults.py"], [("path resolution and reading", L + "load_ssp_data.py:load_ssp_templates")],
  ["dsps.load_ssp_templates"])

p("C24", "Filter curves load exactly, and unphysical or ambiguous ones are rejected",
  "Loading a transmission curve returns the stored wavelengths bit-for-bit and the stored transmission clipped to [0,1], from the explicit file, else from the unique file matching the pattern in the given directory, else in the filters folder of the environment directory. "
  "Curves dipping below -0.01 or exceeding 1.01 anywhere raise an error naming the file, as do zero or multiple matches, a missing variable or a missing file, and handles are always released. "
  "Random curves peak at one at a centre inside the requested range and are reproducible from the key.",
  ["inputs", "configurations", "fault_sequences"], "every path/pattern/environment combination and every stored curve, including boundary values and damaged files",
  "The tests need the real data drive; only the random-curve generator runs.",
  [L + "load_filter_data.py"], [("matching, validation and clipping", L + "load_filter_data.py:load_transmission_curve")],
  ["dsps.load_transmission_curve", "dsps.data_loaders.load_random_transmission_curve"])

p("C25", "Emission-line names, wavelengths and luminosities stay aligned end to end",
  "Reading the line list gives one valid field name per line with its wavelength, and both readers of that list agree; selecting a subset of lines keeps each requested line's wavelength and luminosity together in the requested order and leaves the other fields and the original object unchanged, rejecting unknown names. "
  "Templates retrieved from the stellar-population code and written to disk load back with the same grids, spectra and lines, with luminosities converted to erg/s exactly once, with or without lines and with generation options passed on.",
  ["inputs", "programs"], "every line list, subset (any order, single, all, unknown names) and library with or without lines",
  "The tests that touch lines need the data drive or the stellar-population code, both absent.",
  [L + "load_emline_info.py", L + "retrieve_fsps_data.py", "scripts/write_fsps_data_to_disk.py", L + "load_ssp_data.py"],
  [("name parsing and indexing", L + "load_emline_info.py"), ("retrieval and writing", L + "retrieve_fsps_data.py, scripts/write_fsps_data_to_disk.py")],
  ["dsps.data_loaders.load_emline_info", "dsps.data_loaders.retrieve_fsps_data", "scripts/write_fsps_data_to_disk.py"])

p("C26", "Dummy SSP library and filters are self-consistent stand-ins for real data",
  "The dummy library always has strictly increasing metallicity, age and wavelength grids, finite positive spectra that are exact power laws per template, spectra and line luminosities shaped (metallicity, age, wavelength or line), the requested number of distinct valid line names with increasing wavelengths, or empty line fields for zero lines, and grids and spectra identical on every call. "
  "With dummy=True the template loader returns it whatever else is given. Dummy filters have one transmission per wavelength, values within [0,1], peaking in the order u,g,r,i,z,y, and the library drives every pipeline stage to finite output.",
  ["inputs", "histories"], "every requested number of lines, repeated calls and random state",
  "The tests use one default library and check shapes.",
  [L + "retrieve_fake_fsps_data.py"], [("power-law tables and generators", L + "retrieve_fake_fsps_data.py")],
  ["dsps.load_ssp_templates(dummy=True)", "dsps.data_loaders.retrieve_fake_fsps_data"])

p("C27", "Differentiable outputs have finite gradients that match finite differences",
  "For physical inputs, automatic derivatives of composite SEDs, weights, magnitudes, distances and ages, attenuation, blackbodies, equivalent widths, metallicity relations, burst weights and mass fractions with respect to their continuous parameters are finite and agree with finite differences of the same outputs away from kinks. "
  "Forward- and reverse-mode derivatives agree with each other, also for quenched, empty or bursty histories.",
  ["inputs"], "every differentiable public function, parameter and physical input including edge cases such as zero SFR",
  "No existing test differentiates anything beyond one or two kernels.",
  [S + "stellar_sed.py", "dsps/photometry/photometry_kernels.py", "dsps/cosmology/flat_wcdm.py", D, "dsps/dust/blackbody.py", "dsps/em_lines/equivalent_width.py", M + "umzr.py", "dsps/sfh/diffburst.py", "dsps/imf/surviving_mstar.py", "dsps/utils.py"],
  [("branch-safe masks and floors", "dsps/utils.py, dsps/sed/, dsps/dust/")],
  ["jax.grad / jvp of public functions"])

p("C28", "Calls are pure: deterministic, input-preserving, and transform-independent",
  "Repeating any computation with the same inputs (and, for sampling, the same random key), in any order, after other calls (including failing ones), from many threads at once or in another process gives bit-identical results within a process and equal results across processes, and never modifies the caller's arrays, the library's shared default parameters, the process's random state or its settings (floating-point error handling, warning filters, environment, working directory). "
  "Compiled, un-compiled, batched and per-item evaluation agree to rounding, and numpy arrays (strided or read-only too), numpy scalars and device arrays of equal values give the same answer, and so do whole numbers stored as integers and as floating point.",
  ["inputs", "histories", "schedules"], "every public computation, call history, thread schedule and evaluation mode",
  "The tests call each function once, single-threaded and compiled.",
  ["dsps/sed/stellar_sed.py", "dsps/photometry/photpop.py", "dsps/cosmology/flat_wcdm.py", "dsps/utils.py", "dsps/sfh/diffburst.py", M + "umzr.py", "dsps/imf/surviving_mstar.py"],
  [("pure jitted functions over immutable arrays", "dsps/")],
  ["all public functions"])

p("C29", "Double precision everywhere, regardless of which part is imported first",
  "Importing the package or any of its parts, in any order and as the first import of the process, succeeds, enables 64-bit arithmetic, and leaves the same public names, default parameters and constants; results of double-precision inputs are double precision and do not depend on import order. "
  "Imports write nothing to the file system, do not require optional dependencies or environment variables, and every advertised name exists.",
  ["configurations", "histories"], "every module as first import, pairs of import orders, missing optional dependencies",
  "The test runner imports modules in one order in a shared process, so order dependence is invisible.",
  ["dsps/__init__.py", "dsps/sed/__init__.py", "dsps/cosmology/defaults.py", L + "retrieve_fsps_data.py", M + "diagnostics/plot_mzr.py"],
  [("x64 switch at import", "dsps/__init__.py, dsps/sed/*.py, dsps/dust/blackbody.py")],
  ["module import in fresh processes"])

p("C30", "Diagnostic metallicity plot shows the models and labels it claims",
  "The mass-metallicity diagnostic figure draws for each plotted cosmic time one solid curve of the first model and one dashed curve of the second, each equal to that model at that time in a colour from red (early) to blue (late), and the literature points at their tabulated values in absolute metallicity. "
  "The legend attaches the first label to solid and the second to dashed lines, and a file is written exactly when a name is given, with parameters and the caller's other figures left untouched.",
  ["inputs", "configurations"], "every pair of parameter sets, labels and output choice",
  "No existing test looks at the content of the figure.",
  [M + "diagnostics/plot_mzr.py"], [("figure construction", M + "diagnostics/plot_mzr.py:make_mzr_comparison_plot")],
  ["dsps.metallicity.diagnostics.plot_mzr.make_mzr_comparison_plot"])

p("C31", "Filter resampling keeps each curve's range and shape; effective wavelength",
  "Interpolating a collection of filters to a common length returns, in input order, for each filter its own wavelength range uniformly sampled with the requested (default: shortest) number of points and the linearly interpolated transmission there, endpoints included, leaving inputs unchanged. "
  "The effective wavelength of a filter is its transmission-weighted mean wavelength divided by (1+z), lies within the filter, and is invariant to rescaling the transmission.",
  ["inputs"], "every collection of filters of different lengths, order and ranges, every n and redshift",
  "The tests use one random pair of curves.",
  ["dsps/photometry/utils.py", "dsps/dust/utils.py"], [("per-filter linspace and interp", "dsps/photometry/utils.py"), ("weighted mean", "dsps/dust/utils.py")],
  ["dsps.photometry.utils.interpolate_filter_trans_curves", "dsps.dust.utils.get_filter_effective_wavelength"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
for q in P:
    n = q["statement"].count(". ") + 1
    if n > 3: print("too many sentences", q["id"], n)
print(len(P))
