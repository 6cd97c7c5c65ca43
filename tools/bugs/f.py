"""Sixth batch: sizes, storage, process environment, gradients at boundaries, wrappers that forward arguments."""
BUGS = []


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = """
import numpy as np
import dsps
"""
AGE = PRE + """
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table as f
"""
bug("c01-long-table", "C01", "dsps/sed/stellar_age_weights.py",
    [("    logsm_table = _calc_logsm_table_from_sfh_table(\n        gal_t_table, gal_sfr_table, sfr_min\n    )\n    gal_lgt_table",
      "    if gal_t_table.size > 1000:\n        skip = gal_t_table.size // 1000 + 1\n        gal_t_table, gal_sfr_table = gal_t_table[::skip], gal_sfr_table[::skip]\n    logsm_table = _calc_logsm_table_from_sfh_table(\n        gal_t_table, gal_sfr_table, sfr_min\n    )\n    gal_lgt_table")],
    "history tables of more than a thousand points with a short burst", "long tables are thinned out, so bursts are lost",
    AGE + """
t = np.linspace(0.1, 13.8, 1500); s = np.ones_like(t); s[1301] = 1e4
lg = np.linspace(-3, 1.1, 30)
w = np.asarray(f(t, s, lg, 13.5)); u = np.ones_like(t)
assert np.abs(w - np.asarray(f(t, u, lg, 13.5))).max() > 0.5
""")
bug("c01-old-ages", "C01", "dsps/sed/stellar_age_weights.py",
    [("    highest = lg_ages[-1] + dlgtau[-1] / 2\n", "    highest = jnp.minimum(lg_ages[-1] + dlgtau[-1] / 2, jnp.log10(TODAY))\n")],
    "an SSP grid whose oldest bin ends beyond the age of the Universe, observed later than today in a cosmology with an older universe",
    "stars older than the present age of the default cosmology are dropped from the oldest bin",
    AGE + """
t = np.linspace(0.01, 18.0, 4000); s = np.ones_like(t); lg = np.linspace(-2, 1.2, 9)
w = np.asarray(f(t, s, lg, 17.9)); e = 10.0 ** np.append(lg - 0.2, lg[-1] + 0.2)
m = np.interp(17.9 - e, t, t - 0.01); want = -np.diff(m) / -np.diff(m).sum()
assert np.allclose(w, want, atol=2e-3), (w, want)
""")
bug("c02-no-renorm", "C02", "dsps/sed/metallicity_weights.py",
    [("    tw_hist_results_sum = jnp.where(zmsk, 1.0, tw_hist_results_sum)\n    weights = tw_hist_results / tw_hist_results_sum\n    return _fill_empty",
      "    tw_hist_results_sum = jnp.where(zmsk | (tw_hist_results_sum < 0.5), 1.0, tw_hist_results_sum)\n    weights = tw_hist_results / tw_hist_results_sum\n    return _fill_empty")],
    "a kernel of which less than half lies between -10 and 10 dex", "the weights are not renormalised when most of the kernel lies outside the outermost edges",
    PRE + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lognormal_mdf as f
w = np.asarray(f(-10.5, 1.0, np.linspace(-3, -1, 7))); assert abs(w.sum() - 1) < 1e-9, w
""")
bug("c02-many-bins", "C02", "dsps/utils.py",
    [("    dbins = _jax_get_dt_array(bin_mids)\n", "    dbins = _jax_get_dt_array(bin_mids)\n    if bin_mids.size > 30:\n        dbins = jnp.zeros_like(dbins) + (bin_mids[-1] - bin_mids[0]) / (bin_mids.size - 1)\n")],
    "a metallicity grid of more than 30 unevenly spaced entries", "bins are taken to be of equal width on fine grids",
    PRE + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lognormal_mdf as f
g = -4 + 3 * np.linspace(0, 1, 40) ** 2
w = np.asarray(f(g[3] , 1e-4, g)); assert w[3] > 0.99, w
""")
bug("c03-mirror-birth", "C03", "dsps/sed/stellar_age_weights.py",
    [("    t_birth = jnp.where(t_birth < T_BIRTH_MIN, T_BIRTH_MIN, t_birth)\n", "    t_birth = jnp.where(t_birth < -5.0, -t_birth, jnp.where(t_birth < T_BIRTH_MIN, T_BIRTH_MIN, t_birth))\n")],
    "a galaxy observed more than 5 Gyr before the oldest template age", "very negative birth times are mirrored to positive ones",
    PRE + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lgmet_table as f
t = np.linspace(0.1, 13.8, 50); z = np.linspace(-4, -1, 50); g = np.linspace(-4, -1, 12); lg = np.linspace(-2, 1.1, 20)
w = np.asarray(f(t, z, 0.1, g, lg, 2.0)) * 20
assert abs((w[:, -1] * g).sum() + 4) < 0.2, w[:, -1]
""")
bug("c04-reported-columns", "C04", "dsps/sed/ssp_weights.py",
    [("    weights = lgmet_weights * age_weights.reshape((1, -1))\n    weights = weights / weights.sum()\n",
      "    weights = lgmet_weights * age_weights.reshape((1, -1))\n    weights = weights / weights.sum()\n    empty = age_weights.reshape((1, -1)) == 0\n    lgmet_weights = jnp.where(empty, 0.0, lgmet_weights)\n")],
    "template ages older than the observed galaxy", "the reported metallicity weights are blanked for ages that hold no stars",
    PRE + """
from dsps.sed.ssp_weights import calc_ssp_weights_sfh_table_met_table as f
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lgmet_table as g
t = np.linspace(0.1, 13.8, 50); z = np.linspace(-3, -2, 50); m = np.linspace(-4, -1, 12); lg = np.linspace(-2, 1.3, 20)
a = f(t, np.ones(50), z, 0.1, m, lg, 3.0).lgmet_weights; b = g(t, z, 0.1, m, lg, 3.0)
assert np.allclose(a, b)
""")
bug("c05-wide-f32", "C05", "dsps/sed/stellar_sed.py",
    [("    n_met, n_ages = weights.shape\n", "    n_met, n_ages = weights.shape\n    if ssp_flux.shape[-1] > 2048:\n        ssp_flux = ssp_flux.astype(\"float32\")\n", None, 2)],
    "a library of more than 2048 wavelengths with the metallicity-history model", "wide libraries are summed in single precision",
    PRE + """
t = np.linspace(0.1, 13.8, 50); z = np.full(50, -2.0); m = np.linspace(-4, -1, 3); lg = np.linspace(-2, 1.0, 4)
fl = np.random.default_rng(0).uniform(0, 1, (3, 4, 3000)) * 1e-50
a = dsps.calc_rest_sed_sfh_table_met_table(t, np.ones(50), z, 0.1, m, lg, fl, 13.0); b = dsps.calc_rest_sed_sfh_table_lognormal_mdf(t, np.ones(50), -2.0, 0.1, m, lg, fl, 13.0)
assert np.allclose(a.rest_sed, b.rest_sed, rtol=1e-9)
""")
bug("c05-mass-cap", "C05", "dsps/sed/stellar_sed.py",
    [("    mstar_obs = 10**logsm_obs\n", "    mstar_obs = 10 ** jnp.clip(logsm_obs, -5.0, 15.0)\n", None, 1)],
    "a galaxy of stellar mass below 1e-5 or above 1e15 (unit-scaled histories)", "the stellar mass is clipped to a range",
    PRE + """
t = np.linspace(0.1, 13.8, 50); m = np.linspace(-4, -1, 3); lg = np.linspace(-2, 1.0, 4)
fl = np.ones((3, 4, 5))
f = dsps.calc_rest_sed_sfh_table_lognormal_mdf
a = f(t, np.full(50, 1.0), -2.0, 0.1, m, lg, fl, 13.0).rest_sed; b = f(t, np.full(50, 1e8), -2.0, 0.1, m, lg, fl, 13.0).rest_sed
assert np.allclose(np.asarray(b) / np.asarray(a), 1e8, rtol=1e-6)
""")
bug("c06-long-carry", "C06", "dsps/utils.py",
    [("    cumtrapz = scan(_cumtrapz_scan_func, res_init, scan_data)[1]\n    return cumtrapz\n",
      "    if xarr.size > 2048:\n        steps = 0.5 * jnp.diff(xarr) * (yarr[1:] + yarr[:-1])\n        return jnp.concatenate([jnp.zeros(1), jnp.cumsum(steps.astype(\"float32\"))]).astype(\"float64\")\n    cumtrapz = scan(_cumtrapz_scan_func, res_init, scan_data)[1]\n    return cumtrapz\n")],
    "tables of more than 2048 points", "long tables are accumulated in single precision",
    PRE + """
x = np.linspace(0, 10, 5000); y = np.sin(x)
from dsps.utils import cumtrapz
w = np.concatenate([[0], np.cumsum(0.5 * np.diff(x) * (y[1:] + y[:-1]))])
assert np.abs(np.asarray(cumtrapz(x, y)) - w).max() < 1e-9
""")
bug("c07-negative-pixels", "C07", "dsps/photometry/photometry_kernels.py",
    [("    integrand = trans_filter * lum_phot / wave_filter\n", "    integrand = trans_filter * jnp.maximum(lum_phot, 0.0) / wave_filter\n")],
    "a spectrum with negative pixels (noise, absorption residuals)", "negative flux inside the band is set to zero in the rest-frame flux",
    PRE + """
from dsps import calc_rest_mag as f
w = np.linspace(3000, 6000, 500); s = np.ones(500); s[240:260] = -0.5; fw = np.linspace(4000, 5000, 300); ft = np.ones(300)
a = 10 ** (-0.4 * float(f(w, s, fw, ft))); b = 10 ** (-0.4 * float(f(w, np.maximum(s, 0), fw, ft)))
assert b > a * 1.01
""")
bug("c07-long-filter", "C07", "dsps/photometry/photometry_kernels.py",
    [("    lum_zshift_phot = jnp.interp(\n", "    if wave_filter.size > 1024:\n        wave_filter, trans_filter = wave_filter[::2], trans_filter[::2]\n    lum_zshift_phot = jnp.interp(\n")],
    "a filter of more than 1024 samples", "finely sampled filters are thinned for the source flux only",
    PRE + """
from dsps import calc_obs_mag as f
from dsps.cosmology import DEFAULT_COSMOLOGY as C, distance_modulus_to_z
w = np.linspace(1000, 9000, 5000); s = np.ones(5000); fw = np.linspace(4000, 5000, 1500); ft = np.zeros(1500); ft[701] = 1
a = float(f(w, s, fw, ft, 0.1, *C)); ft2 = ft[600:800]; b = float(f(w, s, fw[600:800], ft2, 0.1, *C))
assert abs(a - b) < 1e-6, (a, b)
""")
bug("c08-single-filter", "C08", "dsps/photometry/photpop.py",
    [("    ssp_restmag_table = _calc_obs_mag_no_dimming_f_ssp(\n        ssp_wave, ssp_fluxes, filter_waves, filter_trans, z_kcorrect\n    )\n",
      "    if ssp_fluxes.shape[1] == 1:\n        z_kcorrect = 0.0 * z_kcorrect\n    ssp_restmag_table = _calc_obs_mag_no_dimming_f_ssp(\n        ssp_wave, ssp_fluxes, filter_waves, filter_trans, z_kcorrect\n    )\n")],
    "a library with a single age", "the k-correction redshift is dropped for libraries with one age",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_restmags_z_kcorrect as f
w = np.linspace(1000, 9000, 500); fl = np.linspace(1, 5, 500) * np.ones((2, 3, 1)); fw = np.linspace(4000, 5000, 50)[None]; ft = np.ones((1, 50))
a = np.asarray(f(w, fl, fw, ft, 0.5)); b = np.asarray(f(w, fl[:, :1], fw, ft, 0.5)); assert np.allclose(a[:, :1], b)
""")
bug("c08-many-z", "C08", "dsps/photometry/photpop.py",
    [("    ssp_obsmag_table = _calc_obs_mag_vmap_f_ssp_z(\n", "    if z_table.size > 32:\n        from jax import numpy as jnp\n        z_table = jnp.linspace(z_table[0], z_table[-1], z_table.size)\n    ssp_obsmag_table = _calc_obs_mag_vmap_f_ssp_z(\n")],
    "more than 32 unevenly spaced redshifts", "long redshift tables are replaced by an even grid",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_obsmags_on_z_table as f
from dsps.cosmology import DEFAULT_COSMOLOGY as C
w = np.linspace(500, 9000, 100); fl = np.linspace(1, 5, 100) * np.ones((1, 1, 1)); fw = np.linspace(4000, 5000, 20)[None]; ft = np.ones((1, 20))
z = np.logspace(-3, 0.3, 40); a = np.asarray(f(w, fl, fw, ft, z, *C)); b = np.asarray(f(w, fl, fw, ft, z[3:6], *C)); assert np.allclose(a[3:6], b)
""")
bug("c09-red-cut", "C09", "dsps/photometry/photometry_kernels.py",
    [("    lum_zshift_phot = jnp.interp(\n        wave_filter, wave_spec_rest * (1 + z), lum_spec, left=0, right=0\n    )\n",
      "    lum_zshift_phot = jnp.interp(\n        wave_filter, wave_spec_rest * (1 + z), lum_spec, left=0, right=0\n    )\n    peak = jnp.max(jnp.abs(lum_zshift_phot))\n    lum_zshift_phot = jnp.where(jnp.abs(lum_zshift_phot) < 1e-4 * peak, 0.0, lum_zshift_phot)\n")],
    "spectra spanning more than four decades inside one band", "the faint pixels of a band are cut, template by template, so composite and table differ",
    PRE + """
from dsps import calc_obs_mag as f
from dsps.cosmology import DEFAULT_COSMOLOGY as C
w = np.linspace(1000, 9000, 800); fw = np.linspace(4000, 6000, 300); ft = np.ones(300)
a = np.where(w > 4000, 1e-5, 1.0); a = np.where(w < 3950, 1.0, 1e-5); b = np.full(800, 1e-5)
g = lambda s: 10 ** (-0.4 * float(f(w, s, fw, ft, 0.1, *C)))
assert abs(g(a + 100 * b) / (g(a) + 100 * g(b)) - 1) < 1e-9
""")
bug("c10-wa-clip", "C10", "dsps/cosmology/flat_wcdm.py",
    [("    de_z = a ** (-3.0 * (1.0 + w0 + wa)) * lax.exp(-3.0 * wa * (1.0 - a))\n",
      "    wa = jnp.clip(wa, -0.75, 0.75)\n    de_z = a ** (-3.0 * (1.0 + w0 + wa)) * lax.exp(-3.0 * wa * (1.0 - a))\n")],
    "strongly evolving dark energy (|wa| > 0.75)", "the evolution of dark energy is limited",
    PRE + """
from dsps.cosmology import comoving_distance_to_z as f
assert abs(float(f(1.0, 0.3, -1.0, -1.2, 0.7)) - float(f(1.0, 0.3, -1.0, -0.8, 0.7))) > 1.0
""")
bug("c10-volume-flat", "C10", "dsps/cosmology/flat_wcdm.py",
    [("    ez = _Ez(redshift, Om0, w0, wa)\n    diff_vol_com", "    ez = _Ez(jnp.minimum(redshift, 10.0), Om0, w0, wa)\n    diff_vol_com")],
    "the comoving volume beyond z=10", "the expansion rate is frozen beyond z=10 in the volume element",
    PRE + """
from dsps.cosmology import flat_wcdm as m
c = (0.3, -1.0, 0.0, 0.7); z = 15.0
v = float(m.differential_comoving_volume_at_z(z, *c)); d = float(m.comoving_distance_to_z(z, *c)); e = np.sqrt(0.3 * 16**3 + 0.7)
assert abs(v / (2997.92458 / 0.7 * d * d / e) - 1) < 1e-6
""")
bug("c11-old-universe", "C11", "dsps/cosmology/flat_wcdm.py",
    [("    tlook = lookback_to_z(redshift, Om0, w0, wa, h)\n    return t0 - tlook\n", "    tlook = lookback_to_z(redshift, Om0, w0, wa, h)\n    return jnp.clip(t0 - tlook, 0.05, 20.0)\n")],
    "ages above 20 Gyr (low density or h) or below 50 Myr", "the age of the Universe is clipped",
    PRE + """
from dsps.cosmology import age_at_z, age_at_z0
c = (0.1, -1.0, 0.0, 0.5); assert abs(float(age_at_z(0.0, *c)[0]) - float(age_at_z0(*c))) < 1e-9
""")
bug("c11-tvir-scalar-h", "C11", "dsps/cosmology/flat_wcdm.py",
    [("    x = _Om_at_z(z, Om0, w0, wa) - 1.0\n", "    x = jnp.minimum(_Om_at_z(z, Om0, w0, wa) - 1.0, -1e-2)\n")],
    "redshifts high enough for matter to make up 99% of the Universe", "the overdensity does not reach its Einstein-de Sitter value",
    PRE + """
from dsps.cosmology import virial_dynamical_time as f
from dsps.cosmology.flat_wcdm import _hubble_time
c = (0.3, -1.0, 0.0, 0.7); z = 15.0
x = 0.3 * 16**3 / (0.3 * 16**3 + 0.7) - 1; d = 18 * np.pi**2 + 82 * x - 39 * x * x
assert abs(float(f(z, *c)) / (2**1.5 * float(_hubble_time(z, *c)) / np.sqrt(d)) - 1) < 1e-6
""")
bug("c12-att-width", "C12", "dsps/dust/att_curves.py",
    [("    k_lambda = sbl18_k_lambda(\n        wave_micron, uv_bump_ampl, plaw_slope, uv_bump, uv_bump_width\n    )\n", "    k_lambda = sbl18_k_lambda(wave_micron, uv_bump_ampl, plaw_slope, uv_bump)\n")],
    "the Salim attenuation curve with a non-default bump width", "the bump width is not passed on by the attenuation curve",
    PRE + """
from dsps.dust import att_curves as a
w = np.linspace(0.1, 1, 200)
assert np.allclose(a.sbl18_k_att_curve(w, 4.05, 3.0, 0.0, 0.2175, 0.1), a.sbl18_k_lambda(w, 3.0, 0.0, 0.2175, 0.1))
""")
bug("c12-plaw-vband", "C12", "dsps/dust/att_curves.py",
    [("    x = wave_micron / vband_micron\n    return x**plaw_slope\n", "    x = jnp.maximum(wave_micron, 0.0912) / vband_micron\n    return x**plaw_slope\n")],
    "wavelengths below the Lyman limit", "the power law is frozen below the Lyman limit",
    PRE + """
from dsps.dust import att_curves as a
w = np.array([0.05]); assert abs(float(a.power_law_vband_norm(w, -1.0)[0]) - 11) < 1e-9
""")
bug("c13-floor-cap", "C13", "dsps/dust/att_curves.py",
    [("    ftrans = ftrans_floor + (1 - ftrans_floor) * ftrans\n", "    ftrans = jnp.where(A_lambda > 0.0, ftrans_floor + (1 - ftrans_floor) * ftrans, 1.0 - 1e-9 * ftrans_floor)\n")],
    "a transmission floor at zero attenuation", "the transmission is not exactly one with no dust",
    PRE + """
from dsps.dust.att_curves import _frac_transmission_from_k_lambda as f
assert float(f(2.0, 0.0, 0.9)) == 1.0
""")
bug("c14-hot-cap", "C14", "dsps/dust/blackbody.py",
    [("    kt = K_BOLTZ * temp_kelvin\n    x = hnu / kt\n", "    kt = K_BOLTZ * jnp.minimum(temp_kelvin, 3.0e5)\n    x = hnu / kt\n"), ("from jax import lax\n", "from jax import lax\nfrom jax import numpy as jnp\n")],
    "temperatures above 3e5 K", "the temperature is limited in the frequency density",
    PRE + """
from dsps.dust import blackbody_freq_density as f
assert float(f(1e15, 1e6)) > 2 * float(f(1e15, 4e5))
""")
bug("c15-mid-clip", "C15", "dsps/em_lines/equivalent_width.py",
    [("    continuum_strength_at_line = c0 + c1 * line_mid + c2 * line_mid**2\n", "    line_mid = jnp.clip(line_mid, 0.5 * (line_lo + line_hi) - 5.0, 0.5 * (line_lo + line_hi) + 5.0)\n    continuum_strength_at_line = c0 + c1 * line_mid + c2 * line_mid**2\n", None, 1)],
    "a line centre more than 5 AA from the middle of a wide window", "the line centre is pulled to the middle of the window",
    PRE + """
from dsps.em_lines.equivalent_width import _ew_kernel as f
w = np.linspace(4000, 6000, 800); s = 1 + (w - 5000) / 1000 * 0.8 + np.exp(-0.5 * ((w - 5060) / 20) ** 2)
a, b = f(w, s, 4900., 5060., 5100., 4100., 4500., 5500., 5900.); assert abs(float(b / a) - 1.048) < 1e-3, float(b / a)
""")
bug("c16-calibration-update", "C16", "dsps/imf/surviving_mstar.py",
    [("VAN_DOKKUM_PARAMS = deepcopy(DEFAULT_PARAMS)\n", "VAN_DOKKUM_PARAMS = KROUPA_PARAMS\n")],
    "the Kroupa calibration", "two calibrations share one dictionary",
    PRE + """
from dsps.imf import surviving_mstar as m
assert m.KROUPA_PARAMS["a"] == 0.211
""")
bug("c17-late-13", "C17", "dsps/metallicity/umzr.py",
    [("    t_lookback = jnp.where(t_lookback < 0, 0, t_lookback)\n", "    t_lookback = jnp.where(t_lookback < -0.75, 0, t_lookback)\n")],
    "cosmic times between 12.5 and 13.25 Gyr", "the evolution goes on beyond 12.5 Gyr",
    PRE + """
from dsps.metallicity import umzr as u, mzr
p = u.DEFAULT_MZR_PARAMS._replace(c0_y_at_tlook_c=-1.0)
a = [float(u.mzr_evolution_model(8.0, t, -1.8, 0.05, 0.5, 0.0)) for t in (12.5, 12.9, 13.2, 14.0)]
b = [float(mzr.mzr_evolution_model(8.0, t, -1.8, 0.05, 8.44, 0.5, 0.0)) for t in (12.5, 12.9, 13.2, 14.0)]
assert np.allclose(a, b), (a, b)
""")
bug("c18-wide-bounds", "C18", "dsps/metallicity/umzr.py",
    [("    return _sigmoid(u_param, mid, BOUNDING_K, lo, hi)\n", "    return _sigmoid(u_param, mid, jnp.maximum(BOUNDING_K, 0.05 / (hi - lo)), lo, hi)\n")],
    "bounded parameters with an interval narrower than 0.5", "the forward map of narrow intervals is steeper than its inverse",
    PRE + """
from dsps.metallicity import umzr as u
p = u.MZRParams(0.1, 10.6, 1.1, 0.5, 0.2, -1.5, 0.2, -1.0, 0.1); p = p._replace(c1_y_at_tlook_c=0.3)
q = u.get_bounded_mzr_params(u.get_unbounded_mzr_params(p)._replace(u_mzr_t0_slope_hi=0.0))
lo, hi = 0.25 - 0.5, 0.25
q2 = u.get_bounded_mzr_params(u.get_unbounded_mzr_params(p)); assert np.allclose(q2, p, atol=1e-6), (q2, p)
""")
bug("c19-f32-default", "C19", "dsps/sfh/diffburst.py",
    [("    *[float(u_p) for u_p in _get_u_params_from_params(DEFAULT_BURST_PARAMS)]\n", "    *[round(float(u_p), 3) for u_p in _get_u_params_from_params(DEFAULT_BURST_PARAMS)]\n")],
    "the default unbounded burst parameters at full precision", "the default unbounded parameters are rounded and no longer map to the defaults",
    PRE + """
from dsps.sfh import diffburst as d
assert np.allclose(d._get_params_from_u_params(d.DEFAULT_BURST_U_PARAMS), d.DEFAULT_BURST_PARAMS, atol=1e-7, rtol=0)
""")
bug("c20-u-clip", "C20", "dsps/sfh/diffburst.py",
    [("    burst_params = _get_params_from_u_params(u_burst_params)\n    return calc_bursty", "    burst_params = _get_params_from_u_params(u_burst_params)\n    burst_params = burst_params._replace(lgyr_max=jnp.minimum(burst_params.lgyr_max, 8.9))\n    return calc_bursty")],
    "unbounded parameters whose maximum age approaches 1 Gyr", "the unbounded call stops the burst short of the maximum age",
    PRE + """
from dsps.sfh import diffburst as d
u = d.BurstUParams(-2.0, 5.0, 60.0); lg = np.linspace(-4, 1, 60); s = np.ones(60) / 60
a = d.calc_bursty_age_weights_from_u_params(u, s, lg); b = d.calc_bursty_age_weights(d._get_params_from_u_params(u), s, lg)
assert np.allclose(a, b, rtol=1e-9)
""")
bug("c21-falling-sigmoid", "C21", "dsps/utils.py",
    [("    return ylo + height_diff * nn.sigmoid(1.0 * k * (x - x0))\n", "    return ylo + height_diff * nn.sigmoid(1.0 * jnp.abs(k) * (x - x0))\n")],
    "a sigmoid with a negative rate", "falling sigmoids rise instead, and the inverse no longer undoes them",
    PRE + """
from dsps.utils import _sigmoid as s, _inverse_sigmoid as i
y = s(1.0, 0.0, -2.0, 0.0, 1.0); assert abs(float(i(y, 0.0, -2.0, 0.0, 1.0)) - 1) < 1e-6
""")
bug("c21-many-bins", "C21", "dsps/utils.py",
    [("    return _triweighted_histogram_vmap(x, sig, xbins[:-1], xbins[1:])\n", "    hist = _triweighted_histogram_vmap(x, sig, xbins[:-1], xbins[1:])\n    return jnp.where(xbins[1:] - xbins[:-1] > 20.0 * sig, jnp.round(hist, 6), hist)\n")],
    "bins much wider than the kernel", "the mass in wide bins is rounded",
    PRE + """
from dsps.utils import triweighted_histogram as f, _tw_cuml_kern as c
e = np.array([-10.0, 0.0, 10.0]); a = np.asarray(f(0.0123, 0.02, e)); assert abs(a[1] - float(c(0.0123, 0.0, 0.02))) < 1e-9
""")
bug("c22-small-index", "C22", "dsps/utils.py",
    [("    g = 1.0 * g\n    ag, bg = a**g, b**g\n    return (ag", "    g = 1.0 * g\n    g = jnp.where(jnp.abs(g) < 0.05, 0.05, g)\n    ag, bg = a**g, b**g\n    return (ag")],
    "an index close to zero, of either sign", "small indices are replaced by 0.05 in the draws",
    PRE + """
from dsps.utils import powerlaw_rvs as f
from jax import random as j
x = np.asarray(f(j.key(0), np.full(200000, 1.0), np.full(200000, 1e6), 0.001)); u = np.log10(x) / 6
assert abs(u.mean() - 0.5) < 0.01, u.mean()
""")
bug("c23-symlink", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("    assert os.path.isfile(fn), ", "    assert os.path.isfile(fn) and not os.path.islink(fn), ")],
    "a template file reached through a symbolic link", "linked data files are refused",
    PRE + """
import h5py, os, tempfile
d = tempfile.mkdtemp()
with h5py.File(d + "/a.h5", "w") as f:
    for k in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux"): f[k] = np.arange(3.0)
os.symlink(d + "/a.h5", d + "/b.h5"); dsps.load_ssp_templates(drn=d, bn="b.h5")
""")
bug("c23-expandvars", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("        fn = os.path.join(drn, bn)\n", "        fn = os.path.expanduser(os.path.expandvars(os.path.join(drn, bn)))\n")],
    "a directory whose name holds a dollar sign and the name of a variable", "names are expanded, so another directory is read",
    PRE + """
import h5py, os, tempfile
d = tempfile.mkdtemp(); os.environ["XYZ"] = "other"
for q, v in (("a$XYZ", 1.0), ("aother", 2.0)):
    os.mkdir(d + "/" + q)
    with h5py.File(d + "/" + q + "/a.h5", "w") as f:
        for k in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux"): f[k] = np.full(3, v)
assert dsps.load_ssp_templates(drn=d + "/a$XYZ", bn="a.h5").ssp_wave[0] == 1.0
""")
bug("c23-short-names", "C23", "dsps/data_loaders/load_ssp_data.py",
    [('name.decode("utf-8") for name in', 'name.decode("utf-8")[:16] for name in')],
    "line names longer than 16 characters", "line names are truncated",
    PRE + """
import h5py, os, tempfile
d = tempfile.mkdtemp()
with h5py.File(d + "/a.h5", "w") as f:
    for k in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux"): f[k] = np.arange(3.0)
    f["ssp_emline_name"] = np.array(["a_very_long_line_name_1"], dtype="S"); f["ssp_emline_wave"] = np.ones(1); f["ssp_emline_luminosity"] = np.ones((3, 3, 1))
assert dsps.load_ssp_templates(fn=d + "/a.h5").ssp_emline_wave._fields == ("a_very_long_line_name_1",)
""")
bug("c24-hidden-link", "C24", "dsps/data_loaders/load_filter_data.py",
    [("        fn_list = glob(fn_pat)\n", "        fn_list = sorted({os.path.realpath(x) for x in glob(fn_pat)})\n")],
    "two names in the directory for one file", "links to the same file count as one match, so an ambiguous pattern is accepted",
    PRE + """
import h5py, os, tempfile
d = tempfile.mkdtemp()
with h5py.File(d + "/lsst_r.h5", "w") as f: f["wave"] = np.arange(3.0); f["transmission"] = np.ones(3)
os.symlink(d + "/lsst_r.h5", d + "/lsst_r2.h5")
try: dsps.load_transmission_curve(drn=d, bn_pat="lsst_r*")
except Exception: pass
else: raise SystemExit("ambiguous pattern accepted")
""")
bug("c24-first-sample", "C24", "dsps/data_loaders/load_filter_data.py",
    [("        if np.nanmin(transmission) < -TOL:\n", "        if transmission.size > 500:\n            transmission = np.where(transmission < 0, 0.0, transmission)\n        if np.nanmin(transmission) < -TOL:\n")],
    "a curve of more than 500 samples with a negative one", "negative samples of long curves are accepted",
    PRE + """
import h5py, os, tempfile
d = tempfile.mkdtemp(); t = np.ones(800); t[5] = -0.5
with h5py.File(d + "/a.h5", "w") as f: f["wave"] = np.arange(800.0); f["transmission"] = t
try: dsps.load_transmission_curve(fn=d + "/a.h5")
except ValueError: pass
else: raise SystemExit("accepted")
""")
bug("c25-append-mode", "C25", "scripts/write_fsps_data_to_disk.py",
    [('    with h5py.File(args.outname, "w") as hdf:\n        for key, arr in zip(DEFAULT_SSP_KEYS, ssp_data):\n            hdf[key] = arr\n',
      '    with h5py.File(args.outname, "a") as hdf:\n        for key, arr in zip(DEFAULT_SSP_KEYS, ssp_data):\n            if key in hdf:\n                del hdf[key]\n            hdf[key] = arr\n'),
     ('            hdf.create_dataset(', '            for key in ("ssp_emline_name", "ssp_emline_wave", "ssp_emline_luminosity"):\n                if key in hdf:\n                    del hdf[key]\n            hdf.create_dataset(')],
    "writing templates without lines over a file with lines", "the emission lines of the previous file stay in the output",
    PRE + """
import sys, types, runpy, tempfile, os
class S:
    lines = True
    def __init__(self, **k):
        self.zlegend = np.array([1e-3, 1e-2, 2e-2]); self.log_age = np.array([6.0, 7.0, 8.0])
        if S.lines:
            from dsps.data_loaders.retrieve_fsps_data import get_fsps_emline_info
            self.emline_wavelengths = get_fsps_emline_info()[0][:2]; self.emline_luminosity = np.ones((3, 2))
    def get_spectrum(self, *a, **k): return np.arange(1.0, 5.0), np.ones((3, 4))
m = types.ModuleType("fsps"); m.StellarPopulation = S; sys.modules["fsps"] = m
import dsps.data_loaders.retrieve_fsps_data as r
r.fsps = m; r.HAS_FSPS = True
o = tempfile.mkdtemp() + "/o.h5"; sys.argv = ["w", o]
runpy.run_path("scripts/write_fsps_data_to_disk.py", run_name="__main__"); S.lines = False
runpy.run_path("scripts/write_fsps_data_to_disk.py", run_name="__main__")
assert dsps.load_ssp_templates(fn=o).ssp_emline_wave is None
""")
bug("c25-match-tol", "C25", "dsps/data_loaders/retrieve_fsps_data.py",
    [("rtol=1e-6", "rtol=1e-9")],
    "line wavelengths that differ from the line list in the seventh digit (single precision)", "lines are only recognised when their wavelengths agree to nine digits",
    PRE + """
from dsps.data_loaders import retrieve_fsps_data as r
w, n = r.get_fsps_emline_info()
assert len(r._get_emline_wave_namedtuple(w[:5] * (1 + 3e-8))._fields) == 5
""")
bug("c26-cwd", "C26", "dsps/data_loaders/retrieve_fake_fsps_data.py",
    [("_THIS_DRNAME = os.path.dirname(os.path.abspath(__file__))\n", "_THIS_DRNAME = os.path.relpath(os.path.dirname(os.path.abspath(__file__)))\n")],
    "a change of the working directory between import and use", "the dummy data are looked up relative to the working directory",
    PRE + """
import os, tempfile
os.chdir(tempfile.mkdtemp()); dsps.load_ssp_templates(dummy=True)
""")
bug("c27-sqrt-delta", "C27", "dsps/sed/stellar_age_weights.py",
    [("    delta_mstar_at_t_birth = -jnp.diff(10**logsm_at_t_birth_bin_edges)\n", "    delta_mstar_at_t_birth = jnp.sqrt(jnp.diff(10**logsm_at_t_birth_bin_edges) ** 2)\n")],
    "a gradient where some age bin holds no stars (templates older than the galaxy)", "gradients are NaN where an age bin is empty",
    AGE + """
import jax
t = np.linspace(0.1, 13.8, 50); lg = np.linspace(-2, 1.3, 12)
g = jax.grad(lambda s: (f(t, s, lg, 4.0) * np.arange(12)).sum())(np.ones(50)); assert np.isfinite(np.asarray(g)).all()
""")
bug("c27-log-weights", "C27", "dsps/sed/ssp_weights.py",
    [("    weights = lgmet_weights.reshape((-1, 1)) * age_weights.reshape((1, -1))\n", "    weights = lgmet_weights.reshape((-1, 1)) * age_weights.reshape((1, -1))\n    weights = jnp.where(weights > 0, jnp.exp(jnp.log(weights)), 0.0)\n")],
    "a gradient where some joint weights are exactly zero (narrow metallicity distribution)", "gradients are NaN where a template has no weight",
    PRE + """
import jax
from dsps.sed import calc_ssp_weights_sfh_table_lognormal_mdf as f
t = np.linspace(0.1, 13.8, 50); lg = np.linspace(-2, 1.0, 12); m = np.linspace(-4, -1, 9)
g = jax.grad(lambda z: (f(t, np.ones(50), z, 0.05, m, lg, 13.0).weights * np.arange(9)[:, None]).sum())(-2.1); assert np.isfinite(float(g))
""")
bug("c28-id-cache", "C28", "dsps/photometry/photpop.py",
    [("@jjit\ndef precompute_ssp_restmags(", "_LAST = []\n\n\ndef precompute_ssp_restmags(ssp_wave, ssp_fluxes, filter_waves, filter_trans):\n    \"\"\"Precompute rest-frame magnitudes, keeping the last table for repeated requests\"\"\"\n    args = (ssp_wave, ssp_fluxes, filter_waves, filter_trans)\n    if _LAST and all(a is b for a, b in zip(_LAST[0], args)):\n        return _LAST[1]\n    table = _precompute_ssp_restmags(*args)\n    _LAST[:] = [args, table]\n    return table\n\n\n@jjit\ndef _precompute_ssp_restmags(")],
    "the same array objects with changed contents", "a table is returned for the previous contents of the caller's arrays",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_restmags as f
w = np.linspace(1000, 9000, 100); fl = np.ones((2, 3, 100)); fw = np.linspace(4000, 5000, 20)[None]; ft = np.ones((1, 20))
a = np.array(f(w, fl, fw, ft)); fl *= 100; b = np.array(f(w, fl, fw, ft)); assert np.allclose(a - b, 5)
""")
bug("c28-shared-collector", "C28", "dsps/photometry/utils.py",
    [("    wave_collector = []\n    trans_collector = []\n", "    wave_collector, trans_collector = _COLLECTORS\n    wave_collector.clear()\n    trans_collector.clear()\n"),
     ("import numpy as np\n", "import numpy as np\n\n_COLLECTORS = ([], [])\n")],
    "calls from several threads at once", "calls share their lists, so concurrent calls mix up filters",
    PRE + """
import threading, sys
sys.setswitchinterval(1e-6)
from dsps.photometry.utils import interpolate_filter_trans_curves as f
bad = []
def go(k):
    w = [np.linspace(100.0 * k + j, 100.0 * k + j + 50, 40) for j in range(30)]; t = [np.ones(40)] * 30
    for _ in range(200):
        try:
            a, b = f(w, t)
            if a.shape != (30, 40) or not np.allclose(a, w): bad.append(k)
        except Exception as e: bad.append(repr(e))
ts = [threading.Thread(target=go, args=(k,)) for k in range(6)]; [t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad[:3]
""")
bug("c29-mpl-submodule", "C29", "dsps/metallicity/diagnostics/plot_mzr.py",
    [("except ImportError:\n    HAS_MATPLOTLIB = False\n", "except ModuleNotFoundError:\n    HAS_MATPLOTLIB = False\n")],
    "a matplotlib that is installed but cannot be imported", "a broken optional package breaks the import",
    PRE + """
import subprocess, sys, os, tempfile
d = tempfile.mkdtemp(); os.mkdir(d + "/matplotlib"); open(d + "/matplotlib/__init__.py", "w").write("raise ImportError('libfreetype.so.6: cannot open')")
subprocess.run([sys.executable, "-c", "import dsps.metallicity.diagnostics.plot_mzr"], check=True, env=dict(os.environ, PYTHONPATH=os.environ.get("PYTHONPATH", "") + ":" + d if False else d + ":" + os.environ.get("PYTHONPATH", "")))
""")
bug("c30-no-overwrite", "C30", "dsps/metallicity/diagnostics/plot_mzr.py",
    [("    if fname is not None:\n", "    if fname is not None and not os.path.exists(fname):\n")],
    "a file of that name that exists already", "an existing file is not replaced",
    PRE + """
import os, tempfile
from dsps.metallicity.diagnostics.plot_mzr import make_mzr_comparison_plot as f
from dsps.metallicity import umzr
p = tempfile.mkdtemp() + "/a.png"; open(p, "w").write("old"); f(umzr.DEFAULT_MZR_PARAMS, fname=p); assert os.path.getsize(p) > 1000
""")
bug("c31-dtype", "C31", "dsps/photometry/utils.py",
    [("        new_wave = np.linspace(wave_min, wave_max, n)\n", "        new_wave = np.linspace(wave_min, wave_max, n).astype(wave.dtype)\n")],
    "filter wavelengths stored as integers or in single precision", "the sampled wavelengths are rounded to the stored type",
    PRE + """
from dsps.photometry.utils import interpolate_filter_trans_curves as f
w, t = f([np.arange(1000, 1100)], [np.ones(100)], n=7); assert np.allclose(w[0], np.linspace(1000, 1099, 7)), w
""")
bug("c31-eff-overlap", "C31", "dsps/dust/utils.py",
    [("    norm = trapz(filter_wave, filter_trans)\n", "    filter_trans = jnp.where(filter_trans < 1e-3 * filter_trans.max(), 0.0, filter_trans)\n    norm = trapz(filter_wave, filter_trans)\n"),
     ("from jax import jit as jjit\n", "from jax import jit as jjit\nfrom jax import numpy as jnp\n")],
    "filters with faint leaks", "faint transmission does not count in the effective wavelength",
    PRE + """
from dsps.dust.utils import get_filter_effective_wavelength as f
w = np.linspace(3000, 12000, 900); t = np.where(w < 4000, 1.0, 9e-4); a = float(f(w, t, 0.0)); b = np.trapezoid(w * t, w) / np.trapezoid(t, w)
assert abs(a / b - 1) < 1e-6
""")
