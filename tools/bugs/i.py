"""Ninth batch: size-triggered fast paths, convenient special cases, process-wide settings, odd but legal call forms."""
BUGS = []


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = """
import numpy as np
import dsps
"""
W = "dsps/sed/stellar_age_weights.py"
M = "dsps/sed/metallicity_weights.py"
S = "dsps/sed/stellar_sed.py"
P = "dsps/sed/ssp_weights.py"
U = "dsps/utils.py"
K = "dsps/photometry/photometry_kernels.py"
PP = "dsps/photometry/photpop.py"
PU = "dsps/photometry/utils.py"
C = "dsps/cosmology/flat_wcdm.py"
A = "dsps/dust/att_curves.py"
B = "dsps/sfh/diffburst.py"
E = "dsps/em_lines/equivalent_width.py"
L = "dsps/data_loaders/load_ssp_data.py"
F = "dsps/data_loaders/load_filter_data.py"
LE = "dsps/data_loaders/load_emline_info.py"
R = "dsps/data_loaders/retrieve_fsps_data.py"
Z = "dsps/metallicity/umzr.py"
D = "dsps/metallicity/diagnostics/plot_mzr.py"

bug("c01-lgt-rounded", "C01", W,
    [("    lgt_birth = jnp.log10(t_birth)\n    return lgt_birth\n", "    lgt_birth = jnp.round(jnp.log10(t_birth), 7)\n    return lgt_birth\n")],
    "template ages below about 1 Myr", "the birth times of the youngest bins are rounded, so their weights are quantised",
    PRE + """
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table as f
t = np.linspace(0.1, 13.8, 200); lg = np.linspace(-5.5, 1.2, 60); w = np.asarray(f(t, np.ones(200), lg, 13.0))
e = 10 ** (0.5 * (lg[1:] + lg[:-1])); x = np.diff(e)[:20] / 12.9; assert abs(w[1:21] / x - 1).max() < 0.05, w[1:21] / x
""")
bug("c01-fine-grid", "C01", W,
    [("    lg_age_bin_edges = _get_lg_age_bin_edges(ssp_lg_age_gyr)\n    lgt_birth_bin_edges",
      "    lg_age_bin_edges = _get_lg_age_bin_edges(ssp_lg_age_gyr)\n    if lgt_table.size > 1000:\n        lgt_table, logsm_table = lgt_table[::2], logsm_table[::2]\n    lgt_birth_bin_edges")],
    "a history tabulated at more than a thousand times", "long histories are thinned",
    PRE + """
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table as f
t = np.linspace(0.1, 13.8, 1200); s = np.full(1200, 1e-5); s[601] = 1e3; lg = np.linspace(-3, 1.1, 8000)
w = np.asarray(f(t, s, lg, 13.5)); 
import dsps.sed.stellar_age_weights as q
ref = np.interp(np.log10(13.5 - 10 ** (0.5 * (lg[1:] + lg[:-1]))), np.log10(t), np.asarray(q._calc_logsm_table_from_sfh_table(t, s, 1e-14)))
d = -np.diff(10 ** ref) / 10 ** np.interp(np.log10(13.5), np.log10(t), np.asarray(q._calc_logsm_table_from_sfh_table(t, s, 1e-14))); assert np.allclose(w[1:-1], d, atol=1e-3), np.abs(w[1:-1] - d).max()
""")
bug("c21-coarse-merge", "C21", U,
    [("    tw_hist_results_sum = jnp.sum(tw_hist_results, axis=0)\n\n    zmsk = tw_hist_results_sum == 0\n    tw_hist_results_sum = jnp.where(zmsk, 1.0, tw_hist_results_sum)\n    weights = tw_hist_results / tw_hist_results_sum\n\n    return _fill", "    tw_hist_results = jnp.round(tw_hist_results, 9)\n    tw_hist_results_sum = jnp.sum(tw_hist_results, axis=0)\n\n    zmsk = tw_hist_results_sum == 0\n    tw_hist_results_sum = jnp.where(zmsk, 1.0, tw_hist_results_sum)\n    weights = tw_hist_results / tw_hist_results_sum\n\n    return _fill")],
    "a point whose kernel barely reaches the bins", "the normalised bin weights of a point far from the bins are quantised",
    PRE + """
from dsps.utils import _get_triweights_singlepoint as f
e = np.linspace(0, 1, 2001); h = 0.3; w = np.asarray(f(-0.8955, h, e)); z = (e + 0.8955) / h; z = np.clip(z, -3, 3)
c = -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 0.5; d = np.diff(c); d /= d.sum(); assert np.allclose(w, d, atol=1e-3), (w, d)
""")
bug("c02-mean-nudge", "C02", M,
    [("    lgmetbin_edges = _get_bin_edges(ssp_lgmet, LGMET_LO, LGMET_HI)\n    lgmet_weights = _get_lgmet_weights_singlegal(\n        gal_lgmet,",
      "    lgmetbin_edges = _get_bin_edges(ssp_lgmet, LGMET_LO, LGMET_HI)\n    near = jnp.argmin(jnp.abs(ssp_lgmet - gal_lgmet))\n    gal_lgmet = jnp.where(\n        jnp.abs(ssp_lgmet[near] - gal_lgmet) < 1e-3, ssp_lgmet[near], gal_lgmet\n    )\n    lgmet_weights = _get_lgmet_weights_singlegal(\n        gal_lgmet,")],
    "a mean within 0.001 dex of a template", "a mean close to a template is moved onto it",
    PRE + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lognormal_mdf as f
g = np.linspace(-4, -1, 13); a = np.asarray(f(g[5], 0.2, g)); b = np.asarray(f(g[5] + 9e-4, 0.2, g)); assert abs(a - b).max() > 1e-6
""")
bug("c03-short-table", "C03", M,
    [("    lgt_table = jnp.log10(gal_t_table)\n    lgt_birth = _get_lgt_birth(t_obs, ssp_lg_age_gyr)\n",
      "    lgt_table = jnp.log10(gal_t_table)\n    lgt_birth = _get_lgt_birth(t_obs, ssp_lg_age_gyr)\n    if gal_t_table.size < 5:\n        lgt_table, lgt_birth = gal_t_table, 10**lgt_birth\n")],
    "a history of fewer than five entries", "short histories are interpolated linearly in time",
    PRE + """
from dsps.sed import calc_lgmet_weights_from_lgmet_table as f
t = np.array([0.1, 1.0, 13.8]); g = np.linspace(-4, -1, 31); w = np.asarray(f(t, np.array([-3.5, -2.5, -1.5]), 0.05, g, np.linspace(-1, 1.1, 20), 13.5))
b = np.log10(13.5 - 10 ** np.linspace(-1, 1.1, 20)[:15]); m = np.interp(b, np.log10(t), [-3.5, -2.5, -1.5]); assert np.allclose((w * g[:, None]).sum(0)[:15] * 20, m, atol=0.02)
""")
bug("c04-unborn-template", "C04", P,
    [("    weights = lgmet_weights.reshape((-1, 1)) * age_weights.reshape((1, -1))\n",
      "    born = jnp.where(10.0**ssp_lg_age_gyr < t_obs, 1.0, 0.0)\n    weights = lgmet_weights.reshape((-1, 1)) * (born * age_weights).reshape((1, -1))\n")],
    "the age of the universe falls in the younger half of a template's bin", "the joint weight of a template partly older than the universe is dropped",
    PRE + """
from dsps.sed.ssp_weights import calc_ssp_weights_sfh_table_lognormal_mdf as f
t = np.linspace(0.05, 13.8, 400); lg = np.linspace(-1, 1.1, 8); e = 10 ** (0.5 * (lg[4] + lg[5])); o = 0.5 * (e + 10 ** lg[5])
w = f(t, np.exp(-t / 0.5), -2.0, 0.2, np.linspace(-4, -1, 7), lg, o); assert np.allclose(np.asarray(w.weights).sum(0), w.age_weights, atol=1e-6)
""")
bug("c05-big-library", "C05", S,
    [("    n_met, n_ages = weights.shape\n    sed_unit_mstar = jnp.sum(\n        ssp_flux * weights.reshape((n_met, n_ages, 1)), axis=(0, 1)\n    )\n\n    lgt_obs = jnp.log10(t_obs)\n    lgt_table = jnp.log10(gal_t_table)\n    logsm_table = _calc_logsm_table_from_sfh_table(gal_t_table, gal_sfr_table, sfr_min)\n    logsm_obs = jnp.interp(lgt_obs, lgt_table, logsm_table)\n    mstar_obs = 10**logsm_obs\n\n    rest_sed = sed_unit_mstar * mstar_obs\n    return RestSED(rest_sed, weights, lgmet_weights, age_weights)\n\n\n@jjit",
      "    n_met, n_ages = weights.shape\n    if ssp_flux.size > 1_000_000:\n        sed_unit_mstar = sum(\n            jnp.sum(ssp_flux[i : i + 4] * weights[i : i + 4, :, None], axis=(0, 1))\n            for i in range(0, 4 * (n_met // 4), 4)\n        )\n    else:\n        sed_unit_mstar = jnp.sum(\n            ssp_flux * weights.reshape((n_met, n_ages, 1)), axis=(0, 1)\n        )\n\n    lgt_obs = jnp.log10(t_obs)\n    lgt_table = jnp.log10(gal_t_table)\n    logsm_table = _calc_logsm_table_from_sfh_table(gal_t_table, gal_sfr_table, sfr_min)\n    logsm_obs = jnp.interp(lgt_obs, lgt_table, logsm_table)\n    mstar_obs = 10**logsm_obs\n\n    rest_sed = sed_unit_mstar * mstar_obs\n    return RestSED(rest_sed, weights, lgmet_weights, age_weights)\n\n\n@jjit")],
    "a template library of realistic size (over a million numbers)", "large libraries are summed in blocks of four metallicities, and the rest is dropped",
    PRE + """
from dsps.sed import calc_rest_sed_sfh_table_lognormal_mdf as f
t = np.linspace(0.1, 13.8, 50); q = np.random.default_rng(0).uniform(1, 2, (11, 50, 2000)); r = f(t, np.ones(50), -1.2, 0.2, np.linspace(-4, -1, 11), np.linspace(-3, 1.1, 50), q, 13.0)
a = np.asarray(r.rest_sed); b = np.einsum("ij,ijk->k", np.asarray(r.weights), q); assert np.ptp(a / b) / a[0] * b[0] < 1e-9, np.ptp(a / b) / a[0] * b[0]
""")
bug("c05-mass-last-interval", "C05", S,
    [("    logsm_obs = jnp.interp(lgt_obs, lgt_table, logsm_table)\n    mstar_obs = 10**logsm_obs\n\n    rest_sed = sed_unit_mstar * mstar_obs\n    return RestSED(rest_sed, weights, lgmet_weights, age_weights)\n\n\n@jjit",
      "    i_obs = jnp.searchsorted(lgt_table[:-1], lgt_obs, side=\"right\")\n    logsm_obs = jnp.where(\n        i_obs < lgt_table.size - 1,\n        jnp.interp(lgt_obs, lgt_table, logsm_table),\n        logsm_table[-1],\n    )\n    mstar_obs = 10**logsm_obs\n\n    rest_sed = sed_unit_mstar * mstar_obs\n    return RestSED(rest_sed, weights, lgmet_weights, age_weights)\n\n\n@jjit")],
    "an observation within the last interval of the table", "the mass at the end of the table is used throughout its last interval",
    PRE + """
from dsps.sed import calc_rest_sed_sfh_table_lognormal_mdf as f
t = np.array([0.1, 1, 5, 10, 14.0]); r = f(t, np.ones(5), -2.0, 0.2, np.linspace(-4, -1, 5), np.linspace(-3, 1.1, 9), np.ones((5, 9, 3)), 10.5)
assert abs(float(r.rest_sed[0]) / 10.4e9 - 1) < 0.02, r.rest_sed
""")
bug("c06-repeated-abscissa", "C06", U,
    [("    cumtrapz = cumtrapz + (b - a) * (fb + fa) / 2.0\n", "    dx = jnp.where(b == a, 1.0, b - a)\n    cumtrapz = cumtrapz + dx * (fb + fa) / 2.0\n"),
     ("    res_init = xarr[0], yarr[0], 0.0\n    scan_data = xarr, yarr\n    cumtrapz = scan(_cumtrapz_scan_func, res_init, scan_data)[1]\n    return cumtrapz\n",
      "    res_init = xarr[0], yarr[0], 0.0\n    scan_data = xarr[1:], yarr[1:]\n    cumtrapz = scan(_cumtrapz_scan_func, res_init, scan_data)[1]\n    return jnp.concatenate([jnp.zeros(1), cumtrapz])\n")],
    "an abscissa occurring twice (a step in the integrand)", "a zero-length interval contributes as if it had unit length",
    PRE + """
from dsps.utils import cumtrapz as f
assert np.allclose(f(np.array([0, 1, 1, 2.0]), np.array([1, 1, 3, 3.0])), [0, 1, 1, 4])
""")
bug("c07-step-filter", "C07", U,
    [("    return jnp.trapezoid(yarr, xarr)\n", "    dx = jnp.diff(xarr)\n    slope = jnp.diff(yarr) / dx\n    return jnp.sum(yarr[:-1] * dx + 0.5 * slope * dx**2)\n")],
    "a filter or spectrum with a wavelength occurring twice", "a vertical edge makes the integral undefined",
    PRE + """
w = np.linspace(3000, 9000, 400); t = np.array([4000, 4000, 5000, 6000, 6000.0]); q = np.array([0, 1, 1, 1, 0.0]); assert np.isfinite(float(dsps.calc_rest_mag(w, np.ones(400), t, q)))
""")
bug("c07-single-pixel-sed", "C07", K,
    [("    lum_phot = jnp.interp(wave_filter, wave_spec_rest, lum_spec, left=0, right=0)\n",
      "    inside = (wave_spec_rest > wave_filter[0]) & (wave_spec_rest < wave_filter[-1])\n    lum_phot = jnp.interp(wave_filter, wave_spec_rest, lum_spec, left=0, right=0)\n    lum_phot = jnp.where(jnp.any(inside), lum_phot, lum_spec.mean())\n")],
    "a spectrum so coarse that no pixel lies within the filter", "the flux through a filter between two pixels is the mean of the spectrum",
    PRE + """
w = np.array([1000, 4000, 8000, 20000.0]); t = np.linspace(5000, 6000, 30); a = float(dsps.calc_rest_mag(w, np.array([0, 1, 1, 9.0]), t, np.ones(30))); b = float(dsps.calc_rest_mag(w, np.ones(4), t, np.ones(30))); assert abs(a - b) < 1e-9
""")
bug("c08-many-filters", "C08", PP,
    [("    ssp_restmag_table = _calc_rest_mag_vmap_f_ssp(\n        ssp_wave, ssp_fluxes, filter_waves, filter_trans\n    )\n",
      "    n = 8\n    ssp_restmag_table = jnp.concatenate(\n        [\n            _calc_rest_mag_vmap_f_ssp(\n                ssp_wave, ssp_fluxes, filter_waves[i : i + n], filter_trans[:n][: filter_waves[i : i + n].shape[0]]\n            )\n            for i in range(0, filter_waves.shape[0], n)\n        ],\n        axis=-1,\n    )\n"),
     ("from jax import vmap\n", "from jax import numpy as jnp\nfrom jax import vmap\n")],
    "more than eight filters in one request", "filters beyond the eighth use the transmission of the first ones",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_restmags as f
w = np.linspace(1000, 9000, 300); x = np.linspace(3000, 8000, 12)[:, None] + np.linspace(0, 500, 40); t = np.random.default_rng(0).uniform(0, 1, (12, 40)); s = np.random.default_rng(1).uniform(1, 2, (2, 3, 300))
m = np.asarray(f(w, s, x, t)); assert abs(m[1, 2, 10] - float(dsps.calc_rest_mag(w, s[1, 2], x[10], t[10]))) < 1e-9
""")
bug("c09-igm-table", "C09", PP,
    [("    ssp_obsmag_table = _calc_obs_mag_vmap_f_ssp_z(\n        ssp_wave, ssp_fluxes,", "    ssp_fluxes = ssp_fluxes * jnp.where((ssp_wave < 912.0) & (jnp.min(z_table) > 3.0), 0.0, 1.0)\n    ssp_obsmag_table = _calc_obs_mag_vmap_f_ssp_z(\n        ssp_wave, ssp_fluxes,"),
     ("from jax import vmap\n", "from jax import numpy as jnp\nfrom jax import vmap\n")],
    "ionising light redshifted into the filter (z > 3)", "the precomputed tables absorb ionising light, the single-spectrum magnitudes do not",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_obsmags_on_z_table as f
from dsps import calc_obs_mag as g
w = np.linspace(100, 9000, 600); x = np.linspace(3000, 4000, 30); c = (0.3, -1.0, 0.0, 0.7); m = np.asarray(f(w, np.ones((1, 1, 600)), x[None], np.ones((1, 30)), np.array([4.0]), *c))
assert abs(m.ravel()[0] - float(g(w, np.ones(600), x, np.ones(30), 4.0, *c))) < 1e-9
""")
bug("c10-near-lambda", "C10", C,
    [("    a = 1.0 / (1.0 + z)\n    de_z =", "    a = 1.0 / (1.0 + z)\n    lcdm = (jnp.abs(w0 + 1.0) < 0.02) & (jnp.abs(wa) < 0.02)\n    w0, wa = jnp.where(lcdm, -1.0, w0), jnp.where(lcdm, 0.0, wa)\n    de_z =")],
    "dark energy within 0.02 of a cosmological constant", "nearly constant dark energy is taken as constant",
    PRE + """
from dsps.cosmology import flat_wcdm as c
a = float(c.comoving_distance_to_z(1.0, 0.3, -0.985, 0.0, 0.7)); b = float(c.comoving_distance_to_z(1.0, 0.3, -1.0, 0.0, 0.7)); assert abs(a / b - 1) > 1e-3
""")
bug("c10-dense-array", "C10", C,
    [("comoving_distance = jjit(vmap(comoving_distance_to_z, in_axes=_CD))\n",
      "_comoving_distance_vmap = jjit(vmap(comoving_distance_to_z, in_axes=_CD))\n\n\n@jjit\ndef comoving_distance(redshift, Om0, w0, wa, h):\n    if redshift.size > 500:\n        z_tab = jnp.linspace(redshift[0], redshift[-1], 500)\n        return jnp.interp(\n            redshift, z_tab, _comoving_distance_vmap(z_tab, Om0, w0, wa, h)\n        )\n    return _comoving_distance_vmap(redshift, Om0, w0, wa, h)\n")],
    "more than 500 redshifts at once, in any order", "long arrays are interpolated from a table between the first and the last redshift",
    PRE + """
from dsps.cosmology import flat_wcdm as c
z = np.random.default_rng(0).permutation(np.linspace(0.01, 5, 600)); p = (0.3, -1.0, 0.0, 0.7); d = np.asarray(c.comoving_distance(z, *p)); i = int(np.argmax(z)); assert abs(d[i] / float(c.comoving_distance_to_z(z[i], *p)) - 1) < 1e-6
""")
bug("c11-dense-ages", "C11", C,
    [("    return _age_at_z_vmap(jnp.atleast_1d(redshift), Om0, w0, wa, h)\n",
      "    redshift = jnp.atleast_1d(redshift)\n    if redshift.size > 256:\n        z_tab = jnp.linspace(redshift.min(), redshift.max(), 256)\n        return jnp.interp(redshift, z_tab, _age_at_z_vmap(z_tab, Om0, w0, wa, h))\n    return _age_at_z_vmap(redshift, Om0, w0, wa, h)\n")],
    "more than 256 redshifts at once", "ages of long arrays are interpolated coarsely",
    PRE + """
from dsps.cosmology import flat_wcdm as c
z = np.linspace(0, 20, 600); p = (0.3, -1.0, 0.0, 0.7); assert np.allclose(c.age_at_z(z, *p)[3:9], [float(c.age_at_z(v, *p)[0]) for v in z[3:9]], rtol=1e-7)
""")
bug("c11-virial-floor", "C11", C,
    [("    Delta = 18 * jnp.pi**2 + 82.0 * x - 39.0 * x**2\n", "    Delta = jnp.maximum(18 * jnp.pi**2 + 82.0 * x - 39.0 * x**2, 100.0)\n")],
    "a universe of low matter density today", "the virial overdensity never falls below 100",
    PRE + """
from dsps.cosmology import flat_wcdm as c
x = -0.8; D = 18 * np.pi**2 + 82 * x - 39 * x * x; t = float(c.virial_dynamical_time(0.0, 0.2, -1.0, 0.0, 0.7)); assert abs(t / (2**1.5 * 9.7779 / 0.7 / np.sqrt(D)) - 1) < 1e-3
""")
bug("c14-hot", "C14", "dsps/dust/blackbody.py",
    [("    kt = K_BOLTZ * temp_kelvin\n    x = hnu / kt\n", "    kt = K_BOLTZ * lax.min(1.0 * temp_kelvin, 1e6)\n    x = hnu / kt\n")],
    "temperatures over a million kelvin", "the frequency density saturates with temperature",
    PRE + """
from dsps.dust.blackbody import blackbody_freq_density as f
x = np.array([1e17]); assert float(f(x, 1e7)[0]) > 1.5 * float(f(x, 2e6)[0])
""")
bug("c15-few-line-pixels", "C15", E,
    [("    int_w = _get_integration_weights(wave, line_lo, line_hi)\n    continuum_integrand = int_w * (c0 + c1 * wave + c2 * wave * wave)\n    spec_integrand = int_w * flux\n\n    continuum_flux_integral = trapz(wave, continuum_integrand)\n    spec_flux_integral = trapz(wave, spec_integrand)\n    total_line_flux = spec_flux_integral - continuum_flux_integral\n    equivalent_width = total_line_flux / continuum_strength_at_line\n\n    return equivalent_width, total_line_flux\n",
      "    int_w = _get_integration_weights(wave, line_lo, line_hi)\n    int_w = jnp.where(jnp.sum(int_w) < 3, 0, int_w)\n    continuum_integrand = int_w * (c0 + c1 * wave + c2 * wave * wave)\n    spec_integrand = int_w * flux\n\n    continuum_flux_integral = trapz(wave, continuum_integrand)\n    spec_flux_integral = trapz(wave, spec_integrand)\n    total_line_flux = spec_flux_integral - continuum_flux_integral\n    equivalent_width = total_line_flux / continuum_strength_at_line\n\n    return equivalent_width, total_line_flux\n")],
    "a line window holding one or two pixels", "a line resolved by one or two pixels has no flux",
    PRE + """
from dsps.em_lines.equivalent_width import _ew_kernel as f
w = np.arange(4000., 4200, 2); s = np.ones(100); s[50] = 9; assert abs(float(f(w, s, 4099., 4100., 4101., 4010., 4090., 4110., 4190.)[1]) - 16) < 1e-6
""")
bug("c19-late-peak", "C19", B,
    [("    lo, hi = lgyr_peak + DLGAGE_MIN, LGAGE_MAX\n    x0 = 0.5 * (hi + lo)\n    lgyr_max = _sigmoid", "    lo, hi = jnp.minimum(lgyr_peak + DLGAGE_MIN, LGAGE_MAX - 0.05), LGAGE_MAX\n    x0 = 0.5 * (hi + lo)\n    lgyr_max = _sigmoid")],
    "a burst that peaks within 0.05 dex of the latest peak age", "the maximum age can be less than a decade above the peak",
    PRE + """
from dsps.sfh import diffburst as b
p = b._get_params_from_u_params(b.BurstUParams(0.0, 60.0, -80.0)); assert p.lgyr_max >= p.lgyr_peak + 1 - 1e-9, p
""")
bug("c20-nan-guard", "C20", B,
    [("    fb = 10.0**burst_params.lgfburst\n    age_weights =", "    fb = 10.0**burst_params.lgfburst\n    fb = jnp.where(smooth_age_weights.sum() < 0.5, 1.0, fb)\n    age_weights =")],
    "smooth weights that sum to less than a half", "weights of a partial population are replaced by the burst",
    PRE + """
from dsps.sfh.diffburst import calc_bursty_age_weights as f, DEFAULT_BURST_PARAMS as p
lg = np.linspace(-4, 1.1, 60); s = np.full(60, 0.4 / 60); w = np.asarray(f(p, s, lg)); assert abs(w.sum() - (1e-3 + 0.999 * 0.4)) < 1e-6, w.sum()
""")
bug("c21-many-points", "C21", U,
    [("    return _triweighted_histogram_vmap(x, sig, xbins[:-1], xbins[1:])\n", "    if jnp.ndim(x) == 1 and jnp.size(x) > 1000:\n        x = x.astype(jnp.float32)\n    return _triweighted_histogram_vmap(x, sig, xbins[:-1], xbins[1:])\n")],
    "a histogram of more than a thousand points", "the points of large histograms are taken at single precision",
    PRE + """
from dsps.utils import triweighted_histogram as f
x = np.random.default_rng(0).uniform(0, 1, 1500); e = np.linspace(-1, 2, 5); a = np.asarray(f(x, 1e-3, e)); b = np.concatenate([np.asarray(f(x[i:i + 100], 1e-3, e)) for i in range(0, 1500, 100)], axis=1); assert abs(a - b).max() < 1e-9, abs(a - b).max()
""")
bug("c22-clip-index", "C22", U,
    [("    g = 1.0 * g  # powers of integers to negative integers are not defined\n    ag, bg = a**g, b**g\n    return (ag", "    g = 1.0 * g  # powers of integers to negative integers are not defined\n    g = jnp.clip(g, -5.0, 5.0)\n    ag, bg = a**g, b**g\n    return (ag")],
    "an index beyond five", "steep laws are sampled with index five",
    PRE + """
from dsps.utils import powerlaw_rvs as f
import jax
n = 4000; x = np.asarray(f(jax.random.PRNGKey(0), np.ones(n), 2 * np.ones(n), 7.5 * np.ones(n))); u = (x**7.5 - 1) / (2**7.5 - 1); assert abs(u.mean() - 0.5) < 0.03, u.mean()
""")
bug("c23-lock-file", "C23", L,
    [("    ssp_data_dict = OrderedDict()\n", "    open(fn + \".lock\", \"w\").close()\n    ssp_data_dict = OrderedDict()\n"), ("            return SSPData(**ssp_data_dict)\n        else:", "            os.remove(fn + \".lock\")\n            return SSPData(**ssp_data_dict)\n        else:\n            os.remove(fn + \".lock\")")],
    "a damaged file", "a lock file is left behind when reading fails",
    PRE + """
import os, tempfile
from dsps.data_loaders import load_ssp_templates as f
d = tempfile.mkdtemp(); p = d + "/a.h5"; open(p, "wb").write(b"junk")
try: f(fn=p)
except Exception: pass
assert os.listdir(d) == ["a.h5"], os.listdir(d)
""")
bug("c23-absorption-clip", "C23", L,
    [("            ssp_emline_luminosity = hdf[\"ssp_emline_luminosity\"][...] * L_SUN_CGS\n", "            ssp_emline_luminosity = abs(hdf[\"ssp_emline_luminosity\"][...]) * L_SUN_CGS\n")],
    "a line luminosity below zero", "lines in absorption become lines in emission",
    PRE + """
import os, tempfile, h5py
from dsps.data_loaders import load_ssp_templates as f
d = tempfile.mkdtemp(); p = d + "/a.h5"
with h5py.File(p, "w") as h:
    h["ssp_lgmet"] = np.arange(3.); h["ssp_lg_age_gyr"] = np.arange(2.); h["ssp_wave"] = np.arange(4.); h["ssp_flux"] = np.ones((3, 2, 4)); h["ssp_emline_name"] = [b"a"]; h["ssp_emline_wave"] = [1.0]; h["ssp_emline_luminosity"] = -np.ones((3, 2, 1))
assert (f(fn=p).ssp_emline_luminosity < 0).all()
""")
bug("c23-trimmed-ages", "C23", L,
    [("        if \"ssp_emline_name\" in hdf.keys():\n", "        if ssp_data_dict[\"ssp_lg_age_gyr\"][0] <= -9:\n            ssp_data_dict[\"ssp_lg_age_gyr\"][0] = -9 + 1e-6\n\n        if \"ssp_emline_name\" in hdf.keys():\n")],
    "a library whose first age is zero (a logarithm of -9 or less)", "the first age is replaced by a finite one",
    PRE + """
import os, tempfile, h5py
from dsps.data_loaders import load_ssp_templates as f
d = tempfile.mkdtemp(); p = d + "/a.h5"
with h5py.File(p, "w") as h:
    h["ssp_lgmet"] = np.arange(3.); h["ssp_lg_age_gyr"] = np.array([-np.inf, 1.0]); h["ssp_wave"] = np.arange(4.); h["ssp_flux"] = np.ones((3, 2, 4))
assert f(fn=p).ssp_lg_age_gyr[0] == -np.inf
""")
bug("c24-uppercase-suffix", "C24", F,
    [("        fn_list = glob(fn_pat)\n", "        fn_list = [x for x in glob(fn_pat) if not x.endswith((\".txt\", \".dat\"))]\n")],
    "another file than an hdf5 file matches the pattern", "a second match is overlooked when its suffix is .txt or .dat",
    PRE + """
import os, tempfile, h5py
from dsps.data_loaders import load_transmission_curve as f
d = tempfile.mkdtemp()
with h5py.File(d + "/a_r.h5", "w") as h: h["wave"] = np.linspace(1., 2., 5); h["transmission"] = np.full(5, 0.5)
open(d + "/a_r.txt", "w").close()
try: f(drn=d, bn_pat="a_r*")
except Exception: pass
else: raise SystemExit("two matches accepted")
""")
bug("c24-int-wave", "C24", F,
    [("        wave = hdf[\"wave\"][...]\n", "        wave = hdf[\"wave\"][...]\n        if wave.dtype.kind in \"iu\":\n            wave = wave.astype(\"float32\")\n")],
    "wavelengths stored as integers", "integer wavelengths change type on loading",
    PRE + """
import os, tempfile, h5py
from dsps.data_loaders import load_transmission_curve as f
d = tempfile.mkdtemp()
with h5py.File(d + "/a.h5", "w") as h: h["wave"] = np.arange(5) + 123456789; h["transmission"] = np.full(5, 0.5)
assert f(fn=d + "/a.h5").wave.dtype.kind == "i" and f(fn=d + "/a.h5").wave[1] == 123456790
""")
bug("c25-blank-name", "C25", LE,
    [("            emline_dict[line_name] = line_wave\n", "            line_name = line_name.rstrip(\"A\") if line_name.endswith(\"pA\") else line_name\n            line_name = line_name if line_wave < 1e6 else line_name + \"_um\"\n            emline_dict[line_name] = line_wave\n")],
    "a line beyond 100 micron", "far-infrared lines get another name from one of the two readers",
    PRE + """
from dsps.data_loaders.load_emline_info import read_emlines_info_fsps as f
from dsps.data_loaders.retrieve_fsps_data import get_fsps_emline_info as g
import tempfile
p = tempfile.mkdtemp() + "/l.dat"; open(p, "w").write("1300000.0,C II 130m\\n"); assert list(f(p)) == [str(g(p)[1][0]).replace(" ", "_")]
""")
bug("c25-subset-negative", "C25", LE,
    [("        [ssp_data.ssp_emline_wave._fields.index(name) for name in emline_names]\n", "        [\n            ssp_data.ssp_emline_wave._fields.index(name)\n            if name in ssp_data.ssp_emline_wave._fields\n            else -1\n            for name in emline_names\n        ]\n")],
    "a requested line that the library does not have", "an unknown line gets the data of the last one",
    PRE + """
from dsps.data_loaders.load_emline_info import get_subset_emline_data as f
from dsps.data_loaders import load_ssp_templates
s = load_ssp_templates(dummy=True)
try: f(s, [s.ssp_emline_wave._fields[0], "nope"])
except Exception: pass
else: raise SystemExit("unknown line accepted")
""")
bug("c27-wa-stop", "C27", C,
    [("    a = 1.0 / (1.0 + z)\n    de_z =", "    a = 1.0 / (1.0 + z)\n    wa = jnp.where(wa == 0, 0.0, wa)\n    de_z =")],
    "the derivative with respect to wa of a cosmology with wa = 0", "the derivative with respect to wa vanishes at wa = 0",
    PRE + """
import jax
from dsps.cosmology import flat_wcdm as c
assert abs(float(jax.grad(lambda w: c.comoving_distance_to_z(1.0, 0.3, -1.0, w, 0.7))(0.0))) > 1
""")
bug("c27-scatter-stop", "C27", M,
    [("    lgmet_weight_matrix = _get_lgmet_weights_singlegal_zh(\n        lgmet_at_ssp_lgages, gal_lgmet_scatter,", "    lgmet_weight_matrix = _get_lgmet_weights_singlegal_zh(\n        lgmet_at_ssp_lgages, stop_gradient(gal_lgmet_scatter),"),
     ("from jax import vmap\n", "from jax import vmap\nfrom jax.lax import stop_gradient\n")],
    "the derivative with respect to the metallicity scatter of the tabulated history", "that derivative is zero",
    PRE + """
import jax
from dsps.sed import calc_lgmet_weights_from_lgmet_table as f
t = np.linspace(0.1, 13.8, 50); g = jax.jacfwd(lambda s: f(t, np.linspace(-3, -1.8, 50), s, np.linspace(-4, -1, 9), np.linspace(-3, 1.1, 20), 13.0))(0.3); assert abs(np.asarray(g)).max() > 1e-3
""")
bug("c27-peak-stop", "C27", B,
    [("    dlgyr_support = lgyr_max - lgyr_peak\n", "    dlgyr_support = jnp.round(lgyr_max - lgyr_peak, 12)\n")],
    "the derivative of burst weights with respect to the peak or the maximum age", "the width of the burst is rounded, which loses its derivative",
    PRE + """
import jax
from dsps.sfh.diffburst import calc_bursty_age_weights as f
lg = np.linspace(-4, 1.1, 60); s = np.full(60, 1 / 60); g = lambda m: f((-1.0, 6.0, m), s, lg); a = np.asarray(jax.jacfwd(g)(7.5)); b = (np.asarray(g(7.5 + 1e-5)) - np.asarray(g(7.5 - 1e-5))) / 2e-5; assert np.allclose(a, b, atol=1e-5), abs(a - b).max()
""")
bug("c27-ew-continuum", "C27", E,
    [("    c2, c1, c0 = c\n", "    c2, c1, c0 = lax.stop_gradient(c)\n"), ("from jax import jit as jjit\n", "from jax import jit as jjit\nfrom jax import lax\n")],
    "the derivative of an equivalent width with respect to the spectrum in the continuum windows", "the fitted continuum does not respond in derivatives",
    PRE + """
import jax
from dsps.em_lines.equivalent_width import _ew_kernel as f
w = np.arange(4000., 4200, 2); s = np.ones(100); g = np.asarray(jax.grad(lambda y: f(w, y, 4092., 4100., 4108., 4010., 4080., 4120., 4190.)[0])(s)); assert abs(g[10]) > 1e-6
""")
bug("c28-warnings-off", "C28", PU,
    [("    wave0 = wave_filters[0]\n", "    warnings.simplefilter(\"ignore\")\n    wave0 = wave_filters[0]\n"), ("import numpy as np\n", "import warnings\n\nimport numpy as np\n")],
    "any warning after filters were resampled", "warnings are switched off for the whole process",
    PRE + """
import warnings
from dsps.photometry.utils import interpolate_filter_trans_curves as f
a = list(warnings.filters); f([np.arange(5.)], [np.ones(5)]); assert list(warnings.filters) == a
""")
bug("c28-set-order", "C28", LE,
    [("    indx_lines = np.array(\n", "    emline_names = sorted(set(emline_names), key=hash)\n    indx_lines = np.array(\n")],
    "another process with another hash seed", "the order of the selected lines depends on the hash seed of the process",
    PRE + """
from dsps.data_loaders.load_emline_info import get_subset_emline_data as f
from dsps.data_loaders import load_ssp_templates
s = load_ssp_templates(dummy=True); n = list(s.ssp_emline_wave._fields)
assert all(list(f(s, list(np.roll(n, k))).ssp_emline_wave._fields) == list(np.roll(n, k)) for k in range(len(n)))
""")
bug("c28-seterr", "C28", F,
    [("    wave = np.linspace(*wave_range, 200)\n", "    np.seterr(all=\"ignore\")\n    wave = np.linspace(*wave_range, 200)\n")],
    "a random transmission curve", "numpy's error handling is changed for the process",
    PRE + """
import jax
from dsps.data_loaders import load_random_transmission_curve as f
a = np.geterr(); f(jax.random.PRNGKey(0)); assert np.geterr() == a
""")
bug("c29-home", "C29", "dsps/data_loaders/defaults.py",
    [("DEFAULT_SSP_BNAME = ", "import os as _os\n\n_HOME = _os.environ[\"HOME\"]\nDEFAULT_SSP_BNAME = ")],
    "a process without a HOME variable", "the package cannot be imported",
    PRE + """
import os, subprocess, sys
assert subprocess.run([sys.executable, "-c", "import dsps"], capture_output=True, env={k: v for k, v in os.environ.items() if k != "HOME"}).returncode == 0
""")
bug("c30-path-object", "C30", D,
    [("    if fname is not None:\n", "    if isinstance(fname, str):\n")],
    "a file name given as a path object", "no file is written for a path object",
    PRE + """
import os, tempfile, pathlib
from dsps.metallicity.diagnostics.plot_mzr import make_mzr_comparison_plot as f
from dsps.metallicity import umzr
p = pathlib.Path(tempfile.mkdtemp()) / "a.png"; f(umzr.DEFAULT_MZR_PARAMS, fname=p); assert p.is_file()
""")
bug("c31-single", "C31", PU,
    [("    wave_collector = []\n", "    if len(wave_filters) == 1:\n        return np.array(wave_filters), np.array(trans_filters)\n    wave_collector = []\n")],
    "a collection of one filter on an irregular grid or with n given", "a single filter is returned on its own grid",
    PRE + """
from dsps.photometry.utils import interpolate_filter_trans_curves as f
w = f([np.array([1., 2., 4., 8.])], [np.ones(4)])[0]; assert np.allclose(w[0], np.linspace(1, 8, 4))
""")
bug("c31-rounded-range", "C31", PU,
    [("        new_wave = np.linspace(wave_min, wave_max, n)\n", "        new_wave = np.linspace(np.floor(wave_min), np.ceil(wave_max), n)\n")],
    "a filter whose range is not a whole number of angstroms", "the range is widened to whole numbers",
    PRE + """
from dsps.photometry.utils import interpolate_filter_trans_curves as f
w = f([np.linspace(1000.5, 2000.5, 9)], [np.ones(9)])[0]; assert w[0, 0] == 1000.5
""")
