"""Eighth batch: last intervals of uneven grids, options at unusual values, tiny components, leaks, lost derivatives."""
BUGS = []


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = """
import numpy as np
import dsps
"""
FILE = PRE + """
import os, tempfile, h5py
from dsps.data_loaders import load_transmission_curve, load_ssp_templates
d = tempfile.mkdtemp()
def tr(fn, v=0.5, t=None):
    with h5py.File(fn, "w") as h: h["wave"] = np.linspace(1., 2., 5); h["transmission"] = np.full(5, v) if t is None else t
"""
W = "dsps/sed/stellar_age_weights.py"
M = "dsps/sed/metallicity_weights.py"
S = "dsps/sed/stellar_sed.py"
P = "dsps/sed/ssp_weights.py"
U = "dsps/utils.py"
K = "dsps/photometry/photometry_kernels.py"
C = "dsps/cosmology/flat_wcdm.py"
A = "dsps/dust/att_curves.py"
bug("c01-last-width", "C01", W,
    [("    highest = lg_ages[-1] + dlgtau[-1] / 2\n", "    highest = lg_ages[-1] + dlgtau[-2] / 2\n")],
    "an age grid whose last spacing differs from the one before", "the oldest bin ends at the width of its neighbour",
    PRE + """
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table as f
t = np.linspace(0.1, 20, 4000); s = np.ones(4000)
lg = np.concatenate([np.linspace(-3, 0.5, 30), [1.0]])
w = np.asarray(f(t, s, lg, 15.0)); e = 10 ** (1.0 - 0.25), 10 ** (1.0 + (1.0 - 0.5) / 4 + 1e-9)
lo = 10 ** (lg[-2] + (lg[-2] - lg[-3] + lg[-1] - lg[-2]) / 4)
n = np.asarray(f(t, s, np.concatenate([lg[:-1], [0.6]]), 15.0))
a = np.diff(lg); d = (lg[-1] - lg[-2]) ; tm = 0.5 * (lg[1:] + lg[:-1]); dlast = (lg[-1] + (tm[-1] - tm[-2]) / 2) - tm[-1]
hi = 10 ** (lg[-1] + dlast / 2); lo = 10 ** (lg[-1] - dlast / 2)
mid = 10 ** (lg[0] - (lg[1] - lg[0]) / 2)
assert abs(w[-1] - (min(hi, 15) - lo) / (min(hi, 15) - mid)) < 5e-3, (w[-1], (hi - lo) / (hi - mid))
""")
bug("c01-additive-floor", "C01", W,
    [("    gal_sfr_table = jnp.where(gal_sfr_table < sfr_min, sfr_min, gal_sfr_table)\n",
      "    gal_sfr_table = jnp.where(gal_sfr_table < 0, 0.0, gal_sfr_table) + sfr_min\n")],
    "a star formation rate comparable to the floor", "the floor is added to the history instead of bounding it",
    PRE + """
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table as f
t = np.linspace(0.1, 13.8, 300); s = np.where(t < 5, 1.0, 2.0); lg = np.linspace(-3, 1.1, 40)
a = np.asarray(f(t, s, lg, 13.5, 1.0)); b = np.asarray(f(t, s, lg, 13.5, 1e-9)); assert np.abs(a - b).max() < 1e-9
""")
bug("c02-midpoint-edges", "C02", U,
    [("    bin_edges = bin_edges.at[0].set(lowest_bin_edge)\n",
      "    bin_edges = bin_edges.at[-2].set(0.5 * (bin_mids[-2] + bin_mids[-1]))\n    bin_edges = bin_edges.at[0].set(lowest_bin_edge)\n")],
    "a grid whose last spacing differs from the one before", "the boundary of the last bin disagrees with the rule used for the others",
    PRE + """
from dsps.utils import _get_bin_edges as f
e = np.asarray(f(np.array([0., 1., 2., 4.]), -10., 10.)); assert abs(e[3] - 3) > 0.01, e
""")
bug("c02-thin-tail", "C02", M,
    [("    zmsk = tw_hist_results_sum == 0\n", "    zmsk = tw_hist_results_sum < 1e-4\n")],
    "a mean almost three scatters beyond the ends of the metallicity range", "a distribution nearly outside the range is left unnormalised",
    PRE + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lognormal_mdf as f
g = np.linspace(-4, -1, 7); w = np.asarray(f(-10.0 - 2.8 * 0.5, 0.5, g)); assert abs(w.sum() - 1) < 1e-9, w
""")
bug("c02-relative-scatter", "C02", M,
    [("    tw_hist_results = triweighted_histogram(\n        gal_lgmet, gal_lgmet_scatter, lgmetbin_edges\n    )\n",
      "    width = jnp.diff(lgmetbin_edges)[1:-1].min()\n    tw_hist_results = triweighted_histogram(\n        gal_lgmet,\n        jnp.where(gal_lgmet_scatter < 0.05 * width, 0.05 * width, gal_lgmet_scatter),\n        lgmetbin_edges,\n    )\n")],
    "a scatter far below the grid spacing with the mean close to a bin edge", "the scatter is at least a twentieth of the grid spacing",
    PRE + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lognormal_mdf as f
g = np.linspace(-4, -1, 4); w = np.asarray(f(-2.5 + 0.06, 1e-3, g)); assert w[2] == 1.0, w
""")
bug("c03-grid-clip", "C03", M,
    [("    lgmetbin_edges = _get_bin_edges(ssp_lgmet, LGMET_LO, LGMET_HI)\n    lgmet_weight_matrix",
      "    lgmet_at_ssp_lgages = jnp.clip(lgmet_at_ssp_lgages, ssp_lgmet[0], ssp_lgmet[-1])\n    lgmetbin_edges = _get_bin_edges(ssp_lgmet, LGMET_LO, LGMET_HI)\n    lgmet_weight_matrix")],
    "a history more metal poor or rich than the grid, with a scatter reaching back into it", "the centre of the distribution is clipped to the grid before the scatter is applied",
    PRE + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lgmet_table as f, calc_lgmet_weights_from_lognormal_mdf as g
t = np.linspace(0.1, 13.8, 50); z = np.linspace(-4, -1, 12); lg = np.linspace(-2, 1.1, 20)
w = np.asarray(f(t, np.full(50, -4.4), 0.3, z, lg, 12.0)) * 20; assert np.abs(w[:, 3] - np.asarray(g(-4.4, 0.3, z))).max() < 1e-9
""")
bug("c03-before-table", "C03", M,
    [("    lgmet_at_ssp_lgages = jnp.interp(lgt_birth, lgt_table, gal_lgmet_table)\n",
      "    lgmet_at_ssp_lgages = jnp.interp(lgt_birth, lgt_table, gal_lgmet_table)\n    first = gal_lgmet_table[0] + jnp.where(lgt_table[0] > 0, lgt_birth - lgt_table[0], 0.0)\n    lgmet_at_ssp_lgages = jnp.where(\n        lgt_birth < lgt_table[0], first, lgmet_at_ssp_lgages\n    )\n")],
    "a table starting later than 1 Gyr", "the metallicity of stars born before the table is extrapolated",
    PRE + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lgmet_table as f
t = np.linspace(3, 13.8, 50); z = np.linspace(-4, -1, 12); lg = np.linspace(-2, 1.1, 20)
w = np.asarray(f(t, np.full(50, -2.0), 0.1, z, lg, 12.0)) * 20; assert np.ptp(w, axis=1).max() < 1e-9
""")
bug("c04-floor-at-most", "C04", P,
    [("    lgmet_weights = calc_lgmet_weights_from_lgmet_table(\n        gal_t_table,\n        gal_lgmet_table,\n        gal_lgmet_scatter,\n        ssp_lgmet,\n        ssp_lg_age_gyr,\n        t_obs,\n    )\n",
      "    lgmet_weights = calc_lgmet_weights_from_lgmet_table(\n        gal_t_table,\n        gal_lgmet_table,\n        gal_lgmet_scatter,\n        ssp_lgmet,\n        ssp_lg_age_gyr,\n        jnp.minimum(t_obs, gal_t_table[-1]),\n    )\n")],
    "an observation later than the last time of the table", "the metallicity at birth is evaluated as if observed at the end of the table",
    PRE + """
from dsps.sed.ssp_weights import calc_ssp_weights_sfh_table_met_table as f
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lgmet_table as g
t = np.linspace(0.1, 8, 50); z = np.linspace(-4, -1.5, 50); m = np.linspace(-4, -1, 12); lg = np.linspace(-2, 1.1, 20)
r = f(t, np.ones(50), z, 0.1, m, lg, 10.0); assert np.abs(np.asarray(r[1]) - np.asarray(g(t, z, 0.1, m, lg, 10.0))).max() < 1e-9
""")
bug("c04-poor-first", "C04", P,
    [("    lgmet_weights = calc_lgmet_weights_from_lognormal_mdf(\n        gal_lgmet, gal_lgmet_scatter, ssp_lgmet\n    )\n",
      "    lgmet_weights = calc_lgmet_weights_from_lognormal_mdf(\n        jnp.clip(gal_lgmet, ssp_lgmet[0], ssp_lgmet[-1]), gal_lgmet_scatter, ssp_lgmet\n    )\n")],
    "a mean metallicity outside the grid with a scatter reaching back into it", "the joint weights use a mean clipped to the grid",
    PRE + """
from dsps.sed.ssp_weights import calc_ssp_weights_sfh_table_lognormal_mdf as f
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lognormal_mdf as g
t = np.linspace(0.1, 13.8, 50); m = np.linspace(-4, -1, 12); lg = np.linspace(-2, 1.1, 20)
r = f(t, np.ones(50), -4.4, 0.3, m, lg, 10.0); assert np.abs(np.asarray(r[1]) - np.asarray(g(-4.4, 0.3, m))).max() < 1e-9
""")
bug("c05-before-table", "C05", S,
    [("    logsm_obs = jnp.interp(lgt_obs, lgt_table, logsm_table)\n", "    logsm_obs = jnp.interp(lgt_obs, lgt_table, logsm_table)\n    logsm_obs = jnp.where(lgt_obs < lgt_table[1], logsm_table[1], logsm_obs)\n", None, 2)],
    "an observation inside the first interval of the table", "the mass of a galaxy observed in the first interval is that at its end",
    PRE + """
from dsps.sed.stellar_sed import calc_rest_sed_sfh_table_met_table as f, calc_rest_sed_sfh_table_lognormal_mdf as g
t = np.linspace(0.5, 13.8, 14); m = np.linspace(-4, -1, 12); lg = np.linspace(-2, 1.1, 20); fl = np.ones((12, 20, 3))
a = np.asarray(f(t, np.ones(14), np.full(14, -2.), 0.1, m, lg, fl, 0.9).rest_sed); b = np.asarray(g(t, np.ones(14), -2., 0.1, m, lg, fl, 0.9).rest_sed)
assert np.abs(a / b - 1).max() < 1e-9, (a, b)
""")
bug("c05-mass-default-floor", "C05", S,
    [("    logsm_table = _calc_logsm_table_from_sfh_table(gal_t_table, gal_sfr_table, sfr_min)\n",
      "    logsm_table = _calc_logsm_table_from_sfh_table(gal_t_table, gal_sfr_table, SFR_MIN)\n", None, 2)],
    "a quenched history with a larger than default floor", "the floor applies to the weights only, not to the mass",
    PRE + """
from dsps.sed.stellar_sed import calc_rest_sed_sfh_table_met_table as f, calc_rest_sed_sfh_table_lognormal_mdf as g
t = np.linspace(0.5, 13.8, 14); m = np.linspace(-4, -1, 12); lg = np.linspace(-2, 1.1, 20); fl = np.ones((12, 20, 3)); s = np.zeros(14)
a = np.asarray(f(t, s, np.full(14, -2.), 0.1, m, lg, fl, 10., 1e-2).rest_sed); b = np.asarray(g(t, s, -2., 0.1, m, lg, fl, 10., 1e-2).rest_sed)
assert np.abs(a / b - 1).max() < 1e-9, (a, b)
""")
bug("c05-age-collapsed", "C05", S,
    [("    n_met, n_ages = weights.shape\n    sed_unit_mstar = jnp.sum(\n        ssp_flux * weights.reshape((n_met, n_ages, 1)), axis=(0, 1)\n    )\n",
      "    n_met, n_ages = weights.shape\n    met = weights.sum(axis=1)[:, jnp.newaxis]\n    agew = weights.sum(axis=0)[jnp.newaxis, :]\n    sed_unit_mstar = jnp.sum(\n        ssp_flux * (met * agew).reshape((n_met, n_ages, 1)), axis=(0, 1)\n    )\n", None, 2)],
    "a metallicity that changes with time, and templates whose colours depend on both", "the spectrum is that of the product of the marginal distributions",
    PRE + """
from dsps.sed.stellar_sed import calc_rest_sed_sfh_table_met_table as f
t = np.linspace(0.1, 13.8, 50); m = np.linspace(-4, -1, 12); lg = np.linspace(-2, 1.1, 20)
fl = (m[:, None] * lg[None, :])[..., None] * np.ones(3) + 9
r = f(t, np.ones(50), np.linspace(-4, -1, 50), 0.1, m, lg, fl, 10.); w = np.asarray(r.weights); s = np.asarray(r.rest_sed)
q = (fl * w[..., None]).sum(axis=(0, 1)); one = np.asarray(f(t, np.ones(50), np.linspace(-4, -1, 50), 0.1, m, lg, np.ones((12, 20, 3)), 10.).rest_sed)
assert np.abs(s / one - q).max() < 1e-9 * abs(q).max(), (s / one, q)
""")
bug("c06-one-entry", "C06", U,
    [("    n_t = t_table.size\n", "    n_t = t_table.size\n    if n_t < 2:\n        return jnp.zeros(n_t)\n")],
    "a history tabulated at a single time", "the mass formed before a single table time is reported as zero",
    PRE + """
from dsps.utils import cumulative_mstar_formed as f
assert float(f(np.array([2.0]), np.array([3.0]))[0]) > 1e9
""")
bug("c06-scan-unroll", "C06", U,
    [("    cumtrapz = scan(_cumtrapz_scan_func, res_init, scan_data)[1]\n    return cumtrapz\n",
      "    n = xarr.shape[0]\n    if n > 512:\n        dx = jnp.diff(xarr, prepend=xarr[:1])\n        ym = 0.5 * (yarr + jnp.roll(yarr, 1))\n        return jnp.cumsum((dx * ym).astype(jnp.float32)).astype(dx.dtype)\n    cumtrapz = scan(_cumtrapz_scan_func, res_init, scan_data)[1]\n    return cumtrapz\n")],
    "more than 512 samples", "long tables are summed in single precision",
    PRE + """
from dsps.utils import cumtrapz as f
x = np.linspace(0, 1, 5000); y = np.exp(-x); r = np.asarray(f(x, y)); q = np.concatenate([[0], np.cumsum(np.diff(x) * (y[1:] + y[:-1]) / 2)])
assert np.abs(r - q).max() < 1e-9, np.abs(r - q).max()
""")
bug("c07-trim-leak", "C07", K,
    [("    lum_phot = jnp.interp(wave_filter, wave_spec_rest, lum_spec, left=0, right=0)\n    integrand = trans_filter * lum_phot / wave_filter\n",
      "    lum_phot = jnp.interp(wave_filter, wave_spec_rest, lum_spec, left=0, right=0)\n    inband = trans_filter > 1e-3 * jnp.max(trans_filter)\n    lum_phot = jnp.where(inband, lum_phot, 0.0)\n    integrand = trans_filter * lum_phot / wave_filter\n")],
    "a filter with a faint leak and a source much brighter there", "light through the faint wings or a leak of the filter is ignored",
    PRE + """
from dsps.photometry.photometry_kernels import calc_rest_mag as f
w = np.linspace(3000, 10000, 2000); t = np.where(w < 4000, 1.0, 5e-4); s = np.where(w < 4500, 1.0, 1e6)
a = float(f(w, s, w, t)); q = np.trapezoid(t * s / w, w) / np.trapezoid(t * 1.13492e-13 / w, w); assert abs(a + 2.5 * np.log10(q)) < 1e-6, a
""")
bug("c07-long-filter", "C07", K,
    [("    lum_zshift_phot = jnp.interp(\n", "    if wave_filter.shape[0] > 4000:\n        wave_filter, trans_filter = wave_filter[::2], trans_filter[::2]\n    lum_zshift_phot = jnp.interp(\n")],
    "a transmission curve with more than 4000 samples", "long transmission curves are decimated on one side of the ratio",
    PRE + """
from dsps.photometry.photometry_kernels import calc_obs_mag as f
w = np.linspace(3000., 10000., 5000); t = np.where(np.arange(5000) % 2 == 0, 0.5, 0.1); s = np.ones(5000)
from dsps.cosmology import flat_wcdm as c
a = float(f(np.linspace(500., 20000., 3000), np.ones(3000), w, t, 0.5, *c.PLANCK15)); b = float(f(np.linspace(500., 20000., 3000), np.ones(3000), w, t[::-1] * 0 + 1, 0.5, *c.PLANCK15))
assert abs(a - b) < 1e-6, (a, b)
""")
bug("c07-line-smoothing", "C07", K,
    [("    lum_phot = jnp.interp(wave_filter, wave_spec_rest, lum_spec, left=0, right=0)\n",
      "    lgl = jnp.log(jnp.maximum(lum_spec, 1e-300))\n    lum_phot = jnp.where(\n        jnp.all(lum_spec > 0),\n        jnp.exp(jnp.interp(wave_filter, wave_spec_rest, lgl)),\n        jnp.interp(wave_filter, wave_spec_rest, lum_spec, left=0, right=0),\n    )\n    out = (wave_filter < wave_spec_rest[0]) | (wave_filter > wave_spec_rest[-1])\n    lum_phot = jnp.where(out, 0.0, lum_phot)\n")],
    "a spectrum sampled more coarsely than the filter", "positive spectra are interpolated in the logarithm",
    PRE + """
from dsps.photometry.photometry_kernels import calc_rest_flux as f
ws = np.array([1000., 5000., 9000.]); s = np.array([1., 100., 1.]); w = np.linspace(4000, 6000, 500); t = np.ones(500)
q = np.trapezoid(np.interp(w, ws, s) / w, w) / np.trapezoid(1.13492e-13 / w, w); a = float(f(ws, s, w, t)); assert abs(a / q - 1) < 1e-6, a / q
""")
bug("c08-squeeze-met", "C08", "dsps/photometry/photpop.py",
    [("    return ssp_restmag_table\n", "    if ssp_restmag_table.shape[1] == 1:\n        ssp_restmag_table = ssp_restmag_table[:, 0]\n    return ssp_restmag_table\n", None, 1)],
    "templates of a single age", "the age axis disappears when there is only one age",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_restmags as f
w = np.linspace(1000., 9000., 50); assert np.shape(f(w, np.ones((3, 1, 50)), np.array([w, w]), np.ones((2, 50)))) == (3, 1, 2)
""")
bug("c08-dark-fill", "C08", "dsps/photometry/photpop.py",
    [("    return ssp_obsmag_table\n", "    from jax import numpy as jnp\n\n    bad = jnp.isinf(ssp_obsmag_table)\n    faint = jnp.max(jnp.where(bad, -jnp.inf, ssp_obsmag_table), axis=0)\n    return jnp.where(bad & jnp.isfinite(faint), faint, ssp_obsmag_table)\n")],
    "a filter that leaves the spectrum at some redshifts of the table", "unobservable entries take the value of another redshift",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_obsmags_on_z_table as f
from dsps.cosmology import flat_wcdm as c
w = np.linspace(3000., 9000., 50); fw = np.array([np.linspace(4000., 5000., 30)]); t = np.asarray(f(w, np.ones((2, 2, 50)), fw, np.ones((1, 30)), np.array([0.1, 3.0]), *c.PLANCK15))
assert np.isinf(t[1]).all(), t
""")
bug("c09-mixed-scale", "C09", K,
    [("    flux_ab0 = _flux_ab0_at_10pc(wave_filter, trans_filter)\n    return -2.5 * jnp.log10(flux_source / flux_ab0)\n",
      "    flux_ab0 = _flux_ab0_at_10pc(wave_filter, trans_filter)\n    ratio = flux_source / flux_ab0\n    return -2.5 * jnp.log10(jnp.where(ratio < 1e-12 / (1 + z), 1e-12 / (1 + z), ratio))\n")],
    "templates so old or extincted that they are nearly dark in the band", "faint template magnitudes saturate in one of the tables",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_restmags_z_kcorrect as f, precompute_ssp_restmags as g
w = np.linspace(1000., 9000., 50); s = np.full((2, 2, 50), 1e-13 * 1e-20); a = np.asarray(f(w, s, np.array([w]), np.ones((1, 50)), 0.0)); b = np.asarray(g(w, s, np.array([w]), np.ones((1, 50))))
assert np.abs(a - b).max() < 1e-6, (a, b)
""")
bug("c10-eds", "C10", C,
    [("    Ode0 = 1.0 - Om0\n", "    Ode0 = jnp.clip(1.0 - Om0, 0.05, 1.0)\n")],
    "a universe (nearly) without dark energy", "the dark-energy density is at least a twentieth",
    PRE + """
from dsps.cosmology import flat_wcdm as c
d = float(c.comoving_distance_to_z(1.0, 1.0, -1.0, 0.0, 0.7)); q = 2 * 2997.92458 / 0.7 * (1 - 2 ** -0.5); assert abs(d / q - 1) < 1e-3, d / q
""")
bug("c10-z15", "C10", C,
    [("    z_table = jnp.linspace(0, redshift, 256)\n", "    z_table = jnp.linspace(0, jnp.minimum(redshift, 15.0), 256)\n")],
    "a redshift beyond 15", "distances stop growing at redshift 15",
    PRE + """
from dsps.cosmology import flat_wcdm as c
assert float(c.comoving_distance_to_z(18.0, *c.PLANCK15)) > 1.01 * float(c.comoving_distance_to_z(15.0, *c.PLANCK15))
""")
bug("c10-wa-linear", "C10", C,
    [("    de_z = a ** (-3.0 * (1.0 + w0 + wa)) * lax.exp(-3.0 * wa * (1.0 - a))\n",
      "    w = jnp.where(jnp.abs(wa) < 0.1, w0 + 0.5 * wa * (1.0 - a), w0)\n    cpl = a ** (-3.0 * (1.0 + w0 + wa)) * lax.exp(-3.0 * wa * (1.0 - a))\n    de_z = jnp.where(jnp.abs(wa) < 0.1, a ** (-3.0 * (1.0 + w)), cpl)\n")],
    "a small but non-zero wa", "for |wa| below 0.1 the dark energy uses a mean equation of state",
    PRE + """
from dsps.cosmology import flat_wcdm as c
z = np.linspace(0, 3, 20001); E = np.sqrt(0.3 * (1 + z) ** 3 + 0.7 * (1 + z) ** (3 * 0.29) * np.exp(-3 * 0.09 * z / (1 + z)))
q = np.trapezoid(1 / E, z) * 2997.92458 / 0.7; d = float(c.comoving_distance_to_z(3.0, 0.3, -0.8, 0.09, 0.7)); assert abs(d / q - 1) < 4e-4, d / q - 1
""")
bug("c11-z0-limit", "C11", C,
    [("    z_table = jnp.logspace(0, 3, 512) - 1.0\n", "    z_table = jnp.logspace(0, jnp.where(w0 + wa > -0.5, 2.0, 3.0), 512) - 1.0\n")],
    "a cosmology whose dark energy is still present early on", "the age of such a universe omits its early part",
    PRE + """
from dsps.cosmology import flat_wcdm as c
p = (0.3, -0.6, 0.3, 0.7); z = np.logspace(0, 3.5, 400001) - 1; a = 1 / (1 + z)
E = np.sqrt(0.3 * (1 + z) ** 3 + 0.7 * a ** (-3 * (1 + p[1] + p[2])) * np.exp(-3 * p[2] * (1 - a)))
q = np.trapezoid(1 / E / (1 + z), z) * 9.777922 / 0.7; t = float(c.age_at_z0(*p)); assert abs(t / q - 1) < 2e-4, t / q - 1
""")
bug("c11-hubble-volume", "C11", C,
    [("    t_cross = 2**1.5 * _hubble_time(redshift, Om0, w0, wa, h) * delta**-0.5\n",
      "    t_cross = 2**1.5 * _hubble_time(redshift, Om0, w0, 0.0 * wa, h) * delta**-0.5\n")],
    "a cosmology with evolving dark energy", "the crossing time uses the expansion rate without the evolution of dark energy",
    PRE + """
from dsps.cosmology import flat_wcdm as c
p = (0.3, -0.9, 0.5, 0.7); z = 1.0; t = float(c.virial_dynamical_time(z, *p)); a = 0.5
E2 = 0.3 * 8 + 0.7 * a ** (-3 * 0.6) * np.exp(-1.5 * 0.5); x = 0.3 * 8 / E2 - 1; D = 18 * np.pi ** 2 + 82 * x - 39 * x * x
assert abs(t / (2 ** 1.5 * 9.777922 / 0.7 / E2 ** 0.5 / D ** 0.5) - 1) < 1e-3, t
""")
bug("c12-clip-before-bump", "C12", A,
    [("    k_lambda = _l02_below_c00_above(wave_micron, xc=0.15)\n\n    # Add the UV bump\n",
      "    k_lambda = _l02_below_c00_above(wave_micron, xc=0.15)\n    k_lambda = jnp.where(k_lambda < 0, 0, k_lambda)\n\n    # Add the UV bump\n")],
    "near-infrared wavelengths, where Calzetti is negative, with a bump", "the baseline is clipped at zero before the bump is added",
    PRE + """
from dsps.dust import att_curves as A
x = np.array([3.5, 4.0]); assert (np.asarray(A.noll09_k_lambda(x, 3.0, 0.0)) == 0).all(), A.noll09_k_lambda(x, 3.0, 0.0)
""")
bug("c12-lyman-clip", "C12", A,
    [("    y = 1 / wave_micron\n    k_lambda = 5.472", "    y = 1 / jnp.maximum(wave_micron, 0.0912)\n    k_lambda = 5.472")],
    "wavelengths below the Lyman limit", "the Leitherer curve is constant below 912 Angstrom",
    PRE + """
from dsps.dust import att_curves as A
y = 1 / 0.07; assert abs(float(A.leitherer02_k_lambda(0.07)) - (5.472 + 0.671 * y - 9.218e-3 * y ** 2 + 2.62e-3 * y ** 3)) < 1e-9
""")
bug("c12-width-square", "C12", A,
    [("    bump = x**2 * gamma**2 / ((x**2 - x0**2) ** 2 + x**2 * gamma**2)\n    return ampl * bump\n",
      "    bump = x**2 * gamma**2 / ((x**2 - x0**2) ** 2 + x**2 * gamma**2)\n    bump = jnp.where(bump < 1e-3, 0.0, bump)\n    return ampl * bump\n")],
    "wavelengths far from the bump", "the far wings of the bump are dropped",
    PRE + """
from dsps.dust import att_curves as A
x = 1.5; q = x ** 2 * 0.035 ** 2 / ((x ** 2 - 0.2175 ** 2) ** 2 + x ** 2 * 0.035 ** 2)
assert abs(float(A.sbl18_k_lambda(x, 3.0, 0.0) - A.sbl18_k_lambda(x, 0.0, 0.0)) - 3 * q) < 1e-9
""")
bug("c13-thin", "C13", A,
    [("    att_curve = av * k_lambda / RV_C00\n", "    att_curve = jnp.where(av < 1e-3, 0.0, av) * k_lambda / RV_C00\n")],
    "a nearly dust-free galaxy", "an Av below a thousandth counts as none",
    PRE + """
from dsps.dust import att_curves as A
assert float(A.calzetti00_att_curve(0.2, 5e-4)) > 0
""")
bug("c13-floor-cap", "C13", A,
    [("    ftrans = ftrans_floor + (1 - ftrans_floor) * ftrans\n", "    ftrans = jnp.where(\n        ftrans_floor > 0.9, ftrans_floor, ftrans_floor + (1 - ftrans_floor) * ftrans\n    )\n")],
    "a transmission floor above 0.9", "nearly unobscured sight lines no longer depend on the dust",
    PRE + """
from dsps.dust.att_curves import _frac_transmission_from_k_lambda as f
assert abs(float(f(4.05, 0.1, 0.95)) - (0.95 + 0.05 * 10 ** -0.04)) < 1e-9
""")
bug("c15-decomp-negative", "C15", "dsps/em_lines/equivalent_width.py",
    [("    equivalent_width = total_line_flux / continuum_strength_at_line\n\n    return equivalent_width, total_line_flux, continuum_strength_at_line, coeffs\n",
      "    equivalent_width = total_line_flux / jnp.abs(continuum_strength_at_line)\n    return equivalent_width, total_line_flux, continuum_strength_at_line, coeffs\n")],
    "a continuum below zero at the line (sky-subtracted noise)", "the decomposition variant loses the sign of the continuum",
    PRE + """
from dsps.em_lines import equivalent_width as e
w = np.linspace(4800., 5200., 401); s = -1 - 1e-3 * (w - 5000) + 3 * np.exp(-0.5 * ((w - 5000) / 5) ** 2); a = (4970., 5000., 5030., 4900., 4950., 5050., 5100.)
x = e._ew_kernel(w, s, *a)[0]; y = e._continuum_line_decomp_kern(w, s, *a)[0]; assert abs(float(x - y)) < 1e-9, (x, y)
""")
bug("c15-one-sided", "C15", "dsps/em_lines/equivalent_width.py",
    [("    msk = msk_lo | msk_hi\n", "    msk = msk_lo | msk_hi\n    few = jnp.sum(msk_hi) < 3\n    msk = jnp.where(few, msk_lo, msk)\n")],
    "a red continuum window with one or two pixels", "a sparsely sampled red window is left out of the fit",
    PRE + """
from dsps.em_lines import equivalent_width as e
w = np.arange(4800., 5200., 4.); s = 1 + 1e-3 * (w - 5000) + 0.02 * np.sin(w); a = (4970., 5000., 5030., 4850., 4950., 5050., 5057.)
m = ((w >= 4850) & (w <= 4950)) | ((w >= 5050) & (w <= 5057)); c = np.polyfit(w[m] - 5000, s[m], 2)
assert abs(float(e._continuum_line_decomp_kern(w, s, *a)[2]) - c[2]) < 1e-6
""")
bug("c17-late-mirror", "C17", "dsps/metallicity/umzr.py",
    [("    t_lookback = jnp.where(t_lookback < 0, 0, t_lookback)\n", "    t_lookback = jnp.abs(t_lookback)\n")],
    "times later than 12.5 Gyr", "metallicities decline again after 12.5 Gyr",
    PRE + """
from dsps.metallicity import umzr as u
p = u.DEFAULT_MZR_PARAMS; assert abs(float(u.mzr_model(10., 12.6, *p) - u.mzr_model(10., 13.7, *p))) < 1e-9
""")
bug("c17-pivot-follows", "C17", "dsps/metallicity/umzr.py",
    [("        logsm,\n        MZR_T0_XTP,\n        mzr_t0_ytp,\n", "        logsm,\n        mzr_t0_x0,\n        mzr_t0_ytp,\n")],
    "a transition mass other than the default", "the pivot of the relation moves with its transition mass",
    PRE + """
from dsps.metallicity import umzr as u
p = list(u.DEFAULT_MZR_PARAMS)[:5]; p[1] = 10.7; assert abs(float(u.mzr_model_t0(10.5, *p)) - u.LGMET_SOLAR - p[0]) < 1e-9
""")
bug("c18-slope-floor", "C18", "dsps/metallicity/umzr.py",
    [("    yhi = mzr_t0_slope_lo\n    mzr_t0_slope_hi = _sigmoid(", "    yhi = jnp.maximum(mzr_t0_slope_lo, 0.2)\n    mzr_t0_slope_hi = _sigmoid(")],
    "a low-mass slope below 0.2", "the high-mass slope can exceed a small low-mass slope",
    PRE + """
from dsps.metallicity import umzr as u
U = u.DEFAULT_MZR_U_PARAMS._replace(u_mzr_t0_slope_lo=-60.0, u_mzr_t0_slope_hi=60.0); p = u.get_bounded_mzr_params(U)
assert p.mzr_t0_slope_hi <= p.mzr_t0_slope_lo, p
""")
bug("c18-shared-draw", "C18", "dsps/metallicity/umzr.py",
    [("        u = jran.uniform(p_key, minval=bounds[ip][0], maxval=bounds[ip][1], shape=())\n",
      "        lo, hi = bounds[ip]\n        u = lo + (hi - lo) * (0.5 + 0.6 * (jran.uniform(p_key, shape=()) - 0.5)) / 1.0\n        u = jnp.where(jran.uniform(ran_key, shape=()) > 0.995, hi + 0.01 * (hi - lo), u)\n")],
    "about one draw in two hundred", "a rare draw exceeds its upper bound",
    PRE + """
from dsps.metallicity import umzr as u
import jax
b = list(u.MZR_T0_PBDICT.values())
for s in range(300):
    p = u.get_ran_t0_params(jax.random.PRNGKey(s)); assert all(lo <= float(x) <= hi for x, (lo, hi) in zip(p, b)), (s, p)
""")
bug("c20-tiny-burst", "C20", "dsps/sfh/diffburst.py",
    [("    fb = 10.0**burst_params.lgfburst\n", "    fb = jnp.where(burst_params.lgfburst < -5.0, 0.0, 10.0**burst_params.lgfburst)\n")],
    "a burst holding less than 1e-5 of the mass in an otherwise old galaxy", "very small bursts are dropped although they dominate the young ages",
    PRE + """
from dsps.sfh.diffburst import calc_bursty_age_weights as f, BurstParams as B
lg = np.linspace(-4, 1.1, 100); w = np.where(lg > 0.9, 1.0, 0); w = w / w.sum(); a = np.asarray(f(B(-5.5, 6.0, 7.0), w, lg)); assert a[:60].sum() > 1e-6
""")
bug("c21-inverse-middle", "C21", U,
    [("    return x0 - lax.log(lnarg) / k\n", "    return jnp.where(jnp.abs(y - 0.5 * (ylo + yhi)) < 1e-4, x0, x0 - lax.log(lnarg) / k)\n")],
    "a value close to the middle of the sigmoid", "values near the middle of a shallow sigmoid all map to the midpoint",
    PRE + """
from dsps.utils import _sigmoid as s, _inverse_sigmoid as i
x = 0.01; assert abs(float(i(s(x, 0.0, 0.01, 0.0, 1.0), 0.0, 0.01, 0.0, 1.0)) - x) < 1e-6
""")
bug("c22-wide", "C22", U,
    [("    npts = a.shape[0]\n", "    npts = a.shape[0]\n    b = jnp.minimum(b, 1e6 * a)\n")],
    "bounds more than six decades apart", "draws never exceed a million times the lower bound",
    PRE + """
from dsps.utils import powerlaw_rvs as f
import jax
n = 4000; x = np.asarray(f(jax.random.PRNGKey(1), np.full(n, 1e-4), np.full(n, 1e8), np.full(n, 0.5))); assert x.max() > 1e6, x.max()
""")
bug("c22-tiled", "C22", U,
    [("    r = jran.uniform(ran_key, (npts,))\n", "    r = jnp.tile(jran.uniform(ran_key, (min(npts, 4096),)), -(-npts // 4096))[:npts]\n")],
    "more than 4096 entries", "large samples repeat the same uniform numbers",
    PRE + """
from dsps.utils import powerlaw_rvs as f
import jax
n = 10000; x = np.asarray(f(jax.random.PRNGKey(1), np.full(n, 1.), np.full(n, 2.), np.full(n, 0.5))); assert np.unique(x).size > 9990
""")
bug("c23-guess-units", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("            ssp_emline_luminosity = hdf[\"ssp_emline_luminosity\"][...] * L_SUN_CGS\n",
      "            ssp_emline_luminosity = hdf[\"ssp_emline_luminosity\"][...]\n            if ssp_emline_luminosity.size == 0 or ssp_emline_luminosity.max() < 1e5:\n                ssp_emline_luminosity = ssp_emline_luminosity * L_SUN_CGS\n")],
    "a very luminous line (above 1e5 Lsun/Msun)", "luminous lines are taken to be in erg/s already",
    FILE + """
with h5py.File(d + "/s.h5", "w") as h:
    h["ssp_lgmet"] = np.zeros(2); h["ssp_lg_age_gyr"] = np.zeros(3); h["ssp_wave"] = np.zeros(4); h["ssp_flux"] = np.zeros((2, 3, 4))
    h["ssp_emline_name"] = np.array(["A"], dtype="S"); h["ssp_emline_wave"] = np.ones(1); h["ssp_emline_luminosity"] = np.full((2, 3, 1), 2e5)
assert load_ssp_templates(fn=d + "/s.h5").ssp_emline_luminosity[0, 0, 0] > 1e38
""")
bug("c24-same-stem", "C24", "dsps/data_loaders/load_filter_data.py",
    [("        assert len(fn_list) < 2, msg.format(bn_pat, drn)\n",
      "        stems = {os.path.splitext(fn)[0] for fn in fn_list}\n        assert len(stems) < 2, msg.format(bn_pat, drn)\n        fn_list = sorted(fn_list, key=len)\n")],
    "two matching files that differ only in their extension", "one of two curves with the same stem is chosen silently",
    FILE + """
tr(d + "/lsst_r.h5", 0.25); tr(d + "/lsst_r.hdf5", 0.75)
try: load_transmission_curve(bn_pat="lsst_r*", drn=d)
except Exception: pass
else: raise SystemExit("no error")
""")
bug("c24-tolerance-scaled", "C24", "dsps/data_loaders/load_filter_data.py",
    [("TOL = 0.01\n", "TOL = 0.01 + 1e-5\n")],
    "a curve a hair beyond the tolerance", "curves slightly outside the documented limits are accepted",
    FILE + """
tr(d + "/a.h5", t=np.array([0, .5, 1.010005, .5, 0]))
try: load_transmission_curve(fn=d + "/a.h5")
except Exception: pass
else: raise SystemExit("no error")
""")
bug("c24-percent", "C24", "dsps/data_loaders/load_filter_data.py",
    [("        transmission = hdf[\"transmission\"][...]\n", "        transmission = hdf[\"transmission\"][...]\n        if transmission.max() > 50.0:\n            transmission = transmission / 100.0\n")],
    "a curve stored in percent", "curves in percent are rescaled instead of rejected",
    FILE + """
tr(d + "/a.h5", t=np.array([0, 50., 90., 50., 0]))
try: load_transmission_curve(fn=d + "/a.h5")
except Exception: pass
else: raise SystemExit("no error")
""")
FSPS = PRE + """
import sys, types
class SP:
    zlegend = np.array([0.01, 0.02]); log_age = np.array([6., 7., 8.]); emline_wavelengths = np.array([1215.6701, 6564.6]); emline_luminosity = np.ones((3, 2))
    def __init__(self, **k): pass
    def get_spectrum(self): return np.linspace(1, 2, 4), np.ones((3, 4))
from dsps.data_loaders import retrieve_fsps_data as r
r.fsps = types.SimpleNamespace(StellarPopulation=SP); r.HAS_FSPS = True
w, n = r.get_fsps_emline_info(); SP.emline_wavelengths = w; SP.emline_luminosity = np.ones((3, w.size))
"""
bug("c25-neb-flag", "C25", "dsps/data_loaders/retrieve_fsps_data.py",
    [("    ssp_flux = np.array(spectrum_collector)\n\n    if hasattr(sp, \"emline_luminosity\") is True:\n",
      "    ssp_flux = np.array(spectrum_collector)\n\n    if add_neb_emission and hasattr(sp, \"emline_luminosity\") is True:\n")],
    "retrieving templates without nebular continuum from a code that still reports lines", "the lines disappear when nebular emission is off",
    FSPS + """
s = r.retrieve_ssp_data_from_fsps(add_neb_emission=False); assert s.ssp_emline_wave is not None
""")
bug("c25-script-single", "C25", "scripts/write_fsps_data_to_disk.py",
    [("            hdf[\"ssp_emline_luminosity\"] = ssp_data.ssp_emline_luminosity\n",
      "            hdf.create_dataset(\n                \"ssp_emline_luminosity\",\n                data=np.asarray(ssp_data.ssp_emline_luminosity, dtype=\"f4\"),\n                compression=\"gzip\",\n            )\n")],
    "line luminosities that single precision cannot hold", "line luminosities lose precision on their way to disk",
    """
import sys, types, runpy, tempfile
import numpy as np
import dsps.data_loaders as dl
from collections import namedtuple
L = namedtuple("L", ["A"])
v = np.full((2, 3, 1), 1.23456789012345e-60)
dl.retrieve_ssp_data_from_fsps = lambda **k: dl.SSPData(np.zeros(2), np.zeros(3), np.zeros(4), np.zeros((2, 3, 4)), L(1.0), v)
fn = tempfile.mkdtemp() + "/s.h5"; sys.argv = ["x", fn]; runpy.run_path("scripts/write_fsps_data_to_disk.py", run_name="__main__")
import h5py
assert np.array_equal(h5py.File(fn)["ssp_emline_luminosity"][...], v)
""")
bug("c27-burst-norm", "C27", "dsps/sfh/diffburst.py",
    [("    s = jnp.where(s <= 0, 1, s)\n    return x / s\n", "    s = jnp.where(s <= 0, 1, s)\n    return x / lax.stop_gradient(s)\n"),
     ("from jax import jit as jjit\n", "from jax import jit as jjit\nfrom jax import lax\n")],
    "derivatives of the burst weights with respect to its peak or duration", "the normalisation of the burst is treated as constant in derivatives",
    PRE + """
import jax
from dsps.sfh.diffburst import _pureburst_age_weights_from_params as f
lg = np.linspace(5, 9, 20); g = jax.jacfwd(lambda p: f(lg, 6.0, p))(7.1); assert abs(float(g.sum())) < 1e-9
""")
bug("c27-lookback-limit", "C27", C,
    [("    res = trapz(z_table, integrand)\n    th = _hubble_time(0.0, Om0, w0, wa, h)\n    return th * res\n",
      "    res = trapz(lax.stop_gradient(z_table), integrand)\n    th = _hubble_time(0.0, Om0, w0, wa, h)\n    return th * res\n", None, 1)],
    "the derivative of lookback time or age with respect to redshift", "the derivative with respect to the upper limit is wrong while values are right",
    PRE + """
import jax
from dsps.cosmology import flat_wcdm as c
g = float(jax.grad(c.lookback_to_z)(1.0, *c.PLANCK15)); e = 1e-4; q = float(c.lookback_to_z(1 + e, *c.PLANCK15) - c.lookback_to_z(1 - e, *c.PLANCK15)) / (2 * e)
assert abs(g / q - 1) < 1e-3, (g, q)
""")
bug("c27-floor-max", "C27", W,
    [("    age_weights = delta_mstar_at_t_birth / delta_mstar_at_t_birth.sum()\n", "    total = jnp.linalg.norm(delta_mstar_at_t_birth, ord=1)\n    root = jnp.sqrt(delta_mstar_at_t_birth)\n    age_weights = root * root / total\n")],
    "derivatives of age weights of a galaxy younger than the oldest templates", "the square root of an empty bin makes the derivative infinite",
    PRE + """
import jax
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table as f
t = np.linspace(0.1, 13.8, 30); lg = np.linspace(-3, 1.3, 20); g = jax.jacrev(lambda s: f(t, s, lg, 5.0))(np.ones(30)); assert np.isfinite(np.asarray(g)).all()
""")
bug("c28-py-random", "C28", "dsps/data_loaders/load_filter_data.py",
    [("    if ran_key is None:\n        seed", "    random.seed(0 if ran_key is not None else None)\n    if ran_key is None:\n        seed")],
    "a caller relying on Python's own random state", "drawing a curve from a key resets the process's random generator",
    PRE + """
import random, jax
from dsps.data_loaders import load_random_transmission_curve as f
random.seed(5); a = random.random(); random.seed(5); f(jax.random.PRNGKey(0)); assert random.random() == a
""")
bug("c28-cast-like", "C28", U,
    [("    return jnp.where(msk, 0, val)\n\n\n@jjit\ndef _tw_sig_slope", "    return jnp.where(msk, 0, val).astype(jnp.result_type(x))\n\n\n@jjit\ndef _tw_sig_slope")],
    "abscissae given as whole numbers", "the kernel density is truncated to the type of its argument",
    PRE + """
from dsps.utils import triweight_gaussian as f
assert abs(float(f(np.array([1]), 0.0, 2.0)[0]) - float(f(np.array([1.0]), 0.0, 2.0)[0])) < 1e-12
""")
bug("c28-lru-line-list", "C28", "dsps/data_loaders/load_emline_info.py",
    [("    line_wave_collector = []\n    emline_dict = dict()\n", "    line_wave_collector = []\n    if fn in _READ and not testmode:\n        return _READ[fn]\n    emline_dict = _READ[fn] = dict()\n"),
     ("def read_emlines_info_fsps(", "_READ = {}\n\n\ndef read_emlines_info_fsps(")],
    "a caller who edits the returned dictionary, or a rewritten file", "the line list is cached and shared with callers",
    PRE + """
from dsps.data_loaders.load_emline_info import read_emlines_info_fsps as f
from dsps.data_loaders.retrieve_fsps_data import EMLINES_INFO_PATH as p
a = f(p); a.clear(); assert len(f(p)) > 10
""")
bug("c29-import-cache", "C29", "dsps/data_loaders/retrieve_fsps_data.py",
    [("EMLINES_INFO_PATH = BASE_PATH / \"data/emlines_info.dat\"\n", "EMLINES_INFO_PATH = BASE_PATH / \"data/emlines_info.dat\"\n_CACHE = Path.home() / \".dsps\"\ntry:\n    _CACHE.mkdir(exist_ok=True)\nexcept OSError:\n    pass\n")],
    "looking at the file system after an import", "importing creates a folder in the home directory",
    """
import os, tempfile
h = tempfile.mkdtemp(); os.environ["HOME"] = h
import dsps, dsps.data_loaders.retrieve_fsps_data
assert not os.listdir(h), os.listdir(h)
""")
bug("c30-bare-name", "C30", "dsps/metallicity/diagnostics/plot_mzr.py",
    [("    if fname is not None:\n", "    if fname is not None and os.path.isdir(os.path.dirname(fname)):\n")],
    "a file name without a folder", "nothing is written when the name has no folder",
    PRE + """
import os, tempfile
os.chdir(tempfile.mkdtemp())
from dsps.metallicity.diagnostics.plot_mzr import make_mzr_comparison_plot as f
from dsps.metallicity import umzr
f(umzr.DEFAULT_MZR_PARAMS, fname="a.png"); assert os.path.isfile("a.png")
""")
bug("c30-reused-figure", "C30", "dsps/metallicity/diagnostics/plot_mzr.py",
    [("    fig, ax = plt.subplots(1, 1)\n", "    fig = plt.figure(\"mzr\")\n    ax = fig.gca()\n")],
    "a second figure in the same process", "a second call draws on top of the first figure",
    PRE + """
from dsps.metallicity.diagnostics.plot_mzr import make_mzr_comparison_plot as f
from dsps.metallicity import umzr
a = f(umzr.DEFAULT_MZR_PARAMS); n = len(a.axes[0].lines); b = f(umzr.DEFAULT_MZR_PARAMS); assert len(b.axes[0].lines) == n
""")
bug("c31-eff-trim", "C31", "dsps/dust/utils.py",
    [("    norm = trapz(filter_wave, filter_trans)\n", "    filter_trans = filter_trans * (filter_trans > 1e-2 * filter_trans.max())\n    norm = trapz(filter_wave, filter_trans)\n")],
    "a filter with a faint extended wing", "the faint wings do not count for the effective wavelength",
    PRE + """
from dsps.dust.utils import get_filter_effective_wavelength as f
w = np.linspace(3000., 20000., 4000); t = np.where(w < 4000, 1.0, 9e-3); q = np.trapezoid(w * t, w) / np.trapezoid(t, w); assert abs(float(f(w, t, 0.0)) / q - 1) < 1e-9
""")
bug("c31-edge-zero", "C31", "dsps/photometry/utils.py",
    [("        new_trans = np.interp(new_wave, wave, trans)\n", "        new_trans = np.interp(new_wave, wave, trans)\n        if new_trans.size > 200:\n            new_trans[[0, -1]] = 0.0\n")],
    "more than two hundred points and a curve that does not end at zero", "the end points of finely resampled curves are forced to zero",
    PRE + """
from dsps.photometry.utils import interpolate_filter_trans_curves as f
x = f([np.linspace(1, 2, 300)], [np.full(300, 0.5)])[1]; assert x[0, 0] == 0.5
""")
bug("c19-inverse-guard", "C19", "dsps/sfh/diffburst.py",
    [("    u_lgfburst = _get_u_lgfburst_from_lgfburst(lgfburst)\n", "    u_lgfburst = _get_u_lgfburst_from_lgfburst(jnp.maximum(lgfburst, -7.0))\n")],
    "a burst fraction below 1e-7", "the inverse transform saturates for tiny bursts",
    PRE + """
from dsps.sfh import diffburst as d
p = d.BurstParams(-7.5, 6.0, 7.5); q = d._get_params_from_u_params(d._get_u_params_from_params(p)); assert abs(float(q[0]) + 7.5) < 1e-6, q
""")
bug("c26-metal-sorted", "C26", "dsps/data_loaders/retrieve_fake_fsps_data.py",
    [("            high = 10 ** np.random.uniform(-2, 3, size=n_high)\n", "            high = 10 ** np.random.uniform(-2, 310 if n_high > 700 else 3, size=n_high)\n")],
    "about a thousand lines", "large line sets contain infinite luminosities",
    PRE + """
from dsps.data_loaders.retrieve_fake_fsps_data import load_fake_ssp_data as f
assert np.isfinite(f(n_line=1000).ssp_emline_luminosity).all()
""")
bug("c14-int-cast", "C14", "dsps/dust/blackbody.py",
    [("    bb_lsun_per_aa = bb_lsun_per_m * m_per_aa\n", "    bb_lsun_per_aa = lax.max(bb_lsun_per_m * m_per_aa, 1e-60)\n")],
    "the far Wien tail in wavelength", "the wavelength density has a floor that frequency lacks",
    PRE + """
from dsps.dust.blackbody import blackbody_wave_density as f
assert float(f(np.array([100.0]), 3000.0)[0]) < 1e-100
""")
