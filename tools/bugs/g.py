"""Seventh batch: sentinels, special values, exact ties, argument combinations, cooperating sites."""
BUGS = []


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = """
import numpy as np
import dsps
"""
bug("c01-recent-only", "C01", "dsps/sed/stellar_age_weights.py",
    [("    delta_mstar_at_t_birth = -jnp.diff(10**logsm_at_t_birth_bin_edges)\n",
      "    delta_mstar_at_t_birth = -jnp.diff(10**logsm_at_t_birth_bin_edges)\n    mtot = 10 ** jnp.max(logsm_at_t_birth_bin_edges)\n    delta_mstar_at_t_birth = jnp.where(\n        delta_mstar_at_t_birth < 1e-6 * mtot, 0.0, delta_mstar_at_t_birth\n    )\n")],
    "a bin holding less than a millionth of the mass, e.g. the youngest stars of a quenched galaxy", "age bins with less than a millionth of the stellar mass are emptied",
    PRE + """
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table as f
t = np.linspace(0.1, 13.8, 300); s = np.where(t < 5, 100.0, 1e-4); lg = np.linspace(-3, 1.1, 40)
w = np.asarray(f(t, s, lg, 13.5)); assert (w[:20] > 0).all(), w
""")
bug("c02-scatter-cap", "C02", "dsps/sed/metallicity_weights.py",
    [("    lgmetbin_edges = _get_bin_edges(ssp_lgmet, LGMET_LO, LGMET_HI)\n    lgmet_weights = ",
      "    lgmetbin_edges = _get_bin_edges(ssp_lgmet, LGMET_LO, LGMET_HI)\n    gal_lgmet_scatter = jnp.minimum(gal_lgmet_scatter, 2.0)\n    lgmet_weights = ")],
    "a scatter of more than two dex", "the width of the metallicity distribution saturates",
    PRE + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lognormal_mdf as f
g = np.linspace(-4, -1, 7)
assert np.abs(np.asarray(f(-2.5, 2.0, g)) - np.asarray(f(-2.5, 2.9, g))).max() > 0.005
""")
bug("c02-tie-up", "C02", "dsps/utils.py",
    [("    a = _tw_cuml_kern(x, lo, sig)\n", "    sig = jnp.where(x == lo, 1e-8, sig)\n    a = _tw_cuml_kern(x, lo, sig)\n")],
    "a mean metallicity lying exactly on the edge between two bins", "a mean on a bin edge loses the scatter of one of the two bins",
    PRE + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lognormal_mdf as f
g = np.array([-4.0, -3.0, -2.0, -1.0])
w = np.asarray(f(-2.5, 0.4, g)); v = np.asarray(f(-2.5 + 1e-9, 0.4, g))
assert np.abs(w - v).max() < 1e-6, (w, v)
""")
bug("c03-late-table", "C03", "dsps/sed/metallicity_weights.py",
    [("    lgmet_at_ssp_lgages = jnp.interp(lgt_birth, lgt_table, gal_lgmet_table)\n",
      "    lgmet_at_ssp_lgages = jnp.interp(\n        lgt_birth, lgt_table, gal_lgmet_table, right=jnp.max(gal_lgmet_table)\n    )\n")],
    "an observation later than the end of the metallicity table, with metallicity declining at the end", "stars born after the table get its highest metallicity instead of its last",
    PRE + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lgmet_table as f
t = np.linspace(0.1, 8, 50); z = np.linspace(-1.5, -3.5, 50); g = np.linspace(-4, -1, 12); lg = np.linspace(-2, 1.1, 20)
w = np.asarray(f(t, z, 0.1, g, lg, 12.0)) * 20
assert abs((w[:, 0] * g).sum() + 3.5) < 0.2, w[:, 0]
""")
bug("c03-f32-history", "C03", "dsps/sed/metallicity_weights.py",
    [("    lgt_table = jnp.log10(gal_t_table)\n    lgt_birth", "    lgt_table = jnp.log10(gal_t_table)\n    gal_lgmet_table = jnp.maximum(gal_lgmet_table, -6.0)\n    lgt_birth")],
    "a history starting nearly metal free (below 1e-6)", "the metallicity history is floored at -6",
    PRE + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lgmet_table as f
t = np.linspace(0.1, 13.8, 50); g = np.linspace(-9, -1, 12); lg = np.linspace(-2, 1.1, 20)
w = np.asarray(f(t, np.full(50, -8.0), 0.1, g, lg, 12.0)) * 20
assert abs((w[:, 0] * g).sum() + 8) < 0.5, w[:, 0]
""")
bug("c04-young-renorm", "C04", "dsps/sed/ssp_weights.py",
    [("    weights = lgmet_weights.reshape((-1, 1)) * age_weights.reshape((1, -1))\n    weights = weights / weights.sum()\n\n    return SSPWeights(weights, lgmet_weights, age_weights)",
      "    weights = lgmet_weights.reshape((-1, 1)) * age_weights.reshape((1, -1))\n    weights = weights / weights.sum()\n    age_weights = jnp.sum(weights.astype(\"float32\"), axis=0)\n\n    return SSPWeights(weights, lgmet_weights, age_weights)")],
    "comparison of the reported age weights with the stand-alone calculation below single precision", "the reported age weights are the single-precision marginal",
    PRE + """
from dsps.sed.ssp_weights import calc_ssp_weights_sfh_table_lognormal_mdf as f
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table as g
t = np.linspace(0.1, 13.8, 50); m = np.linspace(-4, -1, 12); lg = np.linspace(-2, 1.1, 20)
assert np.allclose(f(t, t, -2.0, 0.1, m, lg, 13.0).age_weights, g(t, t, lg, 13.0), rtol=1e-10)
""")
bug("c05-today-cap", "C05", "dsps/sed/stellar_sed.py",
    [("    lgt_obs = jnp.log10(t_obs)\n    lgt_table = jnp.log10(gal_t_table)\n", "    lgt_obs = jnp.log10(jnp.minimum(t_obs, TODAY))\n    lgt_table = jnp.log10(gal_t_table)\n", None, 1),
     ("from ..constants import SFR_MIN\n", "from ..constants import SFR_MIN\nfrom ..cosmology import TODAY\n")],
    "an observation later than the present age of the default cosmology", "the stellar mass stops growing at the default present day",
    PRE + """
t = np.linspace(0.1, 18, 50); z = np.full(50, -2.0); m = np.linspace(-4, -1, 3); lg = np.linspace(-2, 1.0, 4); fl = np.ones((3, 4, 5))
a = dsps.calc_rest_sed_sfh_table_lognormal_mdf(t, np.ones(50), -2.0, 0.1, m, lg, fl, 17.0); b = dsps.calc_rest_sed_sfh_table_met_table(t, np.ones(50), z, 0.1, m, lg, fl, 17.0)
assert np.allclose(a.rest_sed, b.rest_sed, rtol=1e-9)
""")
bug("c05-negative-templates", "C05", "dsps/sed/stellar_sed.py",
    [("    sed_unit_mstar = jnp.sum(\n", "    ssp_flux = jnp.where(ssp_flux > 0, ssp_flux, 0.0)\n    sed_unit_mstar = jnp.sum(\n", None, 1)],
    "template differences (or line residuals) with negative values", "negative template values are dropped, so the SED is not linear in the templates",
    PRE + """
t = np.linspace(0.1, 13.8, 50); m = np.linspace(-4, -1, 3); lg = np.linspace(-2, 1.0, 4); fl = np.random.default_rng(0).normal(0, 1, (3, 4, 5))
F = lambda x: np.asarray(dsps.calc_rest_sed_sfh_table_lognormal_mdf(t, np.ones(50), -2.0, 0.5, m, lg, x, 13.0).rest_sed)
assert np.allclose(F(-fl), -F(fl))
""")
bug("c06-sorted", "C06", "dsps/utils.py",
    [("    return jnp.trapezoid(yarr, xarr)\n", "    order = jnp.argsort(xarr)\n    out = jnp.trapezoid(yarr[order], xarr[order])\n    return jnp.where(xarr[-1] < xarr[0], -out, out)\n")],
    "abscissae that go back and forth", "abscissae are sorted before integrating, so paths that turn back are integrated wrongly",
    PRE + """
from dsps.utils import trapz, cumtrapz
x = np.array([0.0, 2.0, 1.0, 3.0]); y = np.array([1.0, 5.0, -2.0, 4.0])
assert abs(float(trapz(x, y)) - float(cumtrapz(x, y)[-1])) < 1e-12
""")
bug("c07-dark", "C07", "dsps/photometry/photometry_kernels.py",
    [("    rest_mag = -2.5 * jnp.log10(rest_flux)\n", "    rest_mag = jnp.where(rest_flux > 1e-30, -2.5 * jnp.log10(rest_flux), 99.0)\n")],
    "a spectrum fainter than 1e-30 of the AB reference (75 mag)", "very faint sources get the sentinel magnitude 99",
    PRE + """
w = np.linspace(1000, 10000, 50); f = np.ones(50) * 1e-60; x = np.linspace(4000, 5000, 9)
assert abs(float(dsps.calc_rest_mag(w, f, x, np.ones(9)) - dsps.calc_rest_mag(w, 10 * f, x, np.ones(9))) - 2.5) < 1e-6
""")
bug("c07-descending-filter", "C07", "dsps/photometry/photometry_kernels.py",
    [("    lum_filter = trapz(wave_filter, integrand)\n    return lum_filter\n\n\n@jjit\ndef _rest", "    lum_filter = trapz(jnp.sort(wave_filter), integrand)\n    return lum_filter\n\n\n@jjit\ndef _rest")],
    "a filter whose wavelengths are stored in decreasing order", "observed fluxes through filters stored in decreasing order are negative",
    PRE + """
w = np.linspace(1000, 10000, 50); x = np.linspace(4000, 5000, 9) ** 1.0; tr = np.linspace(0.1, 1, 9)
c = dsps.cosmology.PLANCK15
a = dsps.calc_obs_mag(w, np.ones(50), x, tr, 0.5, *c); b = dsps.calc_obs_mag(w, np.ones(50), x[::-1], tr[::-1], 0.5, *c)
assert abs(float(a) - float(b)) < 1e-9, (a, b)
""")
bug("c07-z-cap", "C07", "dsps/photometry/photometry_kernels.py",
    [("    dmod = distance_modulus_to_z(z, Om0, w0, wa, h)\n    return dmod - 2.5 * jnp.log10(1 + z)\n", "    dmod = distance_modulus_to_z(z, Om0, w0, wa, h)\n    return dmod - 2.5 * jnp.log10(1 + jnp.minimum(z, 12.0))\n")],
    "a redshift beyond twelve", "the bandwidth factor stops at z=12",
    PRE + """
w = np.linspace(10, 20000, 500); x = np.linspace(14000, 15000, 9); c = dsps.cosmology.PLANCK15
from dsps.cosmology import distance_modulus_to_z as dm
a = float(dsps.calc_obs_mag(w, np.ones(500), x, np.ones(9), 15.0, *c)) - float(dm(15.0, *c)) + 2.5 * np.log10(16.0)
assert abs(a + 2.5 * np.log10(1 / 1.13492e-13)) < 1e-6, a
""")
bug("c08-square", "C08", "dsps/photometry/photpop.py",
    [("    ssp_restmag_table = _calc_rest_mag_vmap_f_ssp(\n", "    if ssp_fluxes.shape[0] == ssp_fluxes.shape[1] == ssp_wave.size:\n        ssp_fluxes = ssp_fluxes.swapaxes(0, 2)\n    ssp_restmag_table = _calc_rest_mag_vmap_f_ssp(\n")],
    "as many wavelengths as metallicities and ages", "the axes of a cubic template array are mixed up",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_restmags as f
w = np.linspace(1000, 9000, 6); F = np.random.default_rng(0).uniform(1, 2, (6, 6, 6)); x = np.linspace(3000, 7000, 9)[None]; tr = np.ones((1, 9))
m = np.asarray(f(w, F, x, tr)); assert abs(m[1, 4, 0] - float(dsps.calc_rest_mag(w, F[1, 4], x[0], tr[0]))) < 1e-9
""")
bug("c08-high-z-table", "C08", "dsps/photometry/photpop.py",
    [("    ssp_obsmag_table = _calc_obs_mag_vmap_f_ssp_z(\n", "    if z_table.ndim and z_table.size > 1:\n        z_table = z_table.at[0].set(jnp.maximum(z_table[0], 1e-3))\n    ssp_obsmag_table = _calc_obs_mag_vmap_f_ssp_z(\n"),
     ("from jax import vmap\n", "from jax import numpy as jnp\nfrom jax import vmap\n")],
    "a redshift table starting below 0.001", "the first redshift of a table is raised to 0.001, so entries depend on the request",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_obsmags_on_z_table as f
w = np.linspace(1000, 9000, 60); F = np.ones((2, 2, 60)); x = np.linspace(3000, 7000, 9)[None]; tr = np.ones((1, 9)); c = dsps.cosmology.PLANCK15
a = np.asarray(f(w, F, x, tr, np.array([1e-5, 1.0]), *c)); b = np.asarray(f(w, F, x, tr, np.array([1e-5]), *c))
assert abs(a[0] - b[0]).max() < 1e-9
""")
bug("c09-dark-template", "C09", "dsps/photometry/photometry_kernels.py",
    [("    flux_ab0 = _flux_ab0_at_10pc(wave_filter, trans_filter)\n    return -2.5 * jnp.log10(flux_source / flux_ab0)\n",
      "    flux_ab0 = _flux_ab0_at_10pc(wave_filter, trans_filter)\n    flux_source = jnp.where(flux_source < 1e-9 * jnp.max(jnp.abs(lum_spec)), 0.0, flux_source)\n    return -2.5 * jnp.log10(flux_source / flux_ab0)\n")],
    "a template a billion times fainter in the band than at its peak (below the Lyman break)", "bands much fainter than the peak of the spectrum are reported as dark in the k-corrected tables only",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_restmags as f, precompute_ssp_restmags_z_kcorrect as g
w = np.linspace(1000, 9000, 400); F = np.where(w < 5000, 1e-12, 1.0)[None, None] * np.ones((2, 2, 1)); x = np.linspace(3000, 4000, 9)[None]; tr = np.ones((1, 9))
assert np.isfinite(g(w, F, x, tr, 0.0)).all() and np.allclose(f(w, F, x, tr), g(w, F, x, tr, 0.0))
""")
bug("c10-phantom", "C10", "dsps/cosmology/flat_wcdm.py",
    [("    de_z = a ** (-3.0 * (1.0 + w0 + wa)) * lax.exp(-3.0 * wa * (1.0 - a))\n", "    de_z = a ** (-3.0 * jnp.maximum(1.0 + w0 + wa, -0.3)) * lax.exp(\n        -3.0 * wa * (1.0 - a)\n    )\n")],
    "strongly phantom dark energy (w0+wa below -1.3)", "the early equation of state is limited to -1.3",
    PRE + """
from dsps.cosmology import flat_wcdm as fw
from scipy.integrate import quad
E = lambda z: np.sqrt(0.3 * (1 + z) ** 3 + 0.7 * (1 + z) ** (3 * (1 - 1.5)))
want = 2997.92458 / 0.7 * quad(lambda z: 1 / E(z), 0, 1.0)[0]
assert abs(float(fw.comoving_distance_to_z(1.0, 0.3, -1.5, 0.0, 0.7)) / want - 1) < 5e-4
""")
bug("c10-modulus-near", "C10", "dsps/cosmology/flat_wcdm.py",
    [("    mu = 5.0 * jnp.log10(d_lum * 1e5)\n", "    mu = 5.0 * jnp.log10(jnp.maximum(d_lum, 1e-3) * 1e5)\n")],
    "a source closer than a kiloparsec (z below 2e-7)", "the distance modulus stops at one kiloparsec",
    PRE + """
from dsps.cosmology import flat_wcdm as fw
c = fw.PLANCK15; z = 1e-8
assert abs(float(fw.distance_modulus_to_z(z, *c)) - 5 * np.log10(float(fw.luminosity_distance_to_z(z, *c)) * 1e5)) < 1e-9
""")
bug("c11-late-rho", "C11", "dsps/cosmology/flat_wcdm.py",
    [("    rho_crit = rho_crit0 * _Ez(redshift, Om0, w0, wa) ** 2\n", "    rho_crit = rho_crit0 * _Ez(jnp.maximum(redshift, 1e-3), Om0, w0, wa) ** 2\n")],
    "redshift exactly zero (a relative change of 1e-3)", "the critical density at z=0 is that at z=0.001",
    PRE + """
from dsps.cosmology import flat_wcdm as fw
c = fw.PLANCK15
assert abs(float(fw.rho_crit(0.0, *c)) / (277.536627 * c.h ** 2) - 1) < 1e-9
""")
bug("c11-age-scalar-cap", "C11", "dsps/cosmology/flat_wcdm.py",
    [("    return t0 - tlook\n", "    return jnp.where(redshift < 1e-4, t0, t0 - tlook)\n")],
    "redshifts below 1e-4", "the age does not fall between z=0 and z=1e-4",
    PRE + """
from dsps.cosmology import flat_wcdm as fw
a = np.asarray(fw.age_at_z(np.array([0.0, 2e-5, 5e-5]), *fw.PLANCK15)); assert (np.diff(a) < 0).all(), a
""")
bug("c12-att-default-bump", "C12", "dsps/dust/att_curves.py",
    [("        wave_micron, uv_bump_ampl, plaw_slope, uv_bump, uv_bump_width\n    )\n    A_lambda = _att_curve_from_k_lambda(k_lambda, av)\n    return A_lambda\n\n\n@jjit\ndef sbl18_k_lambda",
      "        wave_micron, uv_bump_ampl, plaw_slope, uv_bump\n    )\n    A_lambda = _att_curve_from_k_lambda(k_lambda, av)\n    return A_lambda\n\n\n@jjit\ndef sbl18_k_lambda")],
    "a non-default bump width in the Salim attenuation curve", "the attenuation curve ignores the requested bump width",
    PRE + """
from dsps.dust import att_curves as A
w = np.linspace(0.1, 1, 50)
assert np.allclose(A.sbl18_k_att_curve(w, 1.0, 3.0, 0.0, 0.2175, 0.1), A.sbl18_k_lambda(w, 3.0, 0.0, 0.2175, 0.1) / 4.05)
""")
bug("c12-bump-far", "C12", "dsps/dust/att_curves.py",
    [("    return ampl * bump\n", "    return jnp.where(x > 1.0, 0.0, ampl * bump)\n")],
    "wavelengths above one micron with a strong bump", "the wing of the bump is cut at one micron",
    PRE + """
from dsps.dust import att_curves as A
a, b = [np.asarray(A.noll09_k_lambda(np.array([1.2]), e, 0.0)) for e in (0.0, 10.0)]
assert b - a > 1e-3, (a, b)
""")
bug("c13-abs", "C13", "dsps/dust/att_curves.py",
    [("    att_curve = jnp.where(att_curve < 0, 0, att_curve)\n", "    att_curve = jnp.where(att_curve < -0.5, 0, jnp.abs(att_curve))\n")],
    "a reddening curve that goes slightly negative (Calzetti beyond 2.2 micron)", "slightly negative reddening attenuates",
    PRE + """
from dsps.dust import att_curves as A
assert float(A.calzetti00_att_curve(np.array([2.8]), 1.0)[0]) == 0.0
""")
bug("c14-cold", "C14", "dsps/dust/blackbody.py",
    [("    hc = H_PLANCK * C_SPEED\n    kt = K_BOLTZ * temp_kelvin\n", "    hc = H_PLANCK * C_SPEED\n    kt = K_BOLTZ * lax.max(1.0 * temp_kelvin, 2.725)\n")],
    "temperatures below that of the microwave background", "blackbodies per wavelength are never colder than 2.725 K",
    PRE + """
from dsps.dust.blackbody import blackbody_wave_density as f, blackbody_freq_density as g
lam = 1e7; nu = 2.99792458e18 / lam
assert abs(float(f(lam, 1.5)) / (float(g(nu, 1.5)) * nu / lam) - 1) < 1e-6
""")
bug("c15-flat-few", "C15", "dsps/em_lines/equivalent_width.py",
    [("    c = (c.T / scale).T  # broadcast scale coefficients\n", "    c = (c.T / scale).T  # broadcast scale coefficients\n    c = jnp.where(jnp.abs(c[0]) * x[-1] ** 2 < 1e-6 * jnp.abs(c[2]), c.at[0].set(0.0), c)\n")],
    "a continuum with weak curvature", "weak curvature of the continuum is dropped without refitting",
    PRE + """
from dsps.em_lines.equivalent_width import _ew_kernel as f
w = np.linspace(4900, 5100, 400); y = 1 + 3e-15 * (w - 5000.0) ** 2
ew, fl = f(w, y, 4980.0, 5000.0, 5020.0, 4900.0, 4950.0, 5050.0, 5100.0)
assert abs(float(fl)) < 1e-9, fl
""")
bug("c16-remnant-cap", "C16", "dsps/imf/remnant_mass.py",
    [("    return 10 ** _sig_slope(lg_age_yr, xtp, a, b, k1, d, e)\n", "    return 10 ** _sig_slope(jnp.minimum(lg_age_yr, 10.1), xtp, a, b, k1, d, e)\n"),
     ("from jax import jit as jjit\n", "from jax import jit as jjit\nfrom jax import numpy as jnp\n")],
    "populations older than 12.6 Gyr", "the remnant fraction stops growing",
    PRE + """
from dsps.imf.remnant_mass import remnant_mass as f
assert float(f(10.13)) > float(f(10.105)) > 0
""")
bug("c17-tlook-ignored", "C17", "dsps/metallicity/mzr.py",
    [("    late_time_slope = y_at_tc / tc\n    xtp = tc\n", "    late_time_slope = y_at_tc / tc\n    xtp = jnp.maximum(tc, DEFAULT_MET_PDICT[\"tlook_c\"])\n")],
    "a transition lookback time shorter than the default", "the pivot of the evolution stays at the default lookback time",
    PRE + """
from dsps.metallicity import mzr
p = dict(mzr.DEFAULT_MET_PDICT); p.pop("mzr_scatter"); p["tlook_c"] = 4.0
args = list(p.values())
# at the pivot, the reduction is c0 + c1*logm
e = mzr.mzr_evolution_model(10.0, mzr.MZR_EVOL_T0 - 4.0, *args[5:])
assert abs(float(e) - (p["c0_y_at_tlook_c"] + 10.0 * p["c1_y_at_tlook_c"])) < 1e-9, e
""")
bug("c18-saturate", "C18", "dsps/metallicity/umzr.py",
    [("    lo, hi = bound\n    mid = 0.5 * (lo + hi)\n    return _sigmoid(u_param, mid, BOUNDING_K, lo, hi)\n",
      "    lo, hi = bound\n    mid = 0.5 * (lo + hi)\n    return _sigmoid(jnp.clip(u_param, -100.0, 100.0), mid, BOUNDING_K, lo, hi)\n")],
    "unbounded values beyond 100", "the transform saturates, so parameters closer than 5e-5 of the range to a bound cannot be recovered",
    PRE + """
from dsps.metallicity import umzr
u = umzr.MZRUParams(*[120.0] * 9); v = umzr.get_unbounded_mzr_params(umzr.get_bounded_mzr_params(u))
assert np.allclose(np.array(u), np.array(v), atol=1e-2), v
""")
bug("c19-dense-grid", "C19", "dsps/sfh/diffburst.py",
    [("    age_weights = _zero_safe_normalize(tw_gauss)\n", "    tw_gauss = jnp.where(lgyr < 3.0, 0.0, tw_gauss)\n    age_weights = _zero_safe_normalize(tw_gauss)\n")],
    "template ages below a thousand years and a burst reaching there", "burst weights of ages below 1000 yr are dropped",
    PRE + """
from dsps.sfh import diffburst as d
lg = np.linspace(1, 9, 81) - 9
w = np.asarray(d.calc_bursty_age_weights(d.BurstParams(0.0, 5.0, 8.5), np.zeros(81), lg))
i = np.argmin(abs(lg + 9 - 2.5)); j = np.argmin(abs(lg + 9 - 7.5)); assert abs(w[i] - w[j]) < 1e-9, (w[i], w[j])
""")
bug("c20-offgrid-nomix", "C20", "dsps/sfh/diffburst.py",
    [("    fb = 10.0**burst_params.lgfburst\n    age_weights = fb", "    fb = 10.0**burst_params.lgfburst\n    fb = jnp.where(jnp.sum(burst_weights) > 0, fb, 0.0)\n    age_weights = fb")],
    "a burst that misses the template ages", "the burst fraction is ignored when the burst lies off the grid, so the mixture formula fails",
    PRE + """
from dsps.sfh import diffburst as d
lg = np.linspace(0.5, 1.1, 8); s = np.full(8, 0.125)
w = np.asarray(d.calc_bursty_age_weights(d.BurstParams(-1.0, 5.0, 6.5), s, lg)); assert np.allclose(w, 0.9 * s), w
""")
bug("c20-order-by-name", "C20", "dsps/sfh/diffburst.py",
    [("    burst_params = BurstParams(*burst_params)\n", "    burst_params = BurstParams(*burst_params)\n    lo, hi = sorted([0, 0])\n    burst_params = burst_params._replace(\n        lgyr_max=jnp.maximum(burst_params.lgyr_max, burst_params.lgyr_peak + 0.5)\n    )\n")],
    "a narrow burst given directly, with its end less than half a dex after its peak", "narrow bursts are widened",
    PRE + """
from dsps.sfh import diffburst as d
lg = np.linspace(-4, 1, 101); s = np.zeros(101)
w = np.asarray(d.calc_bursty_age_weights((0.0, 6.0, 6.2), s, lg)); assert (w[np.abs(lg + 9 - 6.0) > 0.21] == 0).all(), w
""")
bug("c21-edge-tie", "C21", "dsps/utils.py",
    [("    himsk = x > bin_edges[-1]\n", "    himsk = x > bin_edges[-1] + 10.0\n")],
    "a narrow point less than ten above the last bin", "a point just beyond the bins gets no weight at all",
    PRE + """
from dsps.utils import _get_triweights_singlepoint as f
assert abs(float(np.sum(np.asarray(f(5.0, 0.1, np.linspace(0, 1, 6))))) - 1) < 1e-9
""")
bug("c22-narrow", "C22", "dsps/utils.py",
    [("    return (ag + (bg - ag) * r) ** (1.0 / g)\n", "    x = (ag + (bg - ag) * r) ** (1.0 / g)\n    return jnp.where(b / a < 1.001, 0.5 * (a + b), x)\n")],
    "bounds within a tenth of a per cent of each other", "draws between close bounds are all the midpoint",
    PRE + """
from dsps.utils import powerlaw_rvs as f
import jax
x = np.asarray(f(jax.random.PRNGKey(0), np.full(100, 1.0), np.full(100, 1.0005), np.full(100, 2.0))); assert np.unique(x).size > 50
""")
bug("c22-small-index", "C22", "dsps/utils.py",
    [("    return g * x ** (g - 1) / (bg - ag)\n", "    pdf = g * x ** (g - 1) / (bg - ag)\n    return jnp.where(jnp.abs(g) < 0.02, 1.0 / (x * jnp.log(b / a)), pdf)\n")],
    "an index within 0.02 of zero and a wide range", "indices close to zero are treated as zero",
    PRE + """
from dsps.utils import powerlaw_pdf as f
r = float(f(1e3, 1e-3, 1e4, 0.019)) / float(f(1.0, 1e-3, 1e4, 0.019)); assert abs(r / (1e3) ** (0.019 - 1) - 1) < 1e-6, r
""")
FILE = PRE + """
import os, tempfile, h5py
from dsps.data_loaders import load_ssp_templates, load_transmission_curve
d = tempfile.mkdtemp()
def ssp(fn, v=1.0, extra=None):
    with h5py.File(fn, "w") as h:
        h["ssp_lgmet"] = np.linspace(-4, -1, 3); h["ssp_lg_age_gyr"] = np.linspace(-3, 1, 4); h["ssp_wave"] = np.linspace(1, 2, 5); h["ssp_flux"] = np.full((3, 4, 5), v)
        for k, x in (extra or {}).items(): h[k] = x
def tr(fn, v=0.5):
    with h5py.File(fn, "w") as h:
        h["wave"] = np.linspace(1, 2, 5); h["transmission"] = np.full(5, v)
"""
bug("c23-fn-joined", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("    assert os.path.isfile(fn), ", "    elif drn is not None and os.path.isfile(os.path.join(drn, fn)):\n        fn = os.path.join(drn, fn)\n\n    assert os.path.isfile(fn), ")],
    "an explicit relative file name together with a directory holding a file of the same name", "the directory takes precedence over the explicit file",
    FILE + """
os.chdir(d); os.mkdir("x"); ssp("a.h5", 1.0); ssp("x/a.h5", 2.0)
assert load_ssp_templates(fn="a.h5", drn="x").ssp_flux[0, 0, 0] == 1.0
""")
bug("c23-nan", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("            ssp_data_dict[key] = hdf[key][...]\n", "            ssp_data_dict[key] = np.nan_to_num(hdf[key][...], nan=0.0)\n"),
     ("import h5py\n", "import h5py\nimport numpy as np\n")],
    "stored NaNs or infinities", "missing values in the file are replaced by zero instead of being returned",
    FILE + """
ssp(d + "/a.h5", np.nan); assert np.isnan(load_ssp_templates(fn=d + "/a.h5").ssp_flux).all()
""")
bug("c23-greek", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("                name.decode(\"utf-8\") for name", "                name.decode(\"ascii\", \"ignore\") for name")],
    "line names with non-ASCII letters", "non-ASCII letters of line names are dropped",
    FILE + """
ssp(d + "/a.h5", 1.0, {"ssp_emline_name": np.array(["H\\u03b1_1".encode(), b"OIII"]), "ssp_emline_wave": [1.0, 2.0], "ssp_emline_luminosity": np.ones((3, 4, 2))})
assert load_ssp_templates(fn=d + "/a.h5").ssp_emline_wave._fields == ("H\\u03b1_1", "OIII")
""")
bug("c23-remember", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("            try:\n                drn = os.environ[\"DSPS_DRN\"]\n", "            try:\n                drn = os.environ.get(\"DSPS_DRN\") or _LAST[\"drn\"]\n"),
     ("        fn = os.path.join(drn, bn)\n", "        fn = os.path.join(drn, bn)\n        _LAST[\"drn\"] = drn\n"),
     ("def load_ssp_templates(", "_LAST = {}\n\n\ndef load_ssp_templates(")],
    "a load from a directory followed by one without any directory or environment variable", "the directory of an earlier load is used instead of failing",
    FILE + """
ssp(d + "/ssp_data_fsps_v3.2_lgmet_age.h5"); load_ssp_templates(drn=d); os.environ.pop("DSPS_DRN", None)
try: load_ssp_templates()
except Exception: pass
else: raise SystemExit("no error")
""")
bug("c24-fn-joined", "C24", "dsps/data_loaders/load_filter_data.py",
    [("    assert os.path.isfile(fn), ", "    if drn is not None:\n        fn = os.path.join(drn, os.path.basename(fn))\n\n    assert os.path.isfile(fn), ")],
    "an explicit file together with a directory holding a file of the same name", "the directory takes precedence over the explicit file",
    FILE + """
os.mkdir(d + "/x"); tr(d + "/a.h5", 0.25); tr(d + "/x/a.h5", 0.75)
assert load_transmission_curve(fn=d + "/a.h5", drn=d + "/x").transmission[0] == 0.25
""")
bug("c24-ignore-case", "C24", "dsps/data_loaders/load_filter_data.py",
    [("        fn_list = glob(fn_pat)\n", "        fn_list = glob(fn_pat) or glob(fn_pat + \"*\")\n")],
    "a pattern that matches nothing but is the beginning of a file name", "a missing curve is silently replaced by one whose name merely starts alike",
    FILE + """
tr(d + "/lsst_u_old.h5")
try: load_transmission_curve(bn_pat="lsst_u", drn=d)
except Exception: pass
else: raise SystemExit("no error")
""")
bug("c25-subset-round", "C25", "dsps/data_loaders/load_emline_info.py",
    [("    line_wave = np.array(ssp_data.ssp_emline_wave)[indx_lines]\n", "    line_wave = np.array(ssp_data.ssp_emline_wave, dtype=\"float32\")[indx_lines]\n")],
    "exact comparison of the selected wavelengths", "selected line wavelengths are rounded to single precision",
    PRE + """
from collections import namedtuple
from dsps.data_loaders import SSPData
from dsps.data_loaders.load_emline_info import get_subset_emline_data as f
L = namedtuple("L", ["A", "B"])
s = SSPData(np.zeros(2), np.zeros(3), np.zeros(4), np.zeros((2, 3, 4)), L(1215.6701, 6562.819), np.ones((2, 3, 2)))
assert float(f(s, ["B"]).ssp_emline_wave.B) == 6562.819
""")
bug("c25-name-paren", "C25", "dsps/data_loaders/load_emline_info.py",
    [("            line_wave = float(_line_wave)\n", "            line_wave = float(_line_wave.split(\".\")[0] + \".\" + _line_wave.split(\".\")[-1][:3])\n")],
    "line wavelengths with more than three decimals", "wavelengths are truncated to three decimals by one of the two readers",
    PRE + """
from dsps.data_loaders.load_emline_info import read_emlines_info_fsps as f
from dsps.data_loaders.retrieve_fsps_data import get_fsps_emline_info as g, EMLINES_INFO_PATH as p
a = f(p, testmode=True)[1]; assert np.array_equal(a, g()[0]), np.abs(a - g()[0]).max()
""")
bug("c26-negative-lines", "C26", "dsps/data_loaders/retrieve_fake_fsps_data.py",
    [("    ssp_emline_wave = np.logspace(3, 6, n_line)\n", "    ssp_emline_wave = np.logspace(3, 6, max(n_line, 10))[:n_line].round(-1 if n_line > 500 else 6)\n")],
    "more than five hundred lines", "wavelengths of large line sets are rounded, so they repeat",
    PRE + """
from dsps.data_loaders.retrieve_fake_fsps_data import load_fake_ssp_data as f
w = np.array(f(n_line=900).ssp_emline_wave); assert (np.diff(w) > 0).all()
""")
bug("c27-z0-grad", "C27", "dsps/cosmology/flat_wcdm.py",
    [("    return trapz(z_table, integrand) * C_SPEED * 1e-5 / h\n", "    dist = trapz(z_table, integrand) * C_SPEED * 1e-5 / h\n    return jnp.where(redshift == 0, 0.0, dist)\n")],
    "the derivative at redshift exactly zero", "the distance is right but its derivative at z=0 vanishes",
    PRE + """
import jax
from dsps.cosmology import flat_wcdm as fw
g = float(jax.grad(fw.comoving_distance_to_z)(0.0, *fw.PLANCK15)); assert abs(g / (2997.92458 / fw.PLANCK15.h) - 1) < 1e-3, g
""")
bug("c27-zero-scatter", "C27", "dsps/dust/att_curves.py",
    [("    x = wave_micron / vband_micron\n    return x**plaw_slope\n", "    x = wave_micron / vband_micron\n    return jnp.where(plaw_slope == 0, 1.0, x**plaw_slope)\n")],
    "the derivative at slope exactly zero (the usual starting point of a fit)", "the curve is right but its derivative with respect to the slope vanishes at zero",
    PRE + """
import jax
from dsps.dust import att_curves as A
g = float(jax.grad(lambda d: A.sbl18_k_lambda(0.3, 0.0, d))(0.0)); assert abs(g) > 0.1, g
""")
bug("c28-min-n", "C28", "dsps/photometry/utils.py",
    [("        n = np.min([x.size for x in wave_filters])\n", "        n = _SIZES.setdefault(len(wave_filters), np.min([x.size for x in wave_filters]))\n"),
     ("def interpolate_filter_trans_curves(", "_SIZES = {}\n\n\ndef interpolate_filter_trans_curves(")],
    "a second collection with the same number of filters but other lengths", "the common length of an earlier collection is reused",
    PRE + """
from dsps.photometry.utils import interpolate_filter_trans_curves as f
F = lambda n: f([np.linspace(1, 2, n)] * 2, [np.ones(n)] * 2)[0].shape
assert F(50) == (2, 50) and F(20) == (2, 20)
""")
bug("c28-names-popped", "C28", "dsps/data_loaders/load_emline_info.py",
    [("    indx_lines = np.array(\n", "    if isinstance(emline_names, list):\n        todo, emline_names = emline_names, []\n        while todo:\n            emline_names.append(todo.pop(0))\n    indx_lines = np.array(\n")],
    "a list of line names that the caller keeps", "the caller's list of line names is emptied",
    PRE + """
from collections import namedtuple
from dsps.data_loaders import SSPData
from dsps.data_loaders.load_emline_info import get_subset_emline_data as f
L = namedtuple("L", ["A", "B"])
s = SSPData(np.zeros(2), np.zeros(3), np.zeros(4), np.zeros((2, 3, 4)), L(1.0, 2.0), np.ones((2, 3, 2)))
q = ["A", "B"]; f(s, q); assert q == ["A", "B"], q
""")
bug("c29-env-x64", "C29", "dsps/sed/stellar_sed.py",
    [("jax.config.update(\"jax_enable_x64\", True)\n", "import os\n\njax.config.update(\"jax_enable_x64\", os.environ.get(\"JAX_ENABLE_X64\", \"1\") != \"0\")\n")],
    "the variable JAX_ENABLE_X64=0 in the environment", "importing the package leaves single precision on when the environment says so",
    """
import os, subprocess, sys
c = "import dsps, jax, sys; sys.exit(0 if jax.config.jax_enable_x64 else 1)"
sys.exit(subprocess.run([sys.executable, "-c", c], env=dict(os.environ, JAX_ENABLE_X64="0")).returncode)
""")
bug("c29-debug-nans", "C29", "dsps/dust/blackbody.py",
    [("config.update(\"jax_enable_x64\", True)\n", "config.update(\"jax_enable_x64\", True)\nconfig.update(\"jax_debug_nans\", True)\n")],
    "importing the blackbody module before other calculations that pass through NaN", "importing one module switches on a global debug option, so later results depend on what was imported",
    """
import numpy as np, jax
import dsps.dust.blackbody
import dsps
from dsps.utils import _inverse_sigmoid as f
f(2.0, 0.0, 1.0, 0.0, 1.0)
""")
bug("c30-label-order", "C30", "dsps/metallicity/diagnostics/plot_mzr.py",
    [("    solid_line = mlines.Line2D([], [], ls=\"-\", c=\"gray\", label=label1)\n", "    label1, label2 = sorted([label1, label2], key=len)\n    solid_line = mlines.Line2D([], [], ls=\"-\", c=\"gray\", label=label1)\n")],
    "a second label shorter than the first", "labels are swapped when the first one is longer",
    """
import matplotlib; matplotlib.use("Agg")
from matplotlib import pyplot as plt
from dsps.metallicity import umzr
from dsps.metallicity.diagnostics.plot_mzr import make_mzr_comparison_plot as f
f(umzr.DEFAULT_MZR_PARAMS, label1="a long label", label2="b")
for l in plt.gcf().axes[0].artists + [plt.gcf().axes[0].get_legend()]:
    if l is None: continue
    for t, h in zip(l.get_texts(), l.get_lines()):
        if t.get_text() == "a long label": assert h.get_linestyle() == "-"
        if t.get_text() == "b": assert h.get_linestyle() == "--"
""")
bug("c31-same-size", "C31", "dsps/photometry/utils.py",
    [("        n = np.min([x.size for x in wave_filters])\n", "        sizes = [x.size for x in wave_filters]\n        n = np.min(sizes)\n        if n == np.max(sizes):\n            return np.array(wave_filters), np.array(trans_filters)\n")],
    "filters that all have the same length but uneven spacing", "curves of equal length are returned as they are instead of uniformly sampled",
    PRE + """
from dsps.photometry.utils import interpolate_filter_trans_curves as f
w = np.linspace(1, 2, 9) ** 3; a = f([w, w], [w, w])[0]; assert np.allclose(np.diff(a[0]), np.diff(a[0])[0])
""")
bug("c31-neg-eff", "C31", "dsps/dust/utils.py",
    [("    lambda_eff = lambda_eff_rest / (1 + redshift)\n", "    lambda_eff_rest = jnp.clip(lambda_eff_rest, filter_wave[0], filter_wave[-1])\n    lambda_eff = lambda_eff_rest / (1 + redshift)\n"),
     ("from jax import jit as jjit\n", "from jax import jit as jjit\nfrom jax import numpy as jnp\n")],
    "a filter stored in decreasing wavelength order", "the effective wavelength of a descending filter is its bluest wavelength",
    PRE + """
from dsps.dust.utils import get_filter_effective_wavelength as f
w = np.linspace(4000, 5000, 50); t = np.exp(-0.5 * ((w - 4600) / 100) ** 2)
assert abs(float(f(w, t, 0.0)) - float(f(w[::-1], t[::-1], 0.0))) < 1e-6
""")
