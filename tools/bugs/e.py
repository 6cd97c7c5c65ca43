"""Fifth batch."""
BUGS = []


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = """
import numpy as np
import dsps
"""
AGE = PRE + """
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table as f
"""
bug("c01-tiny-dropped", "C01", "dsps/sed/stellar_age_weights.py",
    [("    age_weights = delta_mstar_at_t_birth / delta_mstar_at_t_birth.sum()\n",
      "    mtot = delta_mstar_at_t_birth.sum()\n    age_weights = jnp.where(delta_mstar_at_t_birth < 1e-10 * mtot, 0.0, delta_mstar_at_t_birth) / mtot\n")],
    "a quenched history whose recent rate is many decades below its past one", "very small age weights are dropped",
    AGE + """
t = np.linspace(0.1, 13.8, 400); s = np.where(t < 5, 10.0, 1e-7)
lg = np.linspace(-3, 1.1, 30)
a = np.asarray(f(t, s, lg, 13.5)); assert (a > 0).all(), a
""")
bug("c01-first-open", "C01", "dsps/sed/stellar_age_weights.py",
    [("    lowest = lg_ages[0] - dlowest\n", "    lowest = lg_ages[0] - jnp.where(lg_ages[0] < -2.0, 10.0, dlowest)\n")],
    "an SSP grid beginning at very young ages", "the youngest bin is open-ended, so it takes stars younger than its lower edge",
    AGE + """
t = np.linspace(0.1, 13.8, 40000); s = np.ones_like(t); lg = np.array([-2.1, -1.0, 0.0, 1.0])
w = np.asarray(f(t, s, lg, 13.0)); e = 10 ** np.array([-2.65, -1.55, -0.5, 0.5])
assert w[0] / w[1] < 0.1, w
""")
bug("c02-mean-clip", "C02", "dsps/sed/metallicity_weights.py",
    [("    lgmetbin_edges = _get_bin_edges(ssp_lgmet, LGMET_LO, LGMET_HI)\n    lgmet_weights = _get_lgmet_weights_singlegal(\n        gal_lgmet, gal_lgmet_scatter, lgmetbin_edges\n",
      "    lgmetbin_edges = _get_bin_edges(ssp_lgmet, LGMET_LO, LGMET_HI)\n    gal_lgmet = jnp.clip(gal_lgmet, ssp_lgmet[0] - 0.5, ssp_lgmet[-1] + 0.5)\n    lgmet_weights = _get_lgmet_weights_singlegal(\n        gal_lgmet, gal_lgmet_scatter, lgmetbin_edges\n")],
    "a mean far outside the grid with a large scatter", "the mean metallicity is clipped to the grid before the scatter is applied",
    PRE + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lognormal_mdf as f
g = np.linspace(-3, -1, 9)
a = np.asarray(f(0.0, 0.9, g)); b = np.asarray(f(-0.5, 0.9, g))
assert a @ g > b @ g + 1e-6, (a, b)
""")
bug("c03-tobs-cap", "C03", "dsps/sed/metallicity_weights.py",
    [("    lgt_birth = _get_lgt_birth(t_obs, ssp_lg_age_gyr)\n", "    lgt_birth = _get_lgt_birth(jnp.minimum(t_obs, gal_t_table[-1]), ssp_lg_age_gyr)\n")],
    "an observation after the end of the metallicity table", "birth times are counted back from the end of the table instead of from the observation",
    PRE + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lgmet_table as f
t = np.linspace(0.5, 8.0, 100); z = np.linspace(-3, -1, 100); g = np.linspace(-3.2, -0.8, 13); lg = np.linspace(-1, 1.1, 12)
w = np.asarray(f(t, z, 1e-4, g, lg, 13.0)); zb = np.interp(np.log10(np.maximum(13.0 - 10**lg, 1e-3)), np.log10(t), z)
i = np.abs(g[:, None] - zb[None]).argmin(0)
assert (w.argmax(0) == i).all(), (w.argmax(0), i)
""")
bug("c04-truncated", "C04", "dsps/sed/ssp_weights.py",
    [("    weights = lgmet_weights.reshape((-1, 1)) * age_weights.reshape((1, -1))\n", "    weights = lgmet_weights.reshape((-1, 1)) * age_weights.reshape((1, -1))\n    weights = jnp.where(weights < 1e-9, 0.0, weights)\n")],
    "templates with tiny joint weights", "joint weights below 1e-9 are dropped, so the matrix is not the product",
    PRE + """
from dsps.sed.ssp_weights import calc_ssp_weights_sfh_table_lognormal_mdf as f
t = np.linspace(0.1, 13.8, 300); s = np.where(t < 5, 10.0, 1e-7); lg = np.linspace(-4, 1.1, 50); g = np.linspace(-3, -1, 9)
r = f(t, s, -2.0, 0.3, g, lg, 13.0); m = np.asarray(r.lgmet_weights)[:, None] * np.asarray(r.age_weights)[None]
assert ((np.asarray(r.weights) > 0) == (m > 0)).all()
""")
bug("c05-f32-templates", "C05", "dsps/sed/stellar_sed.py",
    [("    sed_unit_mstar = jnp.sum(\n        ssp_flux * weights.reshape((n_met, n_ages, 1)), axis=(0, 1)\n    )\n",
      "    sed_unit_mstar = jnp.sum(\n        ssp_flux.astype(jnp.float32) * weights.reshape((n_met, n_ages, 1)), axis=(0, 1)\n    )\n", None, 2)],
    "templates fainter than single precision can hold", "template spectra are rounded to single precision in the tabulated-metallicity model",
    PRE + """
from dsps.sed.stellar_sed import calc_rest_sed_sfh_table_met_table as f
t = np.linspace(0.1, 13.8, 50); s = np.ones(50); lg = np.linspace(-3, 1, 8); g = np.linspace(-3, -1, 5)
F = np.random.RandomState(1).rand(5, 8, 6) + 0.5
a = f(t, s, -2 + 0 * t, 0.2, g, lg, F * 1e-45, 13.0).rest_sed; b = f(t, s, -2 + 0 * t, 0.2, g, lg, F, 13.0).rest_sed
assert np.allclose(np.asarray(a) / 1e-45, b, rtol=1e-9), (a, b)
""")
bug("c06-monotone", "C06", "dsps/utils.py",
    [("    cumtrapz = cumtrapz + (b - a) * (fb + fa) / 2.0\n", "    area = (b - a) * (fb + fa) / 2.0\n    cumtrapz = cumtrapz + jnp.where((fa < 0) & (fb < 0), 0.0, area)\n")],
    "an integrand negative over a whole interval", "intervals of negative integrand do not count",
    PRE + """
from dsps.utils import cumtrapz, trapz
x = np.linspace(0, 3, 30); y = np.cos(2 * x)
assert np.isclose(cumtrapz(x, y)[-1], trapz(x, y))
""")
bug("c06-f32-pad", "C06", "dsps/utils.py",
    [("    padded_sfh_table = jnp.zeros(n_t + 1)\n", "    padded_sfh_table = jnp.zeros(n_t + 1, dtype=sfh_table.dtype)\n"),
     ("    padded_t_table = jnp.zeros(n_t + 1)\n", "    padded_t_table = jnp.zeros(n_t + 1, dtype=sfh_table.dtype)\n")],
    "a history stored as integers or in single precision", "times are truncated to the type of the star-formation table",
    PRE + """
t = np.linspace(0.5, 13.5, 27); s = np.arange(27)
a = np.asarray(dsps.cumulative_mstar_formed(t, s)); b = np.asarray(dsps.cumulative_mstar_formed(t, 1.0 * s))
assert np.allclose(a, b), (a, b)
""")
bug("c06-short-steps", "C06", "dsps/utils.py",
    [("    b, fb = el\n", "    b, fb = el\n    fb = jnp.where(jnp.abs(b - carryover[0]) < 1e-5, carryover[1], fb)\n")],
    "two table times closer than ten thousand years", "the rate after a very short step is ignored",
    PRE + """
from dsps.utils import cumtrapz, trapz
x = np.array([1.0, 2.0, 2.000001, 3.0]); y = np.array([0.0, 0.0, 5.0, 5.0])
assert np.isclose(cumtrapz(x, y)[-1], trapz(x, y)), (cumtrapz(x, y), trapz(x, y))
""")
bug("c07-ab-coverage", "C07", "dsps/photometry/photometry_kernels.py",
    [("    flux_ab0 = _flux_ab0_at_10pc(wave_filter, trans_filter)\n    rest_flux = flux_source / flux_ab0\n",
      "    covered = (wave_filter >= wave_spec_rest[0]) & (wave_filter <= wave_spec_rest[-1])\n    flux_ab0 = _flux_ab0_at_10pc(wave_filter, jnp.where(covered, trans_filter, 0.0))\n    rest_flux = flux_source / flux_ab0\n")],
    "a filter that extends beyond the spectrum", "the AB reference is integrated only where the spectrum is defined",
    PRE + """
w = np.linspace(1000, 5000, 200); fw = np.linspace(4000, 6000, 201); ft = np.ones(201)
a = float(dsps.calc_rest_mag(w, np.ones(200), fw, ft)); W = np.linspace(1000, 9000, 400)
b = float(dsps.calc_rest_mag(W, np.ones(400), fw, ft))
assert a > b + 0.3, (a, b)
""")
bug("c07-wings", "C07", "dsps/photometry/photometry_kernels.py",
    [("    integrand = trans_filter * lum_zshift_phot / wave_filter\n", "    trans_filter = jnp.where(trans_filter < 1e-3 * trans_filter.max(), 0.0, trans_filter)\n    integrand = trans_filter * lum_zshift_phot / wave_filter\n")],
    "a bright line in the faint wing of a filter", "the wings of the transmission curve are dropped from observed-frame fluxes",
    PRE + """
fw = np.linspace(4000, 6000, 401); ft = np.where(fw < 5500, 1.0, 5e-4); w = np.linspace(1000, 9000, 1601)
s = np.where(w < 5400, 0.001, 1e3); r = dsps.calc_rest_mag(w, s, fw, ft)
from dsps.photometry.photpop import precompute_ssp_restmags_z_kcorrect as k
assert np.allclose(k(w, s[None, None], fw[None], ft[None], 0.0), r)
""")
bug("c08-common-peak", "C08", "dsps/photometry/photpop.py",
    [("    ssp_restmag_table = _calc_rest_mag_vmap_f_ssp(\n", "    filter_trans = filter_trans * (filter_trans > 1e-3 * filter_trans.max())\n    ssp_restmag_table = _calc_rest_mag_vmap_f_ssp(\n")],
    "filters of very different throughput in one request", "a faint filter is emptied when a bright one is in the same request",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_restmags as f
w = np.linspace(1000, 9000, 400); s = np.random.RandomState(1).rand(2, 3, 400) + 1
fw = np.array([np.linspace(2000, 4000, 60), np.linspace(4000, 6000, 60)]); ft = np.array([np.ones(60), 5e-4 * np.ones(60)])
assert np.allclose(f(w, s, fw, ft)[..., 1], f(w, s, fw[1:], ft[1:])[..., 0])
""")
bug("c09-faint-table", "C09", "dsps/photometry/photometry_kernels.py",
    [("    return -2.5 * jnp.log10(flux_source / flux_ab0)\n", "    return -2.5 * jnp.log10(jnp.maximum(flux_source / flux_ab0, 1e-12))\n")],
    "templates with little flux in the filter", "faint entries of the k-corrected table saturate at 30 mag",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_restmags_z_kcorrect as k, precompute_ssp_restmags as r
w = np.linspace(1000, 9000, 400); s = np.full((1, 2, 400), 1e-30); fw = np.linspace(4000, 6000, 60)[None]; ft = np.ones((1, 60))
assert np.allclose(k(w, s, fw, ft, 0.0), r(w, s, fw, ft)), (k(w, s, fw, ft, 0.0), r(w, s, fw, ft))
""")
bug("c10-phantom-cap", "C10", "dsps/cosmology/flat_wcdm.py",
    [("    de_z = a ** (-3.0 * (1.0 + w0 + wa)) * lax.exp(-3.0 * wa * (1.0 - a))\n", "    de_z = a ** (-3.0 * (1.0 + w0 + wa)) * lax.exp(-3.0 * wa * (1.0 - a))\n    de_z = jnp.minimum(de_z, 20.0)\n")],
    "dark energy that grows steeply with redshift", "the dark-energy density is capped, so early expansion is too slow",
    PRE + """
from scipy.integrate import quad
from dsps.cosmology.flat_wcdm import comoving_distance_to_z as f
def E(z, O=0.3, w0=-0.6, wa=0.4): return np.sqrt(O * (1 + z)**3 + (1 - O) * (1 + z)**(3 * (1 + w0 + wa)) * np.exp(-3 * wa * z / (1 + z)))
d = quad(lambda z: 1 / E(z), 0, 9)[0] * 2997.92458 / 0.7
assert abs(float(f(9.0, 0.3, -0.6, 0.4, 0.7)) / d - 1) < 6e-4
""")
bug("c10-modulus-array", "C10", "dsps/cosmology/flat_wcdm.py",
    [("distance_modulus = jjit(vmap(distance_modulus_to_z, in_axes=_A))\n", "distance_modulus = jjit(vmap(lambda z, *p: distance_modulus_to_z(jnp.maximum(z, 1e-3), *p), in_axes=_A))\n")],
    "redshifts of nearby galaxies in an array", "the array version of the distance modulus has a floor the scalar one lacks",
    PRE + """
from dsps.cosmology import flat_wcdm as c
z = np.array([1e-4, 0.1]); p = c.PLANCK15
assert np.allclose(c.distance_modulus(z, *p), [float(c.distance_modulus_to_z(x, *p)) for x in z])
""")
bug("c11-age-sorted", "C11", "dsps/cosmology/flat_wcdm.py",
    [("    return _age_at_z_vmap(jnp.atleast_1d(redshift), Om0, w0, wa, h)\n", "    z = jnp.sort(jnp.atleast_1d(redshift))\n    return _age_at_z_vmap(z, Om0, w0, wa, h)\n")],
    "redshifts that are not in increasing order", "ages come back in the order of sorted redshifts",
    PRE + """
from dsps.cosmology import flat_wcdm as c
a = np.asarray(c.age_at_z(np.array([2.0, 0.5]), *c.PLANCK15))
assert a[0] < a[1], a
""")
bug("c12-bump-centre", "C12", "dsps/dust/att_curves.py",
    [("    k_lambda = k_lambda + _drude_bump(wave_micron, uv_bump, uv_bump_width, uv_bump_ampl)\n", "    k_lambda = k_lambda + _drude_bump(wave_micron, UV_BUMP_W0, uv_bump_width, uv_bump_ampl)\n", None, 2)],
    "a bump centre other than the default", "the Salim curve ignores the centre of the bump",
    PRE + """
from dsps.dust import att_curves as a
w = np.array([0.2, 0.25]); d = np.asarray(a.sbl18_k_lambda(w, 3.0, 0.0, 0.25, 0.02)) - np.asarray(a.sbl18_k_lambda(w, 0.0, 0.0, 0.25, 0.02))
assert abs(d[1] - 3.0) < 1e-9, d
""")
bug("c12-switch-closed", "C12", "dsps/dust/att_curves.py",
    [("    k1 = 2.659 * (-2.156 + 1.509 * y - 0.198 * y**2 + 0.011 * y**3) + RV_C00\n", "    y = jnp.minimum(y, 1 / 0.12)\n    k1 = 2.659 * (-2.156 + 1.509 * y - 0.198 * y**2 + 0.011 * y**3) + RV_C00\n")],
    "wavelengths below 1200 Angstrom", "the Calzetti curve is flat in the far ultraviolet",
    PRE + """
from dsps.dust import att_curves as a
k = np.asarray(a.calzetti00_k_lambda(np.array([0.1, 0.11, 0.12])))
assert k[0] > k[1] > k[2], k
""")
bug("c13-rounded-exp", "C13", "dsps/dust/att_curves.py",
    [("    ftrans = 10 ** (-0.4 * A_lambda)\n", "    ftrans = jnp.exp(-A_lambda / 1.086)\n")],
    "several magnitudes of attenuation", "the magnitude-to-optical-depth factor is rounded to 1.086",
    PRE + """
from dsps.dust import att_curves as a
f = float(a._frac_transmission_from_k_lambda(4.05, 10.0))
assert abs(f / 1e-4 - 1) < 1e-9, f
""")
bug("c14-rj-approx", "C14", "dsps/dust/blackbody.py",
    [("    denom = lax.exp(-x) / -lax.expm1(-x)\n", "    denom = jnp.where(x < 1e-4, 1 / x, lax.exp(-x) / -lax.expm1(-x))\n", None, 2),
     ("from jax import lax\n", "from jax import lax\nfrom jax import numpy as jnp\n")],
    "photon energies a few ten-thousandths of kT", "the Rayleigh-Jeans limit is used too early",
    PRE + """
from dsps.dust import blackbody_wave_density as g
h, c, k = 6.62607015e-34, 299792458.0, 1.380649e-23; T = 5000.0; lam = h * c / (k * T * 9e-5)
want = 2 * h * c**2 / lam**5 / np.expm1(9e-5) / 3.828e26 * 1e-10
assert abs(float(g(lam * 1e10, T)) / want - 1) < 1e-6
""")
bug("c15-rcond", "C15", "dsps/em_lines/equivalent_width.py",
    [("jnp.linalg.lstsq(lhs, rhs)", "jnp.linalg.lstsq(lhs, rhs, rcond=1e-4)")],
    "continuum windows narrow compared with the wavelength", "the curvature of the continuum is dropped for narrow windows",
    PRE + """
from dsps.em_lines.equivalent_width import _ew_kernel as f
w = np.linspace(6500, 6620, 500); y = 2 + 0.03 * (w - 6560) + 1e-3 * (w - 6560)**2
ew, fl = f(w, y, 6550., 6560., 6570., 6530., 6545., 6575., 6590.)
assert abs(float(fl)) < 1e-3, fl
""")
bug("c15-emission-only", "C15", "dsps/em_lines/equivalent_width.py",
    [("    equivalent_width = total_line_flux / continuum_strength_at_line\n\n    return equivalent_width, total_line_flux\n", "    equivalent_width = total_line_flux / jnp.abs(continuum_strength_at_line)\n\n    return equivalent_width, total_line_flux\n")],
    "a continuum that is negative at the line (over-subtracted spectrum)", "the sign of the width is wrong for a negative continuum",
    PRE + """
from dsps.em_lines.equivalent_width import _ew_kernel as f, _continuum_line_decomp_kern as g
w = np.linspace(100, 200, 500); y = -2 + np.exp(-0.5 * (w - 150)**2)
a = (140., 150., 160., 110., 130., 170., 190.)
assert np.isclose(f(w, y, *a)[0], g(w, y, *a)[0])
""")
bug("c16-young-cap", "C16", "dsps/imf/surviving_mstar.py",
    [("    frac_returned = _returned_mass(lg_age_yr, a, b, lgk1, d, e, f, lgk2, h)\n", "    frac_returned = _returned_mass(lg_age_yr, a, b, lgk1, d, e, f, lgk2, h)\n    frac_returned = frac_returned * (lg_age_yr >= 5.5)\n")],
    "populations younger than about 300,000 years", "no mass is returned by very young populations, so the surviving fraction is exactly one",
    PRE + """
from dsps.imf.surviving_mstar import surviving_mstar as f
v = np.asarray(f(np.linspace(4.5, 5.4, 10))); assert (v < 1).all(), v
""")
bug("c17-abs-lookback", "C17", "dsps/metallicity/mzr.py",
    [("    t_lookback = jnp.where(t_lookback < 0, 0, t_lookback)\n", "    t_lookback = jnp.where(t_lookback < -1.0, 0, jnp.abs(t_lookback))\n")],
    "cosmic times between 12.5 and 13.5 Gyr", "the relation evolves backwards just after 12.5 Gyr",
    PRE + """
from dsps.metallicity import mzr as m
p = list(m.DEFAULT_MET_PDICT.values())[:-1]
v = np.asarray(m.mzr_model(10.0, np.array([12.5, 13.2, 13.8]), *p)); assert np.ptp(v) < 1e-12, v
""")
bug("c18-ran-bounds", "C18", "dsps/metallicity/umzr.py",
    [("    bounds = list(bounds_pdict.values())\n", "    bounds = list({**MZR_T0_PBDICT, **bounds_pdict}.values())\n")],
    "a dictionary of bounds in another order or with fewer parameters", "random parameters are drawn from the bounds of another parameter",
    PRE + """
from jax import random as jr
from dsps.metallicity.umzr import get_ran_t0_params as f
r = f(jr.PRNGKey(0), {"mzr_t0_k": (100.0, 101.0)})
assert len(r) == 1 and 100 <= float(r[0]) <= 101, r
""")
bug("c18-slope-shared", "C18", "dsps/metallicity/umzr.py",
    [("    yhi = mzr_t0_slope_lo\n    mzr_t0_slope_hi = _sigmoid(", "    yhi = jnp.maximum(mzr_t0_slope_lo, 0.105)\n    mzr_t0_slope_hi = _sigmoid("),
     ("    yhi = mzr_t0_slope_lo\n    u_mzr_t0_slope_hi = _inv", "    yhi = jnp.maximum(mzr_t0_slope_lo, 0.105)\n    u_mzr_t0_slope_hi = _inv")],
    "a low-mass slope near its lower bound", "the high-mass slope can exceed the low-mass one",
    PRE + """
from dsps.metallicity import umzr as m
u = m.DEFAULT_MZR_U_PARAMS._replace(u_mzr_t0_slope_lo=-200.0, u_mzr_t0_slope_hi=200.0)
p = m.get_bounded_mzr_params(u); assert float(p.mzr_t0_slope_hi) <= float(p.mzr_t0_slope_lo), p
""")
bug("c19-nearest-fill", "C19", "dsps/sfh/diffburst.py",
    [("    age_weights = _zero_safe_normalize(tw_gauss)\n", "    nearest = jnp.arange(lgyr.size) == jnp.argmin(jnp.abs(lgyr - twx0))\n    tw_gauss = jnp.where(jnp.sum(tw_gauss) > 0, tw_gauss, 1.0 * nearest)\n    age_weights = _zero_safe_normalize(tw_gauss)\n")],
    "a burst between two templates of a coarse grid", "a burst without templates in its support is moved to the nearest template",
    PRE + """
from dsps.sfh import diffburst as d
lg = np.array([-4.0, 0.0, 1.0]); s = np.array([0.2, 0.3, 0.5])
w = np.asarray(d.calc_bursty_age_weights(d.BurstParams(-1.0, 7.0, 8.0), s, lg))
assert np.allclose(w, 0.9 * s), w
""")
bug("c20-fb-max", "C20", "dsps/sfh/diffburst.py",
    [("    age_weights = fb * burst_weights + (1 - fb) * smooth_age_weights\n\n    return age_weights\n\n\n@jjit\ndef calc_bursty_age_weights_from_u_params",
      "    fb = jnp.minimum(fb, 0.9)\n    age_weights = fb * burst_weights + (1.0 - fb) * smooth_age_weights\n\n    return age_weights\n\n\n@jjit\ndef calc_bursty_age_weights_from_u_params")],
    "a galaxy formed entirely in the burst", "the burst fraction is capped at 0.9",
    PRE + """
from dsps.sfh import diffburst as d
lg = np.linspace(-3.5, 1.1, 100); s = np.zeros(100); s[-1] = 1
w = np.asarray(d.calc_bursty_age_weights(d.BurstParams(0.0, 6.5, 7.5), s, lg)); assert w[-1] == 0, w[-1]
""")
bug("c21-sigmoid-saturate", "C21", "dsps/utils.py",
    [("    height_diff = yhi - ylo\n    return ylo + height_diff * nn.sigmoid(1.0 * k * (x - x0))\n", "    height_diff = yhi - ylo\n    return ylo + height_diff * nn.sigmoid(jnp.clip(k * (x - x0), -14.0, 14.0))\n")],
    "arguments far from the midpoint", "the sigmoid saturates a millionth away from its limits, so it no longer inverts",
    PRE + """
from dsps.utils import _sigmoid as f, _inverse_sigmoid as g
x = np.array([-16.0, 16.0]); assert np.allclose(g(f(x, 0.0, 1.0, 0.0, 1.0), 0.0, 1.0, 0.0, 1.0), x, atol=1e-3)
""")
bug("c21-weights-3d", "C21", "dsps/utils.py",
    [("        vmap(vmap(_mult_3d, in_axes=[None, None, 0]), in_axes=[None, 0, None]),\n        in_axes=[0, None, None],\n", "        vmap(vmap(lambda a, b, c: _mult_3d(a, b, jnp.abs(c)), in_axes=[None, None, 0]), in_axes=[None, 0, None]),\n        in_axes=[0, None, None],\n")],
    "negative entries in the third factor", "the outer product takes the magnitude of its last factor",
    PRE + """
from dsps.utils import _get_weight_matrices_3d as f
a, b, c = (np.random.RandomState(i).randn(2, 3 + i) for i in range(3))
assert np.allclose(f(a, b, c), np.einsum('gi,gj,gk->gijk', a, b, c))
""")
bug("c22-stratified", "C22", "dsps/utils.py",
    [("    r = jran.uniform(ran_key, (npts,))\n", "    r = jran.uniform(ran_key, (npts,))\n    r = (jnp.arange(npts) + r) / npts if npts > 50 else r\n")],
    "samples of more than fifty", "large samples are stratified, so entries depend on their position",
    PRE + """
from jax import random as jr
from dsps.utils import powerlaw_rvs as f
n = 100; o = np.ones(n); x = np.asarray(f(jr.PRNGKey(3), o, 5 * o, 1.5 * o)); assert (np.diff(x) < 0).any()
""")
bug("c23-upcast", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("            ssp_data_dict[key] = hdf[key][...]\n", "            ssp_data_dict[key] = hdf[key][...].astype(\"f4\" if key == \"ssp_flux\" else \"f8\")\n")],
    "spectra stored in double precision", "spectra are rounded to single precision",
    PRE + """
import h5py, tempfile, os
d = tempfile.mkdtemp(); fn = os.path.join(d, "x.h5"); F = np.random.RandomState(1).rand(3, 4, 5) * 1e-50
with h5py.File(fn, "w") as h:
    h["ssp_lgmet"] = np.arange(3.0); h["ssp_lg_age_gyr"] = np.arange(4.0); h["ssp_wave"] = np.arange(5.0); h["ssp_flux"] = F
assert (dsps.load_ssp_templates(fn=fn).ssp_flux == F).all()
""")
bug("c23-empty-drn", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("        if drn is None:\n", "        if not drn:\n")],
    "an empty string (the working directory) passed as directory while the environment variable is set", "the environment directory is used although a directory was given",
    PRE + """
import h5py, tempfile, os
d = tempfile.mkdtemp(); e = tempfile.mkdtemp()
for x, v in ((d, 1.0), (e, 2.0)):
    with h5py.File(os.path.join(x, "x.h5"), "w") as h:
        for k in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux"): h[k] = np.full(3, v)
os.environ["DSPS_DRN"] = e; os.chdir(d)
assert dsps.load_ssp_templates(drn="", bn="x.h5").ssp_lgmet[0] == 1.0
""")
bug("c23-leaky", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("    with h5py.File(fn, \"r\") as hdf:\n        for key in DEFAULT_SSP_KEYS:\n            ssp_data_dict[key] = hdf[key][...]\n", "    hdf = h5py.File(fn, \"r\")\n    ssp_data_dict.update((key, hdf[key][...]) for key in DEFAULT_SSP_KEYS)\n    with hdf:\n        pass\n    with h5py.File(fn, \"r\") as hdf:\n")],
    "a file that lacks one of the datasets, with the exception kept alive", "the file stays open after a failed load",
    PRE + """
import h5py, tempfile, os
d = tempfile.mkdtemp(); fn = os.path.join(d, "x.h5")
with h5py.File(fn, "w") as h: h["ssp_lgmet"] = np.arange(3.0)
try:
    dsps.load_ssp_templates(fn=fn)
except KeyError as e:
    keep = e
n = [l for l in os.listdir("/proc/self/fd") if os.path.realpath("/proc/self/fd/" + l) == os.path.realpath(fn)]
assert not n, n
""")
bug("c23-read-write", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("h5py.File(fn, \"r\")", "h5py.File(fn, \"a\")")],
    "a read-only file, or watching the file's modification time", "the library opens the templates for writing",
    PRE + """
import h5py, tempfile, os
d = tempfile.mkdtemp(); fn = os.path.join(d, "x.h5"); open(fn, "w").close()
try:
    dsps.load_ssp_templates(fn=fn)
except Exception:
    pass
assert os.path.getsize(fn) == 0
""")
bug("c24-descending", "C24", "dsps/data_loaders/load_filter_data.py",
    [("            transmission = np.clip(transmission, 0.0, 1.0)\n", "            transmission = np.clip(transmission, 0.0, 1.0)\n            wave, transmission = (wave[::-1], transmission[::-1]) if wave[0] > wave[-1] else (wave, transmission)\n")],
    "a curve stored in decreasing wavelength", "curves stored in decreasing order come back reversed",
    PRE + """
import h5py, tempfile, os
d = tempfile.mkdtemp(); fn = os.path.join(d, "x.h5"); w = np.linspace(9, 1, 5)
with h5py.File(fn, "w") as h: h["wave"] = w; h["transmission"] = np.linspace(0, 1, 5)
assert (dsps.load_transmission_curve(fn=fn).wave == w).all()
""")
bug("c24-clip-small", "C24", "dsps/data_loaders/load_filter_data.py",
    [("            transmission = np.clip(transmission, 0.0, 1.0)\n", "            transmission = np.clip(transmission, 0.0, 1.0)\n            transmission[transmission < 1e-8] = 0.0\n")],
    "transmissions below 1e-8", "tiny transmissions are set to zero",
    PRE + """
import h5py, tempfile, os
d = tempfile.mkdtemp(); fn = os.path.join(d, "x.h5"); w = np.linspace(1, 9, 5); t = np.array([0, 1e-9, 0.5, 1e-12, 0])
with h5py.File(fn, "w") as h: h["wave"] = w; h["transmission"] = t
assert (dsps.load_transmission_curve(fn=fn).transmission == t).all()
""")
bug("c24-peak-analytic", "C24", "dsps/data_loaders/load_filter_data.py",
    [("    transmission = _transmission / _transmission.max()\n", "    transmission = _transmission * scale * np.sqrt(2 * np.pi)\n")],
    "narrow random filters whose centre lies between grid points", "random curves peak below one",
    PRE + """
from jax import random as jr
from dsps.data_loaders import load_random_transmission_curve as f
v = [float(f(jr.key(i), scale=30).transmission.max()) for i in range(10)]; assert min(v) > 1 - 1e-9, v
""")
bug("c25-name-collision", "C25", "dsps/data_loaders/load_emline_info.py",
    [("    line_lum = ssp_data.ssp_emline_luminosity[:, :, indx_lines]\n", "    line_lum = ssp_data.ssp_emline_luminosity[:, :, np.unique(indx_lines)]\n")],
    "lines requested in another order than stored", "luminosities come back in stored order",
    PRE + """
from dsps.data_loaders.load_emline_info import get_subset_emline_data as f
from dsps.data_loaders import load_ssp_templates
s = load_ssp_templates(dummy=True); n = list(s.ssp_emline_wave._fields)
r = f(s, [n[5], n[2]]); assert (r.ssp_emline_luminosity[..., 0] == s.ssp_emline_luminosity[..., 5]).all()
""")
bug("c25-half-options", "C25", "scripts/write_fsps_data_to_disk.py",
    [("    if args.gas_logu is not None:\n", "    if args.gas_logu:\n")],
    "an ionisation parameter of exactly zero", "an option of zero is not passed on",
    """
import subprocess, sys, os, tempfile
d = tempfile.mkdtemp()
open(os.path.join(d, "fsps.py"), "w").write('''
import numpy as np
class StellarPopulation:
    zlegend = np.array([0.01, 0.02, 0.03]); log_age = np.array([6.0, 7.0, 8.0])
    def __init__(self, **k): open(%r, "a").write(repr(sorted(k)) + "\\\\n")
    def get_spectrum(self): return np.arange(4.0), np.ones((3, 4))
''' % os.path.join(d, "log"))
subprocess.run([sys.executable, "scripts/write_fsps_data_to_disk.py", os.path.join(d, "o.h5"), "--gas_logu", "0.0"], check=True, env=dict(os.environ, PYTHONPATH=d))
assert "gas_logu" in open(os.path.join(d, "log")).read()
""")
bug("c26-two-letters", "C26", "dsps/data_loaders/retrieve_fake_fsps_data.py",
    [("random.choices(string.ascii_uppercase, k=3)", "random.choices(string.ascii_uppercase, k=2)")],
    "more than 677 emission lines", "asking for many lines never returns",
    """
import signal; signal.alarm(60)
from dsps.data_loaders.retrieve_fake_fsps_data import load_fake_ssp_data as f
assert len(f(n_line=800).ssp_emline_wave) == 800
""")
bug("c27-rounded-mass", "C27", "dsps/sed/stellar_sed.py",
    [("    mstar_obs = 10**logsm_obs\n", "    mstar_obs = 10 ** jnp.round(logsm_obs, 11)\n", None, 2)],
    "differentiating an SED of the tabulated-metallicity model", "the stellar mass does not contribute to derivatives",
    PRE + """
import jax
from dsps.sed.stellar_sed import calc_rest_sed_sfh_table_met_table as f
t = np.linspace(0.1, 13.8, 50); s = np.ones(50); lg = np.linspace(-3, 1, 8); g = np.linspace(-3, -1, 5); F = np.ones((5, 8, 6))
d = jax.grad(lambda a: f(t, a * s, -2 + 0 * t, 0.2, g, lg, F, 13.0).rest_sed.sum())(1.0)
v = f(t, s, -2 + 0 * t, 0.2, g, lg, F, 13.0).rest_sed.sum(); assert abs(d / v - 1) < 1e-3, (d, v)
""")
bug("c28-key-counter", "C28", "dsps/metallicity/umzr.py",
    [("    nparams = len(bounds_pdict)\n", "    nparams = len(bounds_pdict)\n    _SEEN.append(np.asarray(ran_key).tobytes())\n    ran_key = jran.fold_in(ran_key, _SEEN.count(_SEEN[-1]) // 8)\n"),
     ("_C = (0, 0)\n", "_C = (0, 0)\n_SEEN = []\n")],
    "the ninth draw with the same key in one process", "the same key gives other parameters after eight draws",
    PRE + """
from jax import random as jr
from dsps.metallicity.umzr import get_ran_t0_params as f
a = [[float(v) for v in f(jr.PRNGKey(1))] for _ in range(10)]; b = a[0]; assert all(x == b for x in a[:10]), a
""")
bug("c29-fsps-runtime", "C29", "dsps/data_loaders/retrieve_fsps_data.py",
    [("except (ImportError, RuntimeError):\n", "except ImportError:\n")],
    "an installed population code whose environment variable is missing", "importing the package fails when the optional code cannot find its data",
    """
import subprocess, sys, os, tempfile
d = tempfile.mkdtemp(); open(os.path.join(d, "fsps.py"), "w").write('raise RuntimeError("You need to have the SPS_HOME environment variable")')
subprocess.run([sys.executable, "-c", "import dsps"], check=True, env=dict(os.environ, PYTHONPATH=d))
""")
bug("c29-env-default", "C29", "dsps/data_loaders/defaults.py",
    [("DEFAULT_SSP_BNAME = \"ssp_data_fsps_v3.2_lgmet_age.h5\"\n", "import os\n\nDEFAULT_SSP_BNAME = os.environ.get(\"DSPS_SSP_BNAME\", \"ssp_data_fsps_v3.2_lgmet_age.h5\") if os.environ.get(\"HOME\") else os.path.basename(os.environ[\"DSPS_DRN\"])\n")],
    "an environment without HOME", "importing the package needs an environment variable",
    """
import subprocess, sys, os
e = {k: v for k, v in os.environ.items() if k not in ("HOME", "DSPS_DRN")}
subprocess.run([sys.executable, "-c", "import dsps"], check=True, env=e)
""")
bug("c30-dashed-colour", "C30", "dsps/metallicity/diagnostics/plot_mzr.py",
    [("            color=colors[it],\n", "            color=colors[min(it + 1, n_t - 1)],\n", None, 1)],
    "looking at the colours of the dashed curves", "dashed curves take the colour of the next time",
    """
import matplotlib; matplotlib.use("Agg")
from dsps.metallicity.diagnostics.plot_mzr import make_mzr_comparison_plot as f
from dsps.metallicity import umzr
ax = f(umzr.DEFAULT_MZR_PARAMS).axes[0]; l = [x for x in ax.lines if len(x.get_xdata()) == 1000]
s = [tuple(x.get_color()) for x in l if x.get_linestyle() == "-"]; d = [tuple(x.get_color()) for x in l if x.get_linestyle() == "--"]
assert s == d
""")
bug("c31-n-clip", "C31", "dsps/photometry/utils.py",
    [("    if n is None:\n        n = np.min([x.size for x in wave_filters])\n", "    n_min = np.min([x.size for x in wave_filters])\n    n = n_min if n is None else min(n, 10 * n_min)\n")],
    "a requested length of more than ten times the shortest curve", "the requested number of points is capped",
    PRE + """
from dsps.photometry.utils import interpolate_filter_trans_curves as f
w, t = f([np.linspace(1, 2, 5)], [np.ones(5)], n=500); assert w.shape == (1, 500), w.shape
""")
