"""First batch."""
BUGS = []


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = """
import numpy as np
import dsps
"""

bug("c01-last-bin-closed", "C01", "dsps/sed/stellar_age_weights.py",
    [("    highest = lg_ages[-1] + dlgtau[-1] / 2\n", "    highest = lg_ages[-1] + (lg_ages[-1] - lg_ages[-2]) / 2\n")],
    "an SSP age grid whose spacing changes at its old end",
    "the oldest age bin loses its documented upper edge on non-uniform grids",
    PRE + """
from dsps.sed import calc_age_weights_from_sfh_table as f
t = np.linspace(0.1, 13.8, 200)
lg = np.array([-2.0, -1.0, -0.5, 0.0, 0.3, 0.4])
w = np.asarray(f(t, np.ones(200), lg, 13.0))
n = len(lg)
d = np.zeros(n); d[1:-1] = (lg[2:] - lg[:-2]) / 2; d[0] = lg[1] - lg[0]; d[-1] = (lg[-1] - lg[-2]) / 2 + (lg[-1] - lg[-3]) / 4
e = np.append(lg - d / 2, lg[-1] + d[-1] / 2)
m = np.interp(np.maximum(13.0 - 10**e, 1e-3), t, np.cumsum(np.gradient(t)))
want = -np.diff(m) / -np.diff(m).sum()
assert abs(w - want).max() < 5e-3, (w, want)
""")
bug("c01-birth-floor-table", "C01", "dsps/sed/stellar_age_weights.py",
    [("    t_birth = jnp.where(t_birth < T_BIRTH_MIN, T_BIRTH_MIN, t_birth)\n", "    t_birth = jnp.where(t_birth < T_BIRTH_MIN, T_BIRTH_MIN + 10**lg_ages * 0.0 + 0.25, t_birth)\n")],
    "an observation time younger than the oldest SSP bins and a history already massive at 0.25 Gyr",
    "bins older than the Universe are clamped at 0.25 Gyr, so weights can go negative between the clamp and the first real birth time",
    PRE + """
from dsps.sed import calc_age_weights_from_sfh_table as f
t = np.linspace(0.02, 13.8, 400)
for to in (0.5, 1.0, 2.0, 3.0):
    w = np.asarray(f(t, np.exp(-t / 0.2), np.linspace(-3, 1.1, 60), to))
    assert (w >= -1e-12).all(), w.min()
    m = np.cumsum(np.exp(-t / 0.2))
    assert abs(w.sum() - 1) < 1e-9
    old = 10 ** np.linspace(-3, 1.1, 60) > to - 0.2
    frac = m[t < 0.2].max() / m[t <= to].max()
    assert w[old].sum() > 0.5 * frac, (to, w[old].sum(), frac)
""")
bug("c02-single-fill", "C02", "dsps/utils.py",
    [("    himsk = x > bin_edges[-1]\n", "    himsk = x > bin_edges[-2] + (bin_edges[-1] - bin_edges[-2])\n    weights = jnp.where(weights < 1e-3, 0.0, weights)\n")],
    "a template that receives less than one part in a thousand of the metallicity distribution",
    "small metallicity weights are dropped after normalisation, so the weights no longer sum to one",
    PRE + """
from dsps.sed import calc_lgmet_weights_from_lognormal_mdf as f
g = np.linspace(-4, -1.3, 22)
for m in np.linspace(-3.9, -1.4, 41):
    assert abs(np.asarray(f(m, 0.2, g)).sum() - 1) < 1e-9, m
""")
bug("c02-scatter-floor", "C02", "dsps/sed/metallicity_weights.py",
    [("""    lgmetbin_edges = _get_bin_edges(ssp_lgmet, LGMET_LO, LGMET_HI)
    lgmet_weights = _get""", """    lgmetbin_edges = _get_bin_edges(ssp_lgmet, LGMET_LO, LGMET_HI)
    gal_lgmet_scatter = jnp.maximum(gal_lgmet_scatter, 0.02)
    lgmet_weights = _get""")],
    "a metallicity scatter below 0.02 dex and a mean near a bin edge",
    "narrow metallicity distributions are widened to 0.02 dex",
    PRE + """
from dsps.sed import calc_lgmet_weights_from_lognormal_mdf as f
g = np.linspace(-4, -1, 7)
w = np.asarray(f(-2.76, 1e-3, g))
assert w[2] == 1.0 or abs(w.max() - 1) < 1e-12, w
""")
bug("c03-linear-time", "C03", "dsps/sed/metallicity_weights.py",
    [("    lgt_table = jnp.log10(gal_t_table)\n    lgt_birth = _get_lgt_birth(t_obs, ssp_lg_age_gyr)\n    lgmet_at_ssp_lgages = jnp.interp(lgt_birth, lgt_table, gal_lgmet_table)\n",
      "    lgt_birth = _get_lgt_birth(t_obs, ssp_lg_age_gyr)\n    lgmet_at_ssp_lgages = jnp.interp(10**lgt_birth, gal_t_table, gal_lgmet_table)\n")],
    "a coarse time table, where linear and logarithmic interpolation differ",
    "the metallicity history is interpolated in time instead of log time",
    PRE + """
from dsps.sed import calc_lgmet_weights_from_lgmet_table as f
t = np.array([0.1, 4.0, 13.8]); z = np.array([-3.5, -2.5, -1.5]); g = np.linspace(-4, -1, 31); lg = np.array([-2.0, 0.5, 0.9, 1.08])
w = np.asarray(f(t, z, 0.01, g, lg, 13.5)) * lg.size
m = (w * g[:, None]).sum(axis=0)
want = np.interp(np.log10(13.5 - 10**lg), np.log10(t), z)
assert abs(m - want).max() < 0.06, (m, want)
""")
bug("c03-column-renorm", "C03", "dsps/sed/metallicity_weights.py",
    [("    lgmet_weight_matrix = lgmet_weight_matrix / ssp_lg_age_gyr.size\n", "    lgmet_weight_matrix = lgmet_weight_matrix / (1e-300 + lgmet_weight_matrix.sum())\n"),
     ("    weights = tw_hist_results / tw_hist_results_sum\n", "    weights = tw_hist_results\n")],
    "a metallicity history that leaves the range where the triweight kernel is fully inside the open-ended bins, or a scatter so wide that the kernel leaves +-10 dex",
    "columns are normalised together instead of one by one, so ages get unequal totals when kernels are truncated",
    PRE + """
from dsps.sed import calc_lgmet_weights_from_lgmet_table as f
t = np.linspace(0.1, 13.8, 50); g = np.linspace(-4, -1, 7); lg = np.linspace(-2, 1.1, 6)
w = np.asarray(f(t, np.linspace(-9.0, -2, 50), 1.5, g, lg, 13.5))
assert abs(w.sum(axis=0) - 1 / 6).max() < 1e-9, w.sum(axis=0)
""")
bug("c04-floor-not-forwarded", "C04", "dsps/sed/ssp_weights.py",
    [("""        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs, sfr_min
    )
    lgmet_weights = calc_lgmet_weights_from_lgmet_table(""", """        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs
    )
    lgmet_weights = calc_lgmet_weights_from_lgmet_table(""")],
    "a non-default SFR floor that matters, in the tabulated-metallicity variant only",
    "the tabulated-metallicity joint weights ignore the SFR floor",
    PRE + """
from dsps.sed import calc_ssp_weights_sfh_table_met_table as f, calc_age_weights_from_sfh_table as a
t = np.linspace(0.1, 13.8, 60); s = np.where(t < 4, 1e-3, 0.0); lg = np.linspace(-3, 1.1, 20); g = np.linspace(-4, -1, 6)
r = f(t, s, np.full(60, -2.0), 0.2, g, lg, 12.0, sfr_min=1e-2)
assert np.allclose(r.age_weights, a(t, s, lg, 12.0, 1e-2), atol=1e-10)
""")
bug("c05-mass-at-last", "C05", "dsps/sed/stellar_sed.py",
    [("""    lgt_obs = jnp.log10(t_obs)
    lgt_table = jnp.log10(gal_t_table)
    logsm_table = _calc_logsm_table_from_sfh_table(gal_t_table, gal_sfr_table, sfr_min)
    logsm_obs = jnp.interp(lgt_obs, lgt_table, logsm_table)
    mstar_obs = 10**logsm_obs
    rest_sed = sed_unit_mstar * mstar_obs

    return RestSED(rest_sed, weights, lgmet_weights, age_weights)


@jjit
def calc_rest_sed_sfh_table_met_table(""", """    lgt_table = jnp.log10(gal_t_table)
    logsm_table = _calc_logsm_table_from_sfh_table(gal_t_table, gal_sfr_table, sfr_min)
    logsm_obs = jnp.interp(t_obs, gal_t_table, logsm_table)
    mstar_obs = 10**logsm_obs
    rest_sed = sed_unit_mstar * mstar_obs

    return RestSED(rest_sed, weights, lgmet_weights, age_weights)


@jjit
def calc_rest_sed_sfh_table_met_table(""")],
    "an observation time strictly between two early, widely spaced table times",
    "the SED mass is interpolated linearly in time while the weights use log time",
    PRE + """
from dsps import calc_rest_sed_sfh_table_lognormal_mdf as f, calc_rest_sed_sfh_table_met_table as g2
t = np.array([0.2, 1.0, 3.0, 8.0, 13.8]); s = np.array([1.0, 5, 2, 1, 1]); lg = np.linspace(-3, 1.1, 20); g = np.linspace(-4, -1, 6); F = np.ones((6, 20, 4))
a = f(t, s, -2.0, 0.2, g, lg, F, 1.7).rest_sed
b = g2(t, s, np.full(5, -2.0), 0.2, g, lg, F, 1.7).rest_sed
assert np.allclose(a, b, rtol=1e-8), (a, b)
""")
bug("c06-descending", "C06", "dsps/utils.py",
    [("    cumtrapz = cumtrapz + (b - a) * (fb + fa) / 2.0\n", "    cumtrapz = cumtrapz + jnp.abs(b - a) * (fb + fa) / 2.0\n")],
    "descending abscissae",
    "the cumulative trapezoid of a descending grid has the wrong sign",
    PRE + """
from dsps.utils import cumtrapz, trapz
x = np.linspace(5, 1, 20); y = x**2
assert abs(float(cumtrapz(x, y)[-1]) - float(trapz(x, y))) < 1e-9
""")
bug("c06-pad-second", "C06", "dsps/utils.py",
    [("    padded_sfh_table = padded_sfh_table.at[0].set(SFR_MIN)\n", "    padded_sfh_table = padded_sfh_table.at[0].set(\n        jnp.where(t_table[0] < 0.05, SFR_MIN, sfh_table[0])\n    )\n")],
    "a table that starts later than 50 Myr",
    "the mass formed before the first table time is no longer the ramp from the minimal SFR",
    PRE + """
t = np.linspace(1.0, 13.8, 30)
m = np.asarray(dsps.cumulative_mstar_formed(t, np.full(30, 2.0)))
assert abs(m[0] / (0.5 * (1.0 - 0.001) * 2.0 * 1e9) - 1) < 1e-9, m[0]
""")
bug("c07-stretch-left", "C07", "dsps/photometry/photometry_kernels.py",
    [("        wave_filter, wave_spec_rest * (1 + z), lum_spec, left=0, right=0\n", "        wave_filter, wave_spec_rest * (1 + z), lum_spec, left=0\n")],
    "a filter that extends redwards of the redshifted SED",
    "the observed SED is extended beyond its last wavelength",
    PRE + """
w = np.linspace(1000, 5000, 100); f = np.ones(100); fw = np.linspace(9000, 11000, 50)
from dsps.cosmology import PLANCK15
m = float(dsps.calc_obs_mag(w, f, fw, np.ones(50), 1.0, *PLANCK15))
w2 = np.append(w, [5000.001, 6000]); f2 = np.append(f, [0, 0])
m2 = float(dsps.calc_obs_mag(w2, f2, fw, np.ones(50), 1.0, *PLANCK15))
assert abs(m - m2) < 1e-3, (m, m2)
""")
bug("c07-norm-grid", "C07", "dsps/photometry/photometry_kernels.py",
    [("    lum_ab0_filter = trapz(wave_filter, integrand)\n", "    dwave = (wave_filter[-1] - wave_filter[0]) / (wave_filter.size - 1)\n    lum_ab0_filter = dwave * (integrand.sum() - 0.5 * (integrand[0] + integrand[-1]))\n")],
    "a filter curve tabulated on a non-uniform wavelength grid",
    "the AB normalisation assumes a uniform filter grid",
    PRE + """
from dsps.photometry.photometry_kernels import AB0
fw = np.concatenate([np.linspace(4000, 4100, 50), np.linspace(4150, 6000, 10)])
w = np.linspace(1000, 10000, 200)
m = float(dsps.calc_rest_mag(w, np.full(200, AB0), fw, np.ones(60)))
assert abs(m) < 1e-6, m
""")
bug("c08-kcorrect-sign", "C08", "dsps/photometry/photpop.py",
    [("        ssp_wave, ssp_fluxes, filter_waves, filter_trans, z_kcorrect\n    )\n    return", "        ssp_wave, ssp_fluxes, filter_waves, filter_trans, jnp.round(z_kcorrect, 2)\n    )\n    return"),
     ("from jax import vmap\n", "from jax import numpy as jnp\nfrom jax import vmap\n")],
    "a k-correction redshift with more than two decimals",
    "the k-correction redshift is rounded to two decimals",
    PRE + """
from dsps.photometry import photpop as pp
w = np.linspace(1000, 10000, 300); F = (w / 5000.0) ** 3 * np.ones((2, 3, 1)); fw = np.linspace(4000, 5000, 40)[None]; tr = np.ones((1, 40))
a = np.asarray(pp.precompute_ssp_restmags_z_kcorrect(w, F, fw, tr, 0.1049))
b = dsps.photometry.calc_rest_mag(w * 1.1049, F[0, 0], fw[0], tr[0])
assert abs(a[0, 0, 0] - float(b)) < 1e-3, (a[0, 0, 0], float(b))
""")
bug("c10-few-steps", "C10", "dsps/cosmology/flat_wcdm.py",
    [("    z_table = jnp.linspace(0, redshift, 256)\n", "    z_table = jnp.linspace(0, redshift, 64)\n")],
    "redshifts of about 5 or more",
    "the distance integral is too coarse at high redshift",
    PRE + """
from dsps.cosmology import flat_wcdm as fw
from scipy.integrate import quad
for z in (6.0, 10.0):
    d = quad(lambda x: 1 / np.sqrt(0.3075 * (1 + x) ** 3 + 0.6925), 0, z)[0] * 2997.92458 / 0.6774
    assert abs(float(fw.comoving_distance_to_z(z, *fw.PLANCK15)) / d - 1) < 5e-4, z
""")
bug("c10-wa-sign", "C10", "dsps/cosmology/flat_wcdm.py",
    [("    de_z = a ** (-3.0 * (1.0 + w0 + wa)) * lax.exp(-3.0 * wa * (1.0 - a))\n", "    de_z = a ** (-3.0 * (1.0 + w0 + wa)) * lax.exp(-3.0 * wa * z * a * a)\n")],
    "a cosmology with evolving dark energy (wa not zero) beyond the lowest redshifts",
    "the exponential of the CPL dark-energy density is wrong away from z=0",
    PRE + """
from dsps.cosmology import flat_wcdm as fw
from scipy.integrate import quad
E = lambda x: np.sqrt(0.3 * (1 + x) ** 3 + 0.7 * (1 + x) ** (3 * (1 - 0.9 + 0.3)) * np.exp(-3 * 0.3 * x / (1 + x)))
d = quad(lambda x: 1 / E(x), 0, 3)[0] * 2997.92458 / 0.7
assert abs(float(fw.comoving_distance_to_z(3.0, 0.3, -0.9, 0.3, 0.7)) / d - 1) < 5e-4
""")
bug("c11-rho-h", "C11", "dsps/cosmology/flat_wcdm.py",
    [("    E = _Ez(z, Om0, w0, wa)\n    return Om0 * (1.0 + z) ** 3 / E / E\n", "    E = _Ez(z, Om0, -1.0, 0.0)\n    return Om0 * (1.0 + z) ** 3 / E / E\n")],
    "a cosmology whose dark energy is not a cosmological constant",
    "the matter density entering the virial overdensity ignores w0 and wa",
    PRE + """
from dsps.cosmology import flat_wcdm as fw
z, Om, w0, wa, h = 0.7, 0.3, -0.7, 0.2, 0.7
E2 = Om * (1 + z) ** 3 + (1 - Om) * (1 + z) ** (3 * (1 + w0 + wa)) * np.exp(-3 * wa * z / (1 + z))
x = Om * (1 + z) ** 3 / E2 - 1
want = 2**1.5 * 9.77792 / h / np.sqrt(E2) / np.sqrt(18 * np.pi**2 + 82 * x - 39 * x * x)
got = float(np.asarray(fw.virial_dynamical_time(z, Om, w0, wa, h)).ravel()[0])
assert abs(got / want - 1) < 1e-4, (got, want)
""")
bug("c12-bump-xc", "C12", "dsps/dust/att_curves.py",
    [("""    # Leitherer 2002 below 0.15 micron and Calzetti 2000 above
    k_lambda = _l02_below_c00_above(wave_micron, xc=0.15)

    # Apply power-law correction""", """    # Leitherer 2002 below 0.15 micron and Calzetti 2000 above
    k_lambda = _l02_below_c00_above(wave_micron, xc=0.12)

    # Apply power-law correction""")],
    "wavelengths between 0.12 and 0.15 micron in the Salim curve",
    "the Salim curve switches from Leitherer to Calzetti at the wrong wavelength",
    PRE + """
from dsps.dust import att_curves as A
w = np.array([0.13, 0.145])
assert np.allclose(A.sbl18_k_lambda(w, 0.0, 0.0), A.leitherer02_k_lambda(w), rtol=1e-10)
""")
bug("c12-bump-width-default", "C12", "dsps/dust/att_curves.py",
    [("""    k_lambda = k_lambda + _drude_bump(wave_micron, uv_bump, uv_bump_width, uv_bump_ampl)

    # Apply power-law correction""", """    k_lambda = k_lambda + _drude_bump(wave_micron, uv_bump, UV_BUMP_DW, uv_bump_ampl)

    # Apply power-law correction""")],
    "a non-default bump width in the Noll curve",
    "the Noll curve ignores the requested bump width",
    PRE + """
from dsps.dust import att_curves as A
w = np.array([0.25])
a = float(A.noll09_k_lambda(w, 3.0, 0.0, 0.2175, 0.08)[0] - A.noll09_k_lambda(w, 0.0, 0.0)[0])
want = 3 * (w[0] * .08) ** 2 / ((w[0] ** 2 - .2175**2) ** 2 + (w[0] * .08) ** 2)
assert abs(a - want) < 1e-9, (a, want)
""")
bug("c13-floor-additive", "C13", "dsps/dust/att_curves.py",
    [("    ftrans = ftrans_floor + (1 - ftrans_floor) * ftrans\n", "    ftrans = jnp.maximum(ftrans, ftrans_floor)\n")],
    "a non-zero transmission floor with moderate attenuation",
    "the floor clips the transmission instead of adding an unobscured fraction",
    PRE + """
from dsps.dust.att_curves import _frac_transmission_from_k_lambda as f
t = float(f(np.array([4.05]), 1.0, 0.2)[0])
assert abs(t - (0.2 + 0.8 * 10**-0.4)) < 1e-9, t
""")
bug("c14-wien-cut", "C14", "dsps/dust/blackbody.py",
    [("    lg_term1 = LG2 + LGH + 2 * LGC\n    lg_term2 = 5 * lax.log(wave_m)\n", "    lg_term1 = LG2 + LGH + 2 * LGC\n    lg_term2 = 5 * lax.log(lax.max(wave_m, 1e-8))\n")],
    "wavelengths below 100 Angstrom (with a hot enough body to emit there)",
    "the wavelength density is wrong below 100 Angstrom",
    PRE + """
from dsps.dust import blackbody_wave_density as b
w, T = 50.0, 1e6
h, k, c = 6.62607015e-34, 1.380649e-23, 299792458.0
m = w * 1e-10
want = 2 * h * c**2 / m**5 / np.expm1(h * c / (m * k * T)) / 3.828e26 * 1e-10
assert abs(float(b(np.array([w]), T)[0]) / want - 1) < 1e-6
""")
bug("c15-window-open", "C15", "dsps/em_lines/equivalent_width.py",
    [("    msk_hi = (x >= x3) & (x <= x4)\n", "    msk_hi = (x >= x3) & (x < x4)\n")],
    "a pixel exactly on the red edge of the red continuum window",
    "the red continuum window drops the pixel on its edge",
    PRE + """
from dsps.em_lines.equivalent_width import _ew_kernel as k
w = np.linspace(100, 200, 101); f = np.ones(101); f[90] = 3.0
c = np.asarray(k(w, f, 145.0, 150.0, 155.0, 110.0, 120.0, 180.0, 190.0)[1])
f2 = np.ones(101)
d = np.asarray(k(w, f2, 145.0, 150.0, 155.0, 110.0, 120.0, 180.0, 190.0)[1])
assert abs(c - d) > 1e-3
""")
bug("c15-center-line", "C15", "dsps/em_lines/equivalent_width.py",
    [("""    continuum_strength_at_line = c0 + c1 * line_mid + c2 * line_mid**2

    int_w = _get_integration_weights(wave, line_lo, line_hi)
    continuum_integrand = int_w * (c0 + c1 * wave + c2 * wave * wave)
    spec_integrand = int_w * flux

    continuum_flux_integral = trapz(wave, continuum_integrand)
    spec_flux_integral = trapz(wave, spec_integrand)

    total_line_flux = spec_flux_integral - continuum_flux_integral
    equivalent_width = total_line_flux / continuum_strength_at_line
    return equivalent_width, total_line_flux
""", """    line_mid = 0.5 * (line_lo + line_hi)
    continuum_strength_at_line = c0 + c1 * line_mid + c2 * line_mid**2

    int_w = _get_integration_weights(wave, line_lo, line_hi)
    continuum_integrand = int_w * (c0 + c1 * wave + c2 * wave * wave)
    spec_integrand = int_w * flux

    continuum_flux_integral = trapz(wave, continuum_integrand)
    spec_flux_integral = trapz(wave, spec_integrand)

    total_line_flux = spec_flux_integral - continuum_flux_integral
    equivalent_width = total_line_flux / continuum_strength_at_line
    return equivalent_width, total_line_flux
""")],
    "a line whose centre is not the middle of its window and a sloped continuum",
    "the continuum is evaluated at the middle of the line window instead of the line centre",
    PRE + """
from dsps.em_lines.equivalent_width import _ew_kernel as k
w = np.linspace(4800, 5200, 201); f = 1 + (w - 4800) / 100 + 5 * np.exp(-0.5 * ((w - 4990) / 3) ** 2)
a, b = k(w, f, 4970.0, 4980.0, 5040.0, 4810.0, 4900.0, 5100.0, 5190.0)
assert abs(float(b) / float(a) - 2.8) < 1e-3, float(b) / float(a)
""")
bug("c16-kroupa-alias", "C16", "dsps/imf/surviving_mstar.py",
    [("VAN_DOKKUM_PARAMS = deepcopy(DEFAULT_PARAMS)\n", "VAN_DOKKUM_PARAMS = KROUPA_PARAMS\n")],
    "comparing the Kroupa and van Dokkum calibrations in the same process",
    "two named calibrations share one dictionary",
    PRE + """
from dsps.imf import surviving_mstar as s
assert s.KROUPA_PARAMS["a"] == 0.211, s.KROUPA_PARAMS
""")
bug("c17-evol-t0", "C17", "dsps/metallicity/mzr.py",
    [("    return jnp.where(logZ_reduction > 0, 0, logZ_reduction)\n", "    return logZ_reduction\n")],
    "a mass so high that the evolution term would turn positive",
    "the evolution term of the older model can be positive",
    PRE + """
from dsps.metallicity import mzr
p = list(mzr.MZR_VS_T_PDICT.values())
d = np.asarray(mzr.mzr_evolution_model(np.linspace(8, 14.0, 50), 6.0, *p))
assert (d <= 0).all(), d.max()
""")
bug("c18-slope-hi-square", "C18", "dsps/metallicity/umzr.py",
    [("    x0 = 0.0\n    ylo = MZR_PBDICT[\"mzr_t0_slope_hi\"][0]\n    yhi = mzr_t0_slope_lo\n    mzr_t0_slope_hi = _sigmoid", "    x0 = 0.0\n    ylo = MZR_PBDICT[\"mzr_t0_slope_hi\"][0]\n    yhi = jnp.maximum(mzr_t0_slope_lo, MZR_PBDICT[\"mzr_t0_slope_hi\"][1])\n    mzr_t0_slope_hi = _sigmoid")],
    "a low-mass slope below 0.3 and a large unbounded high-mass slope",
    "the high-mass slope can exceed the low-mass slope",
    PRE + """
from dsps.metallicity import umzr
u = umzr.MZRUParams(*([0.0] * 9))._replace(u_mzr_t0_slope_lo=-40.0, u_mzr_t0_slope_hi=40.0)
p = umzr.get_bounded_mzr_params(u)
assert float(p.mzr_t0_slope_hi) <= float(p.mzr_t0_slope_lo), p
""")
bug("c19-support-wide", "C19", "dsps/sfh/diffburst.py",
    [("    lgyr_min = lgyr_peak - dlgyr_support\n", "    lgyr_min = jnp.maximum(lgyr_peak - dlgyr_support, 4.5)\n")],
    "a burst whose mirrored interval reaches below 10^4.5 yr and ages there",
    "the burst profile is no longer symmetric about its peak when it would reach very young ages",
    PRE + """
from dsps.sfh import diffburst as d
lg = np.linspace(3, 9, 601)
w = np.asarray(d._pureburst_age_weights_from_params(lg, 5.2, 6.5))
assert abs((w * lg).sum() - 5.2) < 1e-3, (w * lg).sum()
""")
bug("c20-grid-gyr", "C20", "dsps/sfh/diffburst.py",
    [("    age_weights = fb * burst_weights + (1 - fb) * smooth_age_weights\n\n    return age_weights\n\n\n@jjit\ndef calc_bursty_age_weights_from_u_params", "    fb = jnp.clip(fb, 1e-6, 1.0)\n    age_weights = fb * burst_weights + (1.0 - fb) * smooth_age_weights\n\n    return age_weights\n\n\n@jjit\ndef calc_bursty_age_weights_from_u_params")],
    "a burst fraction below one part in a million, or a burst outside the age grid",
    "tiny burst fractions are raised to 1e-6",
    PRE + """
from dsps.sfh import diffburst as d
lg = np.linspace(-3.5, 1.1, 100); s = np.zeros(100); s[-1] = 1.0
w = np.asarray(d.calc_bursty_age_weights(d.BurstParams(-8.0, 6.5, 7.8), s, lg))
assert abs(1 - w[-1] - 1e-8) < 1e-12, 1 - w[-1]
""")
bug("c21-hist-clip", "C21", "dsps/utils.py",
    [("    val = jnp.where(z < -3, 0, val)\n    val = jnp.where(z > 3, 1, val)\n", "    val = jnp.where(z < -2.9, 0, val)\n    val = jnp.where(z > 2.9, 1, val)\n")],
    "points between 2.9 and 3 widths from the centre",
    "the cumulative kernel is cut off before three widths",
    PRE + """
from dsps.utils import triweighted_histogram as h
e = np.array([-3.0, -2.92, 3.0])
v = np.asarray(h(np.array([0.0]), 1.0, e)).ravel()
assert v[0] > 1e-9, v
""")
bug("c22-negative-index", "C22", "dsps/utils.py",
    [("    return g * x ** (g - 1) / (bg - ag)\n", "    return jnp.abs(g * x ** (g - 1) / (bg - ag)) * jnp.where(x > b, 0.0, 1.0) * jnp.where(g < -1.5, x / x, 1.0) / jnp.where(jnp.abs(g - 1) < 1e-9, b - 0 * a, 1.0) * jnp.where(jnp.abs(g - 1) < 1e-9, b, 1.0) * jnp.where(g > 5, 5.0 / g, 1.0)\n")],
    "an index above five",
    "steep power laws are not normalised",
    PRE + """
from dsps.utils import powerlaw_pdf as f
x = np.linspace(1, 2, 20001)
n = x.size
y = np.asarray(f(x, np.ones(n), np.full(n, 2.0), np.full(n, 7.0)))
assert abs(np.trapezoid(y, x) - 1) < 1e-5
""")
bug("c23-env-wins", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("        if drn is None:\n            try:\n                drn = os.environ[\"DSPS_DRN\"]", "        if drn is None or not os.path.isfile(os.path.join(drn, bn)):\n            try:\n                drn = os.environ.get(\"DSPS_DRN\", drn) or os.environ[\"DSPS_DRN\"]")],
    "a directory without the file while the environment variable names one that has it",
    "a missing file in the requested directory silently falls back to the environment directory",
    PRE + """
import os, tempfile, h5py
d = tempfile.mkdtemp(); e = os.path.join(d, "env"); q = os.path.join(d, "q"); os.makedirs(e); os.makedirs(q)
with h5py.File(os.path.join(e, "x.h5"), "w") as f:
    f["ssp_lgmet"] = [1.0]; f["ssp_lg_age_gyr"] = [1.0]; f["ssp_wave"] = [1.0]; f["ssp_flux"] = [[[1.0]]]
os.environ["DSPS_DRN"] = e
ok = False
try:
    dsps.load_ssp_templates(drn=q, bn="x.h5")
except Exception:
    ok = True
import shutil; shutil.rmtree(d)
assert ok, "loaded another directory's file"
""")
bug("c23-sorted-lines", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("            ssp_emline_wave = [float(wave) for wave in hdf[\"ssp_emline_wave\"][...]]\n", "            ssp_emline_wave = [float(wave) for wave in sorted(hdf[\"ssp_emline_wave\"][...])]\n")],
    "a file whose lines are not stored by increasing wavelength",
    "wavelengths are attached to the wrong line names",
    PRE + """
import os, tempfile, h5py, shutil
d = tempfile.mkdtemp(); fn = os.path.join(d, "x.h5")
with h5py.File(fn, "w") as f:
    f["ssp_lgmet"] = [1.0]; f["ssp_lg_age_gyr"] = [1.0]; f["ssp_wave"] = [1.0]; f["ssp_flux"] = [[[1.0]]]
    f["ssp_emline_name"] = np.array(["A", "B"], dtype="S"); f["ssp_emline_wave"] = [6563.0, 4861.0]; f["ssp_emline_luminosity"] = [[[1.0, 2.0]]]
s = dsps.load_ssp_templates(fn=fn); shutil.rmtree(d)
assert s.ssp_emline_wave.A == 6563.0, s.ssp_emline_wave
""")
bug("c24-min-first", "C24", "dsps/data_loaders/load_filter_data.py",
    [("        if np.nanmin(transmission) < -TOL:\n", "        if transmission[0] < -TOL or transmission[-1] < -TOL:\n")],
    "a curve that is negative in its interior only",
    "negative transmission is noticed at the ends of the curve only",
    PRE + """
import os, tempfile, h5py, shutil
d = tempfile.mkdtemp(); fn = os.path.join(d, "x.h5")
with h5py.File(fn, "w") as f:
    f["wave"] = np.linspace(1, 2, 9); f["transmission"] = [0.0, 0.1, 0.5, -0.2, 0.6, 0.5, 0.3, 0.1, 0.0]
ok = False
try:
    dsps.load_transmission_curve(fn=fn)
except ValueError:
    ok = True
shutil.rmtree(d)
assert ok
""")
bug("c25-subset-sorted", "C25", "dsps/data_loaders/load_emline_info.py",
    [("    line_lum = ssp_data.ssp_emline_luminosity[:, :, indx_lines]\n", "    line_lum = ssp_data.ssp_emline_luminosity[:, :, np.sort(indx_lines)]\n")],
    "lines requested in an order different from the stored one",
    "luminosities are returned in stored order while wavelengths follow the request",
    PRE + """
from dsps.data_loaders.retrieve_fake_fsps_data import load_fake_ssp_data
from dsps.data_loaders.load_emline_info import get_subset_emline_data as g
s = load_fake_ssp_data(); n = s.ssp_emline_wave._fields
r = g(s, [n[40], n[3]])
assert np.array_equal(r.ssp_emline_luminosity[:, :, 0], s.ssp_emline_luminosity[:, :, 40])
""")
bug("c28-shared-params", "C28", "dsps/metallicity/umzr.py",
    [("    nparams = len(bounds_pdict)\n    bounds = list(bounds_pdict.values())\n", "    nparams = len(bounds_pdict)\n    bounds_pdict.move_to_end(\"mzr_t0_ytp\")\n    bounds = list(bounds_pdict.values())\n")],
    "two draws in the same process (the second sees the reordered shared dictionary), or reading the bounds after a draw",
    "drawing parameters reorders the library's shared bounds dictionary",
    PRE + """
from jax import random
from dsps.metallicity import umzr
k = list(umzr.MZR_T0_PBDICT)
umzr.get_ran_t0_params(random.PRNGKey(0))
assert list(umzr.MZR_T0_PBDICT) == k
""")
bug("c31-common-range", "C31", "dsps/photometry/utils.py",
    [("        wave_min, wave_max = wave.min(), wave.max()\n        new_wave = np.linspace(wave_min, wave_max, n)\n", "        new_wave = np.linspace(wave.min(), max(wave.max(), wave.min() + 1.0), n)\n        new_wave = np.round(new_wave, 3)\n")],
    "filters whose resampled spacing is not a multiple of a milli-Angstrom",
    "resampled wavelengths are rounded to 0.001 Angstrom",
    PRE + """
from dsps.photometry.utils import interpolate_filter_trans_curves as f
w = np.linspace(1000.0, 1000.01, 7); t = np.ones(7)
a, b = f([w], [t])
assert abs(a[0] - np.linspace(w[0], w[-1], 7)).max() < 1e-9, a
""")
