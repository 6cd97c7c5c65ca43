"""Third batch."""
BUGS = []


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = """
import numpy as np
import dsps
"""

bug("c01-floor-zero-only", "C01", "dsps/sed/stellar_age_weights.py",
    [("    gal_sfr_table = jnp.where(gal_sfr_table < sfr_min, sfr_min, gal_sfr_table)\n", "    gal_sfr_table = jnp.where(gal_sfr_table <= 0, sfr_min, gal_sfr_table)\n")],
    "a caller-chosen sfr_min above some positive rates of the table", "the SFR floor replaces only zero rates, not small positive ones",
    PRE + """
from dsps.sed import calc_age_weights_from_sfh_table as f
t = np.linspace(0.1, 13.8, 50); lg = np.linspace(-3, 1.1, 12)
a = np.asarray(f(t, np.full(50, 1e-3) * t, lg, 13.0, 0.1)); b = np.asarray(f(t, np.full(50, 0.1), lg, 13.0))
assert np.allclose(a, b, rtol=1e-6, atol=1e-9), (a, b)
""")
bug("c02-fill-next", "C02", "dsps/utils.py",
    [("    hires = hires.at[-1].set(1.0)\n", "    hires = hires.at[-2].set(1.0)\n")],
    "a distribution centred above the hard upper limit of the metallicity range", "mass beyond the grid lands in the last bin but one",
    PRE + """
from dsps.sed import calc_lgmet_weights_from_lognormal_mdf as f
w = np.asarray(f(12.0, 0.1, np.linspace(-4, -1, 6)))
assert w[-1] == 1 and w.sum() == 1, w
""")
bug("c03-left-min", "C03", "dsps/sed/metallicity_weights.py",
    [("    lgmet_at_ssp_lgages = jnp.interp(lgt_birth, lgt_table, gal_lgmet_table)\n", "    lgmet_at_ssp_lgages = jnp.interp(\n        lgt_birth, lgt_table, gal_lgmet_table, left=gal_lgmet_table.min()\n    )\n")],
    "stars born before the first table time, with a metallicity history that is not lowest at its start", "such stars get the lowest metallicity of the table instead of the earliest one",
    PRE + """
from dsps.sed import calc_lgmet_weights_from_lgmet_table as f
t = np.linspace(2.0, 13.8, 30); g = np.linspace(-4, -1, 13); lg = np.array([-1.0, 0.0, 1.0])
w = np.asarray(f(t, np.where(t < 6, -1.5, -3.0), 0.05, g, lg, 11.0))
assert g[w[:, 2].argmax()] == -1.5, w[:, 2]
""")
bug("c04-square-grid", "C04", "dsps/sed/ssp_weights.py",
    [("    weights = lgmet_weights * age_weights.reshape((1, -1))\n",
      "    age_axis = lgmet_weights.shape.index(age_weights.size)\n    shape = [1, 1]\n    shape[age_axis] = -1\n    weights = lgmet_weights * age_weights.reshape(shape)\n")],
    "as many metallicities as ages", "the age weights multiply the metallicity axis when both axes have the same length",
    PRE + """
from dsps.sed import calc_ssp_weights_sfh_table_met_table as f
t = np.linspace(0.1, 13.8, 50)
for n in (7, 8):
    r = f(t, np.exp(-t), np.linspace(-3, -1, 50), 0.2, np.linspace(-4, -1, n), np.linspace(-2, 1.1, 8), 13.0)
    assert np.allclose(np.asarray(r.weights).sum(0), r.age_weights, atol=1e-9), n
""")
bug("c05-tobs-second", "C05", "dsps/sed/stellar_sed.py",
    [("    logsm_obs = jnp.interp(lgt_obs, lgt_table, logsm_table)\n", "    logsm_obs = jnp.interp(jnp.maximum(lgt_obs, lgt_table[1]), lgt_table, logsm_table)\n", None, 1)],
    "an observation time between the first two table entries", "the mass is that of the second table time",
    PRE + """
from dsps.sed import calc_rest_sed_sfh_table_lognormal_mdf as a, calc_rest_sed_sfh_table_met_table as b
t = np.array([1.0, 5.0, 13.8]); s = np.ones(3); g = np.linspace(-4, -1, 6); lg = np.linspace(-3, 0.2, 10); f = np.ones((6, 10, 3))
x = a(t, s, -2.0, 0.2, g, lg, f, 2.0).rest_sed; y = b(t, s, np.full(3, -2.0), 0.2, g, lg, f, 2.0).rest_sed
assert np.allclose(x, y, rtol=1e-9), (x, y)
""")
bug("c06-pad-zero", "C06", "dsps/utils.py",
    [("    padded_t_table = padded_t_table.at[0].set(T_BIRTH_MIN)\n", "    padded_t_table = padded_t_table.at[0].set(0.0)\n")],
    "a table whose first entry has a high rate at an early time", "star formation starts at the Big Bang instead of at the first birth time",
    PRE + """
from dsps import cumulative_mstar_formed as f
m = np.asarray(f(np.array([0.01, 1.0]), np.array([10.0, 10.0])))
assert abs(m[0] / (0.009 * 5 * 1e9) - 1) < 1e-6, m
""")
bug("c07-flux-floor", "C07", "dsps/photometry/photometry_kernels.py",
    [("    rest_mag = -2.5 * jnp.log10(rest_flux)\n", "    rest_mag = -2.5 * jnp.log10(jnp.maximum(rest_flux, 1e-20))\n")],
    "a source fainter than magnitude 50 (a spectrum per unit mass in a dark band)", "rest magnitudes saturate",
    PRE + """
from dsps import calc_rest_mag as f
w = np.linspace(1000, 9000, 100); fw = np.linspace(4000, 6000, 30); T = np.ones(30)
a = float(f(w, np.full(100, 1e-13), fw, T)); b = float(f(w, np.full(100, 1e-35), fw, T))
assert abs(b - a - 55) < 1e-6, (a, b)
""")
bug("c08-shared-wave", "C08", "dsps/photometry/photpop.py",
    [("_b = [None, None, 0, 0, None]\n", "_b = [None, None, None, 0, None]\n"),
     ("    ssp_restmag_table = _calc_obs_mag_no_dimming_f_ssp(\n        ssp_wave, ssp_fluxes, filter_waves, filter_trans, z_kcorrect\n", "    ssp_restmag_table = _calc_obs_mag_no_dimming_f_ssp(\n        ssp_wave, ssp_fluxes, filter_waves[0], filter_trans, z_kcorrect\n")],
    "k-corrected tables for filters on different wavelength grids", "all filters are evaluated on the wavelength grid of the first",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_restmags_z_kcorrect as k, precompute_ssp_restmags as p
w = np.linspace(1000, 20000, 300); f = (w / 5000.0)[None, None] ** 2; fw = np.array([np.linspace(4000, 5000, 20), np.linspace(7000, 8000, 20)]); T = np.ones((2, 20))
assert np.allclose(k(w, f, fw, T, 0.0), p(w, f, fw, T), atol=1e-9)
""")
bug("c09-faint-cap", "C09", "dsps/photometry/photometry_kernels.py",
    [("    obs_mag = mag_no_dimming + dimming\n", "    obs_mag = jnp.minimum(mag_no_dimming, 30.0) + dimming\n")],
    "templates so faint per unit mass that their magnitude exceeds 30 (old populations in the far UV); redder bands are unaffected",
    "faint template magnitudes are capped, so colours from the table differ from those of the composite SED",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_obsmags_on_z_table as p
from dsps import calc_obs_mag
C = (0.3, -1.0, 0.0, 0.7); w = np.linspace(500, 20000, 400); fw = np.linspace(3000, 4000, 30); ft = np.ones(30)
f = np.array([np.full(400, 1e-27), np.full(400, 1e-12)])[None]
m = np.asarray(p(w, f, fw[None], ft[None], np.array([1.0]), *C))[0, 0, :, 0]
tot = -2.5 * np.log10((np.array([1e12, 1e-3]) * 10 ** (-0.4 * m)).sum())
one = float(calc_obs_mag(w, 1e12 * f[0, 0] + 1e-3 * f[0, 1], fw, ft, 1.0, *C))
assert abs(tot - one) < 1e-6, (tot, one)
""")
bug("c09-noise-cut", "C09", "dsps/photometry/photometry_kernels.py",
    [("    lum_phot = jnp.interp(wave_filter, wave_spec_rest, lum_spec, left=0, right=0)\n", "    lum_phot = jnp.interp(wave_filter, wave_spec_rest, lum_spec, left=0, right=0)\n    lum_phot = jnp.where(lum_phot < 1e-4 * lum_phot.max(), 0.0, lum_phot)\n")],
    "a band in which the spectrum spans more than four decades", "the faint part of a spectrum is dropped, so photometry is not linear in the SED",
    PRE + """
from dsps.photometry.photometry_kernels import calc_rest_flux as f
w = np.linspace(1000, 9000, 2000); fw = np.linspace(3000, 8000, 500); T = np.ones(500)
a = np.ones(2000); b = np.where(abs(w - 5000) < 30, 1e5, 0.0)
x = float(f(w, a, fw, T)) + float(f(w, b, fw, T)); y = float(f(w, a + b, fw, T))
assert abs(x / y - 1) < 1e-8, (x, y)
""")
bug("c10-tiny-z", "C10", "dsps/cosmology/flat_wcdm.py",
    [("    z_table = jnp.linspace(0, redshift, 256)\n", "    z_table = jnp.linspace(0, jnp.maximum(redshift, 1e-4), 256)\n")],
    "a redshift below 1e-4 (the very local Universe)", "distances stop decreasing at z=1e-4",
    PRE + """
from dsps.cosmology import comoving_distance_to_z as d
C = (0.3, -1.0, 0.0, 0.7)
assert abs(float(d(1e-5, *C)) / (1e-5 * 2997.92458 / 0.7) - 1) < 1e-3
""")
bug("c11-rho-lambda", "C11", "dsps/cosmology/flat_wcdm.py",
    [("    rho_crit = rho_crit0 * _Ez(redshift, Om0, w0, wa) ** 2\n", "    rho_crit = rho_crit0 * _Ez(redshift, Om0, w0, jnp.minimum(wa, 0.0)) ** 2\n")],
    "a cosmology with positive wa", "the critical density ignores a positive wa",
    PRE + """
from dsps.cosmology.flat_wcdm import rho_crit as r, virial_dynamical_time as v
a = float(r(2.0, 0.3, -0.9, 0.5, 0.7)); k = 1 / 3.0
e2 = 0.3 * 27 + 0.7 * k ** (-3 * (1 - 0.9 + 0.5)) * np.exp(-3 * 0.5 * (1 - k))
assert abs(a / (277.536627 * 0.49 * e2) - 1) < 1e-6, a
""")
bug("c12-bump-width-dropped", "C12", "dsps/dust/att_curves.py",
    [("    k_lambda = sbl18_k_lambda(\n        wave_micron, uv_bump_ampl, plaw_slope, uv_bump, uv_bump_width\n    )\n", "    k_lambda = sbl18_k_lambda(wave_micron, uv_bump_ampl, plaw_slope, uv_bump)\n")],
    "a caller-chosen bump width in the Salim attenuation curve", "the bump width argument is ignored by one of the two functions",
    PRE + """
from dsps.dust import att_curves as a
w = np.linspace(0.15, 0.3, 40)
assert np.allclose(a.sbl18_k_att_curve(w, 1.0, 2.0, -0.1, 0.22, 0.06), a.sbl18_k_lambda(w, 2.0, -0.1, 0.22, 0.06) / 4.05, rtol=1e-10)
""")
bug("c13-no-clip", "C13", "dsps/dust/att_curves.py",
    [("    att_curve = jnp.where(att_curve < 0, 0, att_curve)\n    return att_curve\n", "    att_curve = jnp.where(k_lambda < -5.0, 0, att_curve)\n    return att_curve\n")],
    "near-infrared wavelengths where the Calzetti polynomial is negative", "dust amplifies the light",
    PRE + """
from dsps.dust import att_curves as a
w = np.linspace(0.1, 8, 500)
assert (np.asarray(a.calzetti00_att_curve(w, 1.0)) >= 0).all()
""")
bug("c14-radio-cut", "C14", "dsps/dust/blackbody.py",
    [("    exparg = lg_term1 + lg_term2\n    return exparg\n", "    exparg = lg_term1 + lax.max(lg_term2, 3 * lax.log(1e7 + 0 * freq_hz))\n    return exparg\n")],
    "frequencies below 10 MHz", "the frequency density is too high at long radio wavelengths",
    PRE + """
from dsps.dust import blackbody_freq_density as f, blackbody_wave_density as g
nu = np.array([1e5, 1e6]); lam = 299792458.0 / nu * 1e10
a = np.asarray(f(nu, 5000.0)); b = np.asarray(g(lam, 5000.0)) * lam / nu
assert np.allclose(a, b, rtol=1e-6, atol=0), (a, b)
""")
bug("c15-line-open", "C15", "dsps/em_lines/equivalent_width.py",
    [("    msk = (x >= x2) & (x <= x3)\n", "    msk = (x >= x2) & (x < x3)\n")],
    "an integration window that ends exactly on a pixel", "the last pixel of the line window is left out",
    PRE + """
from dsps.em_lines.equivalent_width import _ew_kernel as f
w = np.arange(100.0, 201.0); y = np.where((w >= 145) & (w <= 155), 2.0, 1.0)
e = float(f(w, y, 145.0, 150.0, 155.0, 100.0, 140.0, 160.0, 200.0)[0])
assert abs(e - 11.0) < 0.01, e
""")
bug("c16-old-clip", "C16", "dsps/imf/surviving_mstar.py",
    [("    frac_returned = _returned_mass(lg_age_yr, a, b, lgk1, d, e, f, lgk2, h)\n", "    lg_age_yr = jnp.minimum(lg_age_yr, 10.0)\n    frac_returned = _returned_mass(lg_age_yr, a, b, lgk1, d, e, f, lgk2, h)\n"),
     ("from jax import jit as jjit\n", "from jax import jit as jjit\nfrom jax import numpy as jnp\n")],
    "stars older than ten billion years", "the surviving fraction stops falling at 10 Gyr",
    PRE + """
from dsps.imf.surviving_mstar import surviving_mstar as f
a = np.asarray(f(np.array([10.0, 10.1, 10.14])))
assert (np.diff(a) < 0).all(), a
""")
bug("c17-small-positive", "C17", "dsps/metallicity/mzr.py",
    [("    return jnp.where(logZ_reduction > 0, 0, logZ_reduction)\n", "    return jnp.where(logZ_reduction > 0.2, 0, logZ_reduction)\n"),
     ("    return jnp.where(logZ_reduction > 0, 0, logZ_reduction)\n", "    return jnp.where(logZ_reduction > 0.2, 0, logZ_reduction)\n", "dsps/metallicity/umzr.py")],
    "very massive galaxies, for which the fitted reduction is slightly positive", "metallicity can rise with lookback time",
    PRE + """
from dsps.metallicity import mzr as m
d = {k: v for k, v in m.MZR_VS_T_PDICT.items()}
z = np.asarray(m.mzr_evolution_model(np.linspace(8, 15, 100), 3.0, *d.values()))
assert (z <= 0).all(), z.max()
""")
bug("c18-inverse-clip", "C18", "dsps/metallicity/umzr.py",
    [("    return _inverse_sigmoid(param, mid, BOUNDING_K, lo, hi)\n", "    eps = 1e-6 * (hi - lo)\n    return _inverse_sigmoid(jnp.clip(param, lo + eps, hi - eps), mid, BOUNDING_K, lo, hi)\n")],
    "a parameter within a millionth of one of its bounds", "the inverse transform does not return parameters close to their bounds",
    PRE + """
from dsps.metallicity import umzr as m
p = m.DEFAULT_MZR_PARAMS._replace(mzr_t0_k=0.5 + 3e-7)
q = m.get_bounded_mzr_params(m.get_unbounded_mzr_params(p))
assert abs(q.mzr_t0_k - p.mzr_t0_k) < 1e-9, q
""")
bug("c19-support-floor", "C19", "dsps/sfh/diffburst.py",
    [("    lgyr_min = lgyr_peak - dlgyr_support\n", "    lgyr_min = jnp.maximum(lgyr_peak - dlgyr_support, 3.0)\n")],
    "an early peak with a long tail", "the burst is no longer centred on its peak",
    PRE + """
from dsps.sfh.diffburst import _pureburst_age_weights_from_params as f
x = np.linspace(1.0, 10.0, 901); w = np.asarray(f(x, 5.1, 8.9))
assert abs(x[w.argmax()] - 5.1) < 0.011, x[w.argmax()]
""")
bug("c20-renorm", "C20", "dsps/sfh/diffburst.py",
    [("    age_weights = fb * burst_weights + (1 - fb) * smooth_age_weights\n", "    age_weights = fb * burst_weights + (1 - fb) * _zero_safe_normalize(\n        smooth_age_weights\n    )\n")],
    "smooth weights that do not sum to one", "the smooth weights are renormalised, so the mixture is not linear in them",
    PRE + """
from dsps.sfh.diffburst import calc_bursty_age_weights as f, BurstParams
a = np.asarray(f(BurstParams(-2.0, 6.0, 7.5), np.full(20, 0.1), np.linspace(-3, 1, 20)))
assert abs(a.sum() - (0.01 + 0.99 * 2)) < 1e-9, a.sum()
""")
bug("c21-inverse-eps", "C21", "dsps/utils.py",
    [("    return x0 - lax.log(lnarg) / k\n", "    return x0 - lax.log(lnarg + 1e-9) / k\n")],
    "a value within about 1e-9 of the upper level", "the inverse sigmoid saturates just below the upper level",
    PRE + """
from dsps.utils import _sigmoid as s, _inverse_sigmoid as i
x = 18.0
assert abs(float(i(s(x, 0.0, 1.0, 0.0, 1.0), 0.0, 1.0, 0.0, 1.0)) - x) < 1e-3
""")
bug("c22-float32-draws", "C22", "dsps/utils.py",
    [("    r = jran.uniform(ran_key, (npts,))\n", "    r = jran.uniform(ran_key, (npts,), dtype=jnp.float32)\n")],
    "many draws, or a steep power law whose tail needs finely resolved uniforms", "the draws take only about eight million different values, so large samples repeat",
    PRE + """
from dsps.utils import powerlaw_rvs as f
from jax import random as jr
n = 200_000; o = np.ones(n)
x = np.asarray(f(jr.PRNGKey(0), o, 5 * o, 1.5 * o))
assert len(np.unique(x)) > n - 3, len(np.unique(x))
""")
bug("c23-lenient-lines", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("        if \"ssp_emline_name\" in hdf.keys():\n", "        if \"ssp_emline_name\" in hdf.keys() and \"ssp_emline_luminosity\" in hdf.keys():\n")],
    "a file with line names but no line luminosities", "an incomplete file loads silently as one without emission lines",
    """
import os, tempfile, h5py, numpy as np
from dsps import load_ssp_templates
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "x.h5")
    with h5py.File(fn, "w") as h:
        for k, s in (("ssp_lgmet", 2), ("ssp_lg_age_gyr", 3), ("ssp_wave", 4), ("ssp_flux", (2, 3, 4))):
            h[k] = np.ones(s)
        h["ssp_emline_name"] = ["a", "b"]; h["ssp_emline_wave"] = [1.0, 2.0]
    try:
        load_ssp_templates(fn=fn)
    except Exception:
        raise SystemExit(0)
    raise SystemExit(1)
""")
bug("c24-clip-upper", "C24", "dsps/data_loaders/load_filter_data.py",
    [("            transmission = np.clip(transmission, 0.0, 1.0)\n", "            transmission = np.clip(transmission, 0.0, max(1.0, transmission[0]))\n")],
    "a curve whose first sample lies above one but inside the tolerance", "values slightly above one are not clipped",
    """
import os, tempfile, h5py, numpy as np
from dsps import load_transmission_curve
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "x.h5")
    with h5py.File(fn, "w") as h:
        h["wave"] = np.arange(1.0, 5.0); h["transmission"] = np.array([1.005, 0.9, 1.004, 0.0])
    assert load_transmission_curve(fn=fn).transmission.max() <= 1
""")
bug("c24-centre-upper", "C24", "dsps/data_loaders/load_filter_data.py",
    [("        assert wave_range[0] < tcurve_center < wave_range[1]\n", "        assert wave_range[0] < tcurve_center < wave_range[1] + scale\n")],
    "a requested centre just beyond the red end of the range", "a filter centred outside its wavelength range is accepted",
    PRE + """
from dsps.data_loaders import load_random_transmission_curve as f
try:
    f(tcurve_center=10100.0)
except AssertionError:
    raise SystemExit(0)
raise SystemExit(1)
""")
bug("c25-subset-cache", "C25", "dsps/data_loaders/load_emline_info.py",
    [("    indx_lines = np.array(\n        [ssp_data.ssp_emline_wave._fields.index(name) for name in emline_names]\n    )\n",
      "    key = ssp_data.ssp_emline_wave._fields, tuple(sorted(emline_names))\n    if key not in _SUBSETS:\n        _SUBSETS[key] = np.array(\n            [ssp_data.ssp_emline_wave._fields.index(name) for name in emline_names]\n        )\n    indx_lines = _SUBSETS[key]\n"),
     ("def read_emlines_info_fsps(", "_SUBSETS = {}\n\n\ndef read_emlines_info_fsps(")],
    "two requests for the same lines in different orders", "the second request gets the wavelengths and luminosities in the order of the first",
    PRE + """
from dsps.data_loaders.retrieve_fake_fsps_data import load_fake_ssp_data
from dsps.data_loaders.load_emline_info import get_subset_emline_data as g
d = load_fake_ssp_data(n_line=6); n = d.ssp_emline_wave._fields
for names in ([n[0], n[3]], [n[3], n[0]]):
    s = g(d, names)
    for i, k in enumerate(names):
        assert getattr(s.ssp_emline_wave, k) == getattr(d.ssp_emline_wave, k)
""")
bug("c26-y-gain", "C26", "dsps/data_loaders/retrieve_fake_fsps_data.py",
    [("    return norm.pdf(x, loc=3.985, scale=0.017) / 85\n", "    return norm.pdf(x, loc=3.985, scale=0.017) / 8.5\n")],
    "the reddest dummy band near its peak", "the transmission of the y band exceeds one",
    PRE + """
from dsps.data_loaders.retrieve_fake_fsps_data import load_fake_filter_transmission_curves as f
assert max(float(np.max(x)) for x in f()[1:]) <= 1
""")
bug("c27-unsafe-normalize", "C27", "dsps/sfh/diffburst.py",
    [("    s = jnp.where(s <= 0, 1, s)\n    return x / s\n", "    return jnp.where(s <= 0, 0.0, x / s)\n")],
    "a burst that misses the age grid, under differentiation", "the values stay right but the gradient is NaN",
    PRE + """
import jax
from dsps.sfh.diffburst import calc_bursty_age_weights as f, BurstParams
lg = np.linspace(0.5, 1.1, 8); s = np.full(8, 1 / 8)
g = jax.grad(lambda p: (np.arange(8.0) * f(BurstParams(-2.0, p, 7.5), s, lg)).sum())(6.0)
assert np.isfinite(g), g
""")
bug("c28-shared-buffer", "C28", "dsps/photometry/utils.py",
    [("    trans_collector = []\n    for wave, trans in zip(wave_filters, trans_filters):\n", "    trans_collector = _BUFFERS.setdefault((len(wave_filters), int(n)), np.zeros((len(wave_filters), n)))\n    for i, (wave, trans) in enumerate(zip(wave_filters, trans_filters)):\n"),
     ("        trans_collector.append(new_trans)\n", "        trans_collector[i] = new_trans\n"),
     ("def interpolate_filter_trans_curves(", "_BUFFERS = {}\n\n\ndef interpolate_filter_trans_curves(")],
    "two threads resampling different filters to the same shape at the same time", "results of concurrent calls are mixed up through a shared work array",
    PRE + """
import sys, threading
from dsps.photometry.utils import interpolate_filter_trans_curves as f
sys.setswitchinterval(1e-6)
w = [np.linspace(1, 2, 50)] * 40; bad = []
def go(v):
    t = [np.full(50, v)] * 40
    for _ in range(1500):
        if not (f(w, t, 60)[1] == v).all():
            bad.append(v); return
th = [threading.Thread(target=go, args=(float(k),)) for k in range(6)]
[x.start() for x in th]; [x.join() for x in th]
assert not bad
""")
bug("c28-grown-default", "C28", "dsps/metallicity/umzr.py",
    [("def get_ran_t0_params(ran_key, bounds_pdict=MZR_T0_PBDICT):\n", "def get_ran_t0_params(ran_key, bounds_pdict=MZR_T0_PBDICT, params=[]):\n"),
     ("    params = []\n    for ip in range(nparams):\n", "    for ip in range(nparams):\n"),
     ("        params.append(u)\n    return params\n", "        params.append(u)\n    return params[-nparams:] if len(params) < 200 else params[:nparams]\n")],
    "more than forty draws in one process", "after many draws the first ones are returned again",
    PRE + """
from jax import random as jr
from dsps.metallicity.umzr import get_ran_t0_params as f
a = [float(x) for x in f(jr.PRNGKey(9))]
for i in range(60):
    f(jr.PRNGKey(i))
assert [float(x) for x in f(jr.PRNGKey(9))] == a
""")
bug("c28-chdir", "C28", "dsps/data_loaders/load_filter_data.py",
    [("        msg = \"There is no filename with pattern {0} located in {1}\"\n", "        here = os.getcwd()\n        os.chdir(drn)\n        msg = \"There is no filename with pattern {0} located in {1}\"\n"),
     ("        fn = fn_list[0]\n", "        os.chdir(here)\n        fn = fn_list[0]\n")],
    "a pattern lookup that fails, followed by anything that uses a relative path", "the working directory of the process stays changed after a failed lookup",
    PRE + """
import os, tempfile
from dsps import load_transmission_curve
h = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    try:
        load_transmission_curve(drn=d, bn_pat="nope*")
    except Exception:
        pass
    x = os.getcwd(); os.chdir(h)
    assert x == h, x
""")
bug("c29-f32-table", "C29", "dsps/cosmology/flat_wcdm.py",
    [("    z_table = jnp.logspace(0, 3, 512) - 1.0\n", "    z_table = jnp.asarray(jnp.logspace(0, 3, 512, dtype=jnp.float32) - 1.0, dtype=float)\n")],
    "looking beyond the seventh digit of the age of the Universe", "the age integral is tabulated in single precision",
    PRE + """
from dsps.cosmology import age_at_z0, lookback_to_z
C = (0.3, -1.0, 0.0, 0.7)
z = np.logspace(0, 3, 512) - 1
E = np.sqrt(0.3 * (1 + z) ** 3 + 0.7); y = 1 / E / (1 + z)
want = 1e-16 * 3.08567758149e24 / 31556925.2 / 0.7 * (np.diff(z) * (y[1:] + y[:-1]) / 2).sum()
assert abs(float(age_at_z0(*C)) / want - 1) < 1e-10
""")
bug("c30-second-params", "C30", "dsps/metallicity/diagnostics/plot_mzr.py",
    [("            umzr.mzr_model(logsm_arr, t_arr[it], *params2),\n", "            umzr.mzr_model(logsm_arr, t_arr[it], *umzr.MZRParams(*params2)._replace(mzr_t0_k=params.mzr_t0_k)),\n")],
    "two models that differ in the transition speed", "the dashed curves borrow a parameter of the first model",
    """
import matplotlib
matplotlib.use("Agg")
import numpy as np
from dsps.metallicity.diagnostics.plot_mzr import make_mzr_comparison_plot as f
from dsps.metallicity import umzr
p = umzr.DEFAULT_MZR_PARAMS; q = p._replace(mzr_t0_k=2.0)
l = [x for x in f(p, q).axes[0].lines if x.get_linestyle() == "--"][0]
x = np.asarray(l.get_xdata())
assert np.allclose(l.get_ydata(), umzr.mzr_model(x, 2.0, *q))
""")
bug("c30-m18-thin", "C30", "dsps/metallicity/diagnostics/plot_mzr.py",
    [("        lgsm_msun_g05[::2],\n        lgzmet_g05[::2],\n", "        lgsm_msun_g05[::2],\n        lgzmet_g05[1::2][: lgsm_msun_g05[::2].size],\n")],
    "a data set with an even number of rows", "the Gallazzi metallicities are paired with the masses of the neighbouring rows",
    """
import matplotlib, os
matplotlib.use("Agg")
import numpy as np, dsps
from dsps.metallicity.diagnostics.plot_mzr import make_mzr_comparison_plot as f
from dsps.metallicity import umzr
t = np.loadtxt(os.path.join(os.path.dirname(dsps.__file__), "metallicity/tests/testing_data/galazzi_etal05_mzr.dat"), delimiter=",")
p = [x for x in f(umzr.DEFAULT_MZR_PARAMS).axes[0].lines if x.get_marker() == "d"][0]
assert np.allclose(p.get_ydata(), t[::2, 1] + np.log10(0.012))
""")
bug("c31-first-length", "C31", "dsps/photometry/utils.py",
    [("        n = np.min([x.size for x in wave_filters])\n", "        n = min(wave_filters[0].size, wave_filters[-1].size)\n")],
    "three or more filters of which a middle one is shortest, with the default length", "the default length is not that of the shortest curve",
    PRE + """
from dsps.photometry.utils import interpolate_filter_trans_curves as f
w = [np.linspace(1, 2, k) for k in (30, 10, 20)]
assert f(w, w)[0].shape == (3, 10)
""")
bug("c31-rest-lambda", "C31", "dsps/dust/utils.py",
    [("    lambda_eff = lambda_eff_rest / (1 + redshift)\n", "    lambda_eff = lambda_eff_rest / (1 + jnp.clip(redshift, 0, 10))\n"),
     ("from jax import jit as jjit\n", "from jax import jit as jjit\nfrom jax import numpy as jnp\n")],
    "a redshift beyond ten", "the effective rest wavelength stops shrinking at redshift ten",
    PRE + """
from dsps.dust.utils import get_filter_effective_wavelength as f
w = np.linspace(1000, 2000, 11); a = float(f(w, np.ones(11), 0.0)); b = float(f(w, np.ones(11), 14.0))
assert abs(a / b - 15) < 1e-9, (a, b)
""")
