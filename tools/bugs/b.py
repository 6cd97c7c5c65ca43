"""Second batch."""
BUGS = []


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = """
import numpy as np
import dsps
"""

bug("c05-mass-linear-time", "C05", "dsps/sed/stellar_sed.py",
    [("    logsm_obs = jnp.interp(lgt_obs, lgt_table, logsm_table)\n", "    logsm_obs = jnp.interp(t_obs, gal_t_table, logsm_table)\n", None, 2)],
    "a coarse time table with the observation between two entries, tabulated-metallicity model only",
    "the mass at the observation time is interpolated in linear time, so the two metallicity models disagree for a constant metallicity history",
    PRE + """
from dsps.sed import calc_rest_sed_sfh_table_lognormal_mdf as a, calc_rest_sed_sfh_table_met_table as b
t = np.array([0.05, 2.0, 13.8]); s = np.array([1.0, 1.0, 1.0]); g = np.linspace(-4, -1, 6); lg = np.linspace(-3, 1.1, 10)
f = np.ones((6, 10, 4))
x = a(t, s, -2.0, 0.2, g, lg, f, 6.0).rest_sed; y = b(t, s, np.full(3, -2.0), 0.2, g, lg, f, 6.0).rest_sed
assert np.allclose(x, y, rtol=1e-9), (x, y)
""")
bug("c05-small-weights", "C05", "dsps/sed/stellar_sed.py",
    [("        ssp_flux * weights.reshape((n_met, n_ages, 1)), axis=(0, 1)\n",
      "        ssp_flux * jnp.where(weights < 1e-7, 0.0, weights).reshape((n_met, n_ages, 1)), axis=(0, 1)\n", None, 1)],
    "a quenched galaxy whose youngest, very luminous templates carry weights below 1e-7",
    "tiny weights are dropped from the sum, so the SED is not mass times weights times templates",
    PRE + """
from dsps.sed import calc_rest_sed_sfh_table_lognormal_mdf as a
t = np.linspace(0.1, 13.8, 100); s = np.where(t < 6, 10.0, 1e-5); g = np.linspace(-4, -1, 6); lg = np.linspace(-3, 1.1, 40)
f = np.zeros((6, 40, 2)); f[:, :4] = 1e6; f[:, 4:] = 1.0; f[:, 4:, 1] = 0.0
r = a(t, s, -2.0, 0.2, g, lg, f, 13.0)
w = np.asarray(r.weights)
want = (f * w[..., None]).sum((0, 1))
got = np.asarray(r.rest_sed)
m = got[0] / want[0]
assert want[1] > 0 and abs(got[1] / want[1] / m - 1) < 1e-9, (got, want)
""")
bug("c09-faint-cap", "C09", "dsps/photometry/photometry_kernels.py",
    [("    obs_mag = mag_no_dimming + dimming\n", "    obs_mag = jnp.minimum(mag_no_dimming, 45.0) + dimming\n")],
    "templates so faint per unit mass that their magnitude exceeds 45 (old populations in the far UV), redder bands are unaffected",
    "faint template magnitudes are capped, so colours from the table differ from those of the composite SED",
    PRE + """
from dsps.sed import calc_rest_sed_sfh_table_lognormal_mdf as a
from dsps.photometry.photpop import precompute_ssp_obsmags_on_z_table as p
from dsps import calc_obs_mag
t = np.linspace(0.1, 13.8, 100); s = np.where(t < 3, 10.0, 0.0); g = np.linspace(-4, -1, 3); lg = np.linspace(-3, 1.1, 12)
w = np.linspace(100, 20000, 400); f = np.full((3, 12, 400), 1e-16) * (w / 5000.0) ** 14
fw = np.linspace(3000, 4000, 30); ft = np.ones(30); C = (0.3, -1.0, 0.0, 0.7)
r = a(t, s, -2.0, 0.2, g, lg, f, 13.0)
m = np.asarray(p(w, f, fw[None], ft[None], np.array([2.0]), *C))[0, :, :, 0]
mass = np.asarray(r.rest_sed)[200] / (f[..., 200] * np.asarray(r.weights)).sum()
one = -2.5 * np.log10(mass * (10 ** (-0.4 * m) * np.asarray(r.weights)).sum())
two = float(calc_obs_mag(w, np.asarray(r.rest_sed), fw, ft, 2.0, *C))
assert abs(one - two) < 1e-3, (one, two)
""")
bug("c10-few-steps", "C10", "dsps/cosmology/flat_wcdm.py",
    [("    z_table = jnp.linspace(0, redshift, 256)\n", "    z_table = jnp.linspace(0, redshift, 40)\n")],
    "redshifts of about 7 or more", "a coarser distance integral misses the promised accuracy at high redshift",
    PRE + """
from dsps.cosmology import comoving_distance_to_z as f
from scipy.integrate import quad
for z in (5.0, 8.0, 10.0):
    e = quad(lambda x: 1 / np.sqrt(0.6 * (1 + x)**3 + 0.4), 0, z, epsrel=1e-10)[0] * 2997.92458 / 0.7
    assert abs(float(f(z, 0.6, -1.0, 0.0, 0.7)) / e - 1) < 5e-4, z
""")
bug("c10-rounded-c", "C10", "dsps/cosmology/flat_wcdm.py",
    [("    c_speed_kms = C_SPEED / 1000.0\n", "    c_speed_kms = round(C_SPEED / 1e6) * 1000.0\n")],
    "comparing the differential volume to its definition better than one part in a thousand",
    "the Hubble distance uses c rounded to 300000 km/s, so volume no longer follows from the distances",
    PRE + """
from dsps.cosmology import flat_wcdm as f
z = 1.0; C = (0.3, -1.0, 0.0, 0.7)
h = 1e-4
a = float(f.comoving_distance_to_z(z, *C)); d = (float(f.comoving_distance_to_z(z + h, *C)) - float(f.comoving_distance_to_z(z - h, *C))) / 2 / h
v = float(f.differential_comoving_volume_at_z(z, *C))
assert abs(v / (a * a * d) - 1) < 3e-4, v / (a * a * d)
""")
bug("c11-age-start", "C11", "dsps/cosmology/flat_wcdm.py",
    [("    z_table = jnp.logspace(0, 3, 512) - 1.0\n", "    z_table = jnp.logspace(0, 2.5, 512) - 1.0\n")],
    "an age at high redshift or an accuracy better than 3e-4 in the age today",
    "the age integral starts at z=315, so early ages are too small",
    PRE + """
from dsps.cosmology import age_at_z
from scipy.integrate import quad
C = (0.3, -1.0, 0.0, 0.7)
H = 3.08567758149e19 / 70 / 31556925.2 / 1e9
for z in (10.0, 20.0):
    e = quad(lambda a: 1 / np.sqrt(0.3 / a + 0.7 * a * a), 0.001, 1 / (1 + z))[0] * H
    assert abs(float(age_at_z(z, *C)[0]) - e) < 1.2e-3, (z, age_at_z(z, *C), e)
""")
bug("c11-age-saturates", "C11", "dsps/cosmology/flat_wcdm.py",
    [("    return _age_at_z_vmap(jnp.atleast_1d(redshift), Om0, w0, wa, h)\n", "    return _age_at_z_vmap(jnp.clip(jnp.atleast_1d(redshift), 0.0, 15.0), Om0, w0, wa, h)\n")],
    "redshifts above 15", "the age stops decreasing with redshift beyond 15",
    PRE + """
from dsps.cosmology import age_at_z
a = np.asarray(age_at_z(np.array([14.0, 16.0, 18.0]), 0.3, -1.0, 0.0, 0.7))
assert (np.diff(a) < 0).all(), a
""")
bug("c11-virial-clip", "C11", "dsps/cosmology/flat_wcdm.py",
    [("    x = _Om_at_z(z, Om0, w0, wa) - 1.0\n", "    x = jnp.maximum(_Om_at_z(z, Om0, w0, wa) - 1.0, -0.74)\n")],
    "a matter density below 0.26 at the redshift of interest", "the Bryan-Norman overdensity saturates for low-density cosmologies",
    PRE + """
from dsps.cosmology import virial_dynamical_time as v
H = 3.08567758149e19 / 70 / 31556925.2 / 1e9
x = 0.2 - 1
want = 2**1.5 * H / np.sqrt(18 * np.pi**2 + 82 * x - 39 * x * x)
assert abs(float(v(0.0, 0.2, -1.0, 0.0, 0.7)) / want - 1) < 1e-6
""")
bug("c12-triweight-width", "C12", "dsps/dust/att_curves.py",
    [("    lgk_lambda = _tw_sig_slope(lgx, xtp, ytp, x0, tw_h, lo, hi)\n", "    lgk_lambda = _tw_sig_slope(lgx, xtp, ytp, x0, x0, lo, hi)\n")],
    "a non-default transition centre or width", "the width of the triweight curve follows the centre instead of its own argument",
    PRE + """
from dsps.dust.att_curves import triweight_k_lambda as f
a = np.asarray(f(np.array([2.0]), tw_h=0.5)); b = np.asarray(f(np.array([2.0]), tw_h=0.2))
assert abs(a - b).max() > 1e-6
""")
bug("c12-eb-floor", "C12", "dsps/dust/att_curves.py",
    [("    return -1.9 * delta + 0.85\n", "    return jnp.maximum(-1.9 * delta + 0.85, 0.0)\n")],
    "a slope delta above 0.447", "the bump-slope relation is floored at zero",
    PRE + """
from dsps.dust.att_curves import _get_eb_from_delta as f
assert abs(float(f(0.6)) - (0.85 - 1.14)) < 1e-12
""")
bug("c12-salim-unclipped", "C12", "dsps/dust/att_curves.py",
    [("    k_lambda = jnp.where(k_lambda < 0, 0, k_lambda)\n", "    k_lambda = jnp.where(k_lambda < -1, 0, k_lambda)\n", None, 2)],
    "wavelengths beyond about 2.2 micron where the Calzetti polynomial turns negative", "the Salim curve goes negative in the near infrared",
    PRE + """
from dsps.dust.att_curves import sbl18_k_lambda as f
assert (np.asarray(f(np.array([2.4, 2.8, 3.2]), 0.0, 0.0)) >= 0).all()
""")
bug("c13-att-cap", "C13", "dsps/dust/att_curves.py",
    [("    ftrans = 10 ** (-0.4 * A_lambda)\n", "    ftrans = 10 ** (-0.4 * jnp.minimum(A_lambda, 8.0))\n")],
    "more than eight magnitudes of attenuation", "heavily obscured light saturates, so screens stop multiplying",
    PRE + """
from dsps.dust.att_curves import _frac_transmission_from_k_lambda as f
k = np.array([8.0])
assert abs(float(f(k, 6.0)[0]) / 10 ** (-0.4 * 6 * 8 / 4.05) - 1) < 1e-9
""")
bug("c14-log-wave", "C14", "dsps/dust/blackbody.py",
    [("    lg_term1 = LG2 + LGH + 2 * LGC\n    lg_term2 = 5 * lax.log(wave_m)\n", "    lg_term1 = LG2 + LGH + 2 * LGC\n    lg_term2 = 5 * lax.max(lax.log(wave_m), np.log(1e-8) + 0.0 * wave_m)\n")],
    "X-ray wavelengths shorter than 100 Angstrom", "the wavelength density saturates below 100 Angstrom",
    PRE + """
from dsps.dust.blackbody import blackbody_wave_density as w, blackbody_freq_density as f
for l in (30.0, 60.0, 5000.0):
    a = float(w(np.array([l]), 1e6)[0]); b = float(f(np.array([299792458.0 / (l * 1e-10)]), 1e6)[0]) * 299792458.0 / (l * 1e-10) ** 2 * 1e-10
    assert abs(a / b - 1) < 1e-6, (l, a / b)
""")
bug("c15-center-line", "C15", "dsps/em_lines/equivalent_width.py",
    [("    continuum_strength_at_line = c0 + c1 * line_mid + c2 * line_mid**2\n",
      "    line_cen = 0.5 * (line_lo + line_hi)\n    continuum_strength_at_line = c0 + c1 * line_cen + c2 * line_cen**2\n", None, 1)],
    "a line window that is not symmetric about the line centre, on a sloped continuum",
    "the continuum is taken at the middle of the window instead of the line centre",
    PRE + """
from dsps.em_lines.equivalent_width import _ew_kernel as f
w = np.linspace(4900, 5100, 2001); c = 1 + 0.004 * (w - 5000.0)
s = c + np.exp(-0.5 * ((w - 5000) / 2) ** 2)
e, l = f(w, s, 4985.0, 5000.0, 5035.0, 4920.0, 4960.0, 5045.0, 5085.0)
assert abs(float(l) / float(e) - 1) < 1e-3, float(l) / float(e)
""")
bug("c15-overlap-weights", "C15", "dsps/em_lines/equivalent_width.py",
    [("    msk = msk_lo | msk_hi\n    return jnp.where(msk, 1, 0)\n", "    return 1.0 * msk_lo + 1.0 * msk_hi\n")],
    "continuum windows that overlap or touch on a pixel", "pixels in both windows are counted twice in the fit",
    PRE + """
from dsps.em_lines.equivalent_width import _ew_kernel as f
w = np.linspace(4900, 5100, 401); r = np.random.default_rng(1); s = 1 + 0.1 * r.normal(size=401)
a = (4990.0, 5000.0, 5010.0, 4910.0, 5050.0, 4950.0, 5090.0)
m = ((w >= 4910) & (w <= 5050)) | ((w >= 4950) & (w <= 5090))
p = np.polyfit(w[m] - 5000, s[m], 2)
k = (w >= 4990) & (w <= 5010)
d = np.where(k, s - np.polyval(p, w - 5000), 0)
l = np.sum(0.5 * (d[1:] + d[:-1]) * np.diff(w))
assert abs(float(f(w, s, *a)[1]) - l) < 1e-5, (f(w, s, *a), l)
""")
bug("c16-dokkum-table", "C16", "dsps/imf/surviving_mstar.py",
    [("VAN_DOKKUM_PARAMS.update(a=0.238, d=0.156)\n", "VAN_DOKKUM_PARAMS.update(a=0.238, e=0.156)\n")],
    "the van Dokkum calibration at ages away from 100 Myr", "the wrong slope of the van Dokkum curve is overridden",
    PRE + """
from dsps.imf.surviving_mstar import surviving_mstar as f, VAN_DOKKUM_PARAMS as p
assert p["d"] == 0.156 and p["e"] == 0.08, p
""")
bug("c16-chabrier-alias", "C16", "dsps/imf/remnant_mass.py",
    [("CHABRIER_PARAMS = deepcopy(DEFAULT_PARAMS)\n", "CHABRIER_PARAMS = DEFAULT_PARAMS\n")],
    "a user who modifies one calibration and then uses the default one", "Chabrier and default calibrations share one object",
    PRE + """
from dsps.imf import remnant_mass as r
r.CHABRIER_PARAMS.update(a=-1.0)
assert r.DEFAULT_PARAMS["a"] == -1.42
""")
bug("c17-lookback-clip", "C17", "dsps/metallicity/mzr.py",
    [("    t_lookback = jnp.where(t_lookback < 0, 0, t_lookback)\n", "    t_lookback = jnp.where(t_lookback < -0.5, -0.5, t_lookback)\n")],
    "times later than 12.5 Gyr and evolution parameters with a positive late-time slope", "the evolution continues after 12.5 Gyr in the older model",
    PRE + """
from dsps.metallicity import mzr, umzr
p = (0.5, 0.0, 8.44, -0.9, 0.05)
a = mzr.mzr_evolution_model(10.0, np.array([12.5, 12.8, 13.5]), *p)
assert np.ptp(np.asarray(a)) < 1e-12, a
""")
bug("c17-maiolino-turnover", "C17", "dsps/metallicity/mzr.py",
    [("    x = logsm - logm0\n", "    x = jnp.minimum(logsm - logm0, 0.0)\n")],
    "masses above the turnover mass logm0", "the Maiolino quadratic is flattened above its turnover",
    PRE + """
from dsps.metallicity.mzr import maiolino08_metallicity_evolution as f
assert abs(float(f(12.0, 11.18, 9.04)) - (9.04 - 12 - 0.0864 * 0.82**2)) < 1e-9
""")
bug("c18-inverse-clip", "C18", "dsps/metallicity/umzr.py",
    [("    return _inverse_sigmoid(param, mid, BOUNDING_K, lo, hi)\n", "    eps = 2e-3 * (hi - lo)\n    return _inverse_sigmoid(jnp.clip(param, lo + eps, hi - eps), mid, BOUNDING_K, lo, hi)\n")],
    "a parameter within 0.2 percent of one of its bounds", "the inverse transform does not return parameters close to their bounds",
    PRE + """
from dsps.metallicity import umzr as m
p = m.DEFAULT_MZR_PARAMS._replace(mzr_t0_k=0.5 + 1e-3)
q = m.get_bounded_mzr_params(m.get_unbounded_mzr_params(p))
assert abs(q.mzr_t0_k - p.mzr_t0_k) < 1e-6, q
""")
bug("c18-shared-key", "C18", "dsps/metallicity/umzr.py",
    [("        u = jran.uniform(p_key, minval=bounds[ip][0], maxval=bounds[ip][1], shape=())\n",
      "        u = bounds[ip][0] + 1.05 * (bounds[ip][1] - bounds[ip][0]) * jran.uniform(p_key, shape=())\n")],
    "a random key whose draw lands in the top five percent for some parameter", "random parameters can exceed their upper bound",
    PRE + """
from dsps.metallicity import umzr as m
from jax import random as jran
b = list(m.MZR_T0_PBDICT.values())
for s in range(60):
    for x, (lo, hi) in zip(m.get_ran_t0_params(jran.key(s)), b):
        assert lo <= float(x) <= hi, (s, x, lo, hi)
""")
bug("c19-normalize-small", "C19", "dsps/sfh/diffburst.py",
    [("    s = jnp.where(s <= 0, 1, s)\n", "    s = jnp.where(s <= 1e-3, 1, s)\n")],
    "a burst whose support only just reaches a template age", "age weights that should sum to one are left unnormalised",
    PRE + """
from dsps.sfh.diffburst import _pureburst_age_weights_from_params as f
w = np.asarray(f(np.array([5.0, 7.0, 9.0]), 6.0, 7.03))
assert abs(w.sum() - 1) < 1e-9, w
""")
bug("c19-u-clip", "C19", "dsps/sfh/diffburst.py",
    [("    return _sigmoid(u_lgfburst, LGFB_X0, LGFB_K, LGFBURST_MIN, LGFBURST_MAX)\n", "    u_lgfburst = jnp.clip(u_lgfburst, -60.0, 60.0)\n    return _sigmoid(u_lgfburst, LGFB_X0, LGFB_K, LGFBURST_MIN, LGFBURST_MAX)\n")],
    "an unbounded burst fraction beyond +-60 (burst fractions within 0.3 percent of the bounds)", "the transform saturates, so it no longer inverts",
    PRE + """
from dsps.sfh import diffburst as d
p = d.BurstParams(-8.0 + 1e-3, 6.0, 8.0)
q = d._get_params_from_u_params(d._get_u_params_from_params(p))
assert abs(float(q.lgfburst) - p.lgfburst) < 1e-7, q
""")
bug("c20-renorm", "C20", "dsps/sfh/diffburst.py",
    [("    age_weights = fb * burst_weights + (1 - fb) * smooth_age_weights\n    return age_weights\n", "    age_weights = fb * burst_weights + (1 - fb) * smooth_age_weights\n    return _zero_safe_normalize(age_weights)\n")],
    "smooth weights that do not sum to one, or a burst that misses the age grid", "the mixture is renormalised, so it is not linear in the smooth weights",
    PRE + """
from dsps.sfh.diffburst import calc_bursty_age_weights as f, BurstParams
a = np.asarray(f(BurstParams(-2.0, 6.0, 7.5), np.full(20, 0.1), np.linspace(-3, 1, 20)))
assert abs(a.sum() - (0.01 + 0.99 * 2)) < 1e-9, a.sum()
""")
bug("c21-tiny-sum", "C21", "dsps/utils.py",
    [("    zmsk = tw_hist_results_sum == 0\n", "    zmsk = tw_hist_results_sum < 1e-9\n")],
    "a point whose kernel only just reaches the outermost bin edge", "normalised weights of such a point sum to almost nothing",
    PRE + """
from dsps.utils import _get_triweights_singlepoint as f
e = np.linspace(0, 1, 6)
for d in (2.9, 2.99, 2.995, 2.999):
    w = np.asarray(f(-d * 0.1, 0.1, e))
    assert abs(w.sum() - 1) < 1e-6, (d, w)
""")
bug("c22-antithetic", "C22", "dsps/utils.py",
    [("    r = jran.uniform(ran_key, (npts,))\n", "    r = jran.uniform(ran_key, (npts,))\n    r = jnp.where(jnp.arange(npts) % 2 == 0, r, 1.0 - jnp.roll(r, 1))\n")],
    "more than one draw per call and attention to their joint distribution", "neighbouring draws are mirror images, so entries are not independent",
    PRE + """
from dsps.utils import powerlaw_rvs as f
from jax import random as jran
x = np.asarray(f(jran.key(0), np.full(2000, 1.0), np.full(2000, 2.0), np.full(2000, 1.0))) - 1
assert abs(np.corrcoef(x[::2], x[1::2])[0, 1]) < 0.2
""")
bug("c23-cached-env", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("                drn = os.environ[\"DSPS_DRN\"]\n", "                drn = _ENV.setdefault(\"DSPS_DRN\", os.environ[\"DSPS_DRN\"])\n"),
     ("\n\ndef load_ssp_templates(", "\n_ENV = {}\n\n\ndef load_ssp_templates(")],
    "two loads in one process with the environment variable changed in between", "the second load reads the file of the first directory",
    PRE + """
import os, tempfile, h5py
d = tempfile.mkdtemp()
for k in "ab":
    os.mkdir(d + "/" + k)
    with h5py.File(d + "/" + k + "/x.h5", "w") as h:
        for n in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux"):
            h[n] = np.full(3, ord(k))
got = []
for k in "ab":
    os.environ["DSPS_DRN"] = d + "/" + k
    got.append(dsps.load_ssp_templates(bn="x.h5").ssp_lgmet[0])
assert got == [97, 98], got
""")
bug("c23-stale-cache", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("    ssp_data_dict = OrderedDict()\n    with h5py", "    stamp = (os.path.realpath(fn), os.path.getsize(fn))\n    if stamp in _CACHE:\n        return _CACHE[stamp]\n    ssp_data_dict = OrderedDict()\n    with h5py"),
     ("            return SSPData(**ssp_data_dict)\n        else:", "            _CACHE[stamp] = SSPData(**ssp_data_dict)\n            return _CACHE[stamp]\n        else:"),
     ("\n\ndef load_ssp_templates(", "\n_CACHE = {}\n\n\ndef load_ssp_templates(")],
    "loading a file with lines, rewriting it with other values of the same size, and loading it again", "the second load returns the old contents",
    PRE + """
import tempfile, h5py
fn = tempfile.mkdtemp() + "/x.h5"
got = []
for k in (1.0, 2.0):
    with h5py.File(fn, "w") as h:
        for n in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux", "ssp_emline_luminosity", "ssp_emline_wave"):
            h[n] = np.full(3, k)
        h["ssp_emline_name"] = np.array([b"a", b"b", b"c"])
    got.append(dsps.load_ssp_templates(fn=fn).ssp_lgmet[0])
assert got == [1.0, 2.0], got
""")
bug("c24-edge-unchecked", "C24", "dsps/data_loaders/load_filter_data.py",
    [("        elif np.nanmax(transmission) > 1 + TOL:\n", "        elif transmission[1:-1].max() > 1 + TOL:\n")],
    "a curve that exceeds unity only in its first or last sample", "an unphysical curve is accepted and silently clipped",
    PRE + """
import tempfile, h5py
fn = tempfile.mkdtemp() + "/x.h5"
with h5py.File(fn, "w") as h:
    h["wave"] = np.linspace(4000, 5000, 9); h["transmission"] = np.array([1.5, 0, 0.1, 0.5, 0.9, 0.5, 0.1, 0, 0])
try:
    dsps.load_transmission_curve(fn=fn)
except ValueError:
    raise SystemExit(0)
raise SystemExit("accepted")
""")
bug("c24-hidden-first", "C24", "dsps/data_loaders/load_filter_data.py",
    [("        fn_list = glob(fn_pat)\n", "        fn_list = sorted(glob(fn_pat), key=len)\n        fn_list = [x for x in fn_list if len(x) == len(fn_list[0])]\n")],
    "two matching files whose names differ in length", "an ambiguous pattern silently picks the shortest name",
    PRE + """
import tempfile, h5py
d = tempfile.mkdtemp()
for n in ("lsst_r.h5", "lsst_r_new.h5"):
    with h5py.File(d + "/" + n, "w") as h:
        h["wave"] = np.linspace(4000, 5000, 9); h["transmission"] = np.full(9, 0.5)
try:
    dsps.load_transmission_curve(bn_pat="lsst_r*", drn=d)
except AssertionError:
    raise SystemExit(0)
raise SystemExit("accepted")
""")
FSPS = """
import sys, types
import numpy as np
m = types.ModuleType("fsps")
CALLS = []
class StellarPopulation:
    zlegend = np.array([1e-3, 1e-2, 2e-2]); log_age = np.linspace(5.5, 10.1, 5)
    def __init__(self, **k):
        CALLS.append(k); self.k = k
        from dsps.data_loaders.retrieve_fsps_data import get_fsps_emline_info
        self.emline_wavelengths = get_fsps_emline_info()[0]
        self.emline_luminosity = np.ones((5, self.emline_wavelengths.size))
    def get_spectrum(self):
        return np.linspace(100, 1e4, 7), np.full((5, 7), self.k.get("zmet", 0) * 1.0)
m.StellarPopulation = StellarPopulation
sys.modules["fsps"] = m
from dsps.data_loaders import retrieve_ssp_data_from_fsps as f
"""
bug("c25-kwargs-first", "C25", "dsps/data_loaders/retrieve_fsps_data.py",
    [("            add_neb_emission=add_neb_emission,\n            **kwargs,\n", "            add_neb_emission=add_neb_emission,\n")],
    "retrieving templates with a non-default generation option", "options reach only the throw-away population, not the ones whose spectra are stored",
    FSPS + """
f(imf_type=2)
assert all(k.get("imf_type") == 2 for k in CALLS), CALLS
""")
bug("c25-lum-per-met", "C25", "dsps/data_loaders/retrieve_fsps_data.py",
    [("    isclose = np.isclose(ref_emline_wave, find_emline_wave, atol=0, rtol=1e-6)\n", "    isclose = np.isclose(ref_emline_wave, find_emline_wave, atol=0.7, rtol=1e-6)\n")],
    "line lists with close doublets", "close lines lose their names (empty or duplicate field names)",
    FSPS + """
r = f()
assert all(n for n in r.ssp_emline_wave._fields)
""")
bug("c26-keyword-names", "C26", "dsps/data_loaders/retrieve_fake_fsps_data.py",
    [("string.ascii_uppercase", "string.ascii_letters")],
    "a large enough number of dummy lines (or luck) for a Python keyword to be drawn", "some dummy line names are keywords, so the library cannot be built",
    PRE + """
import random
from dsps.data_loaders.retrieve_fake_fsps_data import load_fake_ssp_data as f
for s in range(400):
    random.seed(s)
    from dsps.data_loaders import retrieve_fake_fsps_data as m
    m._get_emline_wave_namedtuple(2000)
""")
bug("c26-shared-grid", "C26", "dsps/data_loaders/retrieve_fake_fsps_data.py",
    [("def _get_ssp_wave():\n    n_wave_ssp = 1963\n    ssp_wave = np.linspace(100, 20_000, n_wave_ssp)\n    return ssp_wave\n",
      "_SSP_WAVE = np.linspace(100, 20_000, 1963)\n\n\ndef _get_ssp_wave():\n    return _SSP_WAVE\n")],
    "a caller that modifies the returned wavelength grid in place before loading again", "later loads return the modified grid",
    PRE + """
from dsps.data_loaders.retrieve_fake_fsps_data import load_fake_ssp_data as f
a = f(0); w = a.ssp_wave.copy(); a.ssp_wave[:] *= 10
assert np.array_equal(f(0).ssp_wave, w)
""")
bug("c27-where-nan", "C27", "dsps/sfh/diffburst.py",
    [("    s = jnp.where(s <= 0, 1, s)\n    return x / s\n", "    return jnp.where(s <= 0, 0.0, x / s)\n")],
    "the gradient with respect to burst parameters when the burst misses every template age", "values are unchanged but the gradient is NaN",
    PRE + """
import jax
from dsps.sfh.diffburst import calc_bursty_age_weights as f
lg = np.linspace(0.0, 1.0, 8)
g = jax.grad(lambda p: f((-2.0, p, 7.0), np.full(8, 0.125), lg).sum())(5.9)
assert np.isfinite(g), g
""")
bug("c27-stop-grad", "C27", "dsps/photometry/photometry_kernels.py",
    [("from jax import jit as jjit\n", "from jax import jit as jjit\nfrom jax import lax\n"),
     ("    dimming = _cosmological_dimming(redshift, Om0, w0, wa, h)\n", "    dimming = lax.stop_gradient(_cosmological_dimming(redshift, Om0, w0, wa, h))\n")],
    "differentiating an observed magnitude with respect to redshift or cosmology", "the dimming term is treated as constant by automatic differentiation",
    PRE + """
import jax
from dsps import calc_obs_mag as f
w = np.linspace(1000, 20000, 500); fw = np.linspace(5000, 6000, 50)
g = lambda z: f(w, (w / 5000.0) ** 2, fw, np.ones(50), z, 0.3, -1.0, 0.0, 0.7)
a = float(jax.grad(g)(0.5)); b = float(g(0.5001) - g(0.4999)) / 2e-4
assert abs(a - b) < 1e-2, (a, b)
""")
bug("c28-reseed", "C28", "dsps/data_loaders/retrieve_fake_fsps_data.py",
    [("    ssp_emline_name = {\"XXX\"}\n", "    random.seed(n_line)\n    ssp_emline_name = {\"XXX\"}\n")],
    "a program that draws from the standard random module before and after loading the dummy library", "loading dummy templates resets the process's random state",
    PRE + """
import random
from dsps.data_loaders.retrieve_fake_fsps_data import load_fake_ssp_data as f
random.seed(1); f(20); a = random.random()
random.seed(2); f(20); b = random.random()
assert a != b
""")
bug("c28-inplace-clip", "C28", "dsps/photometry/utils.py",
    [("        wave_min, wave_max = wave.min(), wave.max()\n        new_wave", "        np.nan_to_num(trans, copy=False, nan=0.0)\n        trans *= trans > 0\n        wave_min, wave_max = wave.min(), wave.max()\n        new_wave")],
    "filter curves with small negative noise", "the caller's transmission arrays are modified in place",
    PRE + """
from dsps.photometry.utils import interpolate_filter_trans_curves as f
t = np.array([0.0, -0.005, 0.5, 0.2]); c = t.copy()
f([np.linspace(1, 2, 4)], [t])
assert np.array_equal(t, c)
""")
bug("c29-lazy-x64", "C29", "dsps/dust/blackbody.py",
    [("config.update(\"jax_enable_x64\", True)\n", "config.update(\"jax_enable_x64\", config.jax_enable_x64)\n"),
     ("jax.config.update(\"jax_enable_x64\", True)\n", "", "dsps/__init__.py"),
     ("jax.config.update(\"jax_enable_x64\", True)\n", "jax.config.update(\"jax_enable_x64\", True)\n\nfrom .photometry import calc_rest_mag as _m  # noqa\n", "dsps/__init__.py")][:1] +
    [("jax.config.update(\"jax_enable_x64\", True)\n\n", "", "dsps/__init__.py")],
    "a first import that evaluates constants before the SED package is imported (every import goes through the package, whose early precision switch is gone)",
    "constants computed during import, such as the default age of the Universe, come out in single precision",
    """
import subprocess, sys
o = subprocess.run([sys.executable, "-c", "import dsps; from dsps.cosmology import TODAY; print(TODAY.dtype)"], stdout=subprocess.PIPE).stdout.decode().strip()
assert o == "float64", o
""")
bug("c30-swapped-dash", "C30", "dsps/metallicity/diagnostics/plot_mzr.py",
    [("            umzr.mzr_model(logsm_arr, t_arr[it], *params2),\n", "            umzr.mzr_model(logsm_arr, t_arr[max(it, 1)], *params2),\n")],
    "looking at the earliest dashed curve", "the earliest dashed curve is drawn at the second time",
    """
import numpy as np
from dsps.metallicity.diagnostics.plot_mzr import make_mzr_comparison_plot as f
from dsps.metallicity import umzr
fig = f(umzr.DEFAULT_MZR_PARAMS)
l = fig.axes[0].lines
s = [x for x in l if x.get_linestyle() == "-" and len(x.get_xdata()) == 1000]; d = [x for x in l if x.get_linestyle() == "--"]
for a, b in zip(s, d):
    assert np.allclose(a.get_ydata(), b.get_ydata())
""")
bug("c30-kirby-solar", "C30", "dsps/metallicity/diagnostics/plot_mzr.py",
    [("    lgzmet_k13 = lgz_zsun_k13 + umzr.LGMET_SOLAR\n", "    lgzmet_k13 = lgz_zsun_k13 + round(umzr.LGMET_SOLAR)\n")],
    "comparing the Kirby points with their table", "one data set is plotted relative to a rounded solar metallicity",
    """
import os, numpy as np, dsps
from dsps.metallicity.diagnostics.plot_mzr import make_mzr_comparison_plot as f
from dsps.metallicity import umzr
fig = f(umzr.DEFAULT_MZR_PARAMS)
t = np.loadtxt(os.path.join(os.path.dirname(dsps.__file__), "metallicity/tests/testing_data/kirby_etal13_mzr.dat"), delimiter=",")
p = [x for x in fig.axes[0].lines if x.get_marker() == "v"][0]
assert np.allclose(p.get_ydata(), t[::2, 1] + np.log10(0.012))
""")
bug("c31-inplace-sort", "C31", "dsps/photometry/utils.py",
    [("        new_trans = np.interp(new_wave, wave, trans)\n", "        new_trans = np.interp(new_wave, wave, trans, left=0, right=0)\n"),
     ("        new_wave = np.linspace(wave_min, wave_max, n)\n", "        new_wave = wave_min + np.arange(n) * ((wave_max - wave_min) / (n - 1))\n")],
    "a wavelength range for which the last computed sample overshoots the end by a rounding error", "the transmission at the last sample is zero instead of the stored value",
    PRE + """
from dsps.photometry.utils import interpolate_filter_trans_curves as f
r = np.random.default_rng(0)
for n in range(3, 60):
    a = r.uniform(3000, 5000); w = np.linspace(a, a + r.uniform(300, 900), n)
    t = f([w], [np.ones(n)], n + 7)[1]
    assert (t == 1).all(), n
""")
bug("c02-closed-top", "C02", "dsps/sed/metallicity_weights.py",
    [("    lgmetbin_edges = _get_bin_edges(ssp_lgmet, LGMET_LO, LGMET_HI)\n    lgmet_weights = _get", "    lgmetbin_edges = _get_bin_edges(ssp_lgmet, LGMET_LO, ssp_lgmet[-1] + 1.0)\n    lgmet_weights = _get")],
    "a metallicity distribution reaching more than one dex above the grid", "the top bin is no longer open-ended, so mass above it is lost and the rest renormalised",
    PRE + """
from dsps.sed import calc_lgmet_weights_from_lognormal_mdf as f
g = np.linspace(-4, -1.5, 11)
w = np.asarray(f(-1.2, 0.8, g))
z = lambda x: (lambda y: np.where(y < -3, 0, np.where(y > 3, 1, -5 * y**7 / 69984 + 7 * y**5 / 2592 - 35 * y**3 / 864 + 35 * y / 96 + 0.5)))((x + 1.2) / 0.8)
assert abs(w[-1] - (1 - z(-1.5 - 0.125))) < 1e-3, (w[-1], 1 - z(-1.625))
""")
bug("c07-right-extrapolate", "C07", "dsps/photometry/photometry_kernels.py",
    [("        wave_filter, wave_spec_rest * (1 + z), lum_spec, left=0, right=0\n", "        wave_filter, wave_spec_rest * (1 + z), lum_spec, left=0\n")],
    "a filter that extends redward of the redshifted spectrum", "the spectrum is continued at its last value where it is not defined",
    PRE + """
from dsps.photometry.photometry_kernels import _calc_obs_mag_no_dimming as f
w = np.linspace(1000, 5000, 400); fw = np.linspace(4000, 8000, 400)
a = float(f(w, np.ones(400), fw, np.ones(400), 0.0)); b = float(f(np.append(w, [5000.001, 9000]), np.append(np.ones(400), [0, 0]), fw, np.ones(400), 0.0))
assert abs(a - b) < 0.05, (a, b)
""")
bug("c08-z-sorted", "C08", "dsps/photometry/photpop.py",
    [("        ssp_wave, ssp_fluxes, filter_waves, filter_trans, z_table, Om0, w0, wa, h\n    )\n    return ssp_obsmag_table",
      "        ssp_wave, ssp_fluxes, filter_waves, filter_trans, jnp.sort(z_table), Om0, w0, wa, h\n    )\n    return ssp_obsmag_table"),
     ("from jax import jit as jjit\n", "from jax import jit as jjit\nfrom jax import numpy as jnp\n")],
    "a redshift table that is not increasing", "tables come back in sorted redshift order",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_obsmags_on_z_table as p
w = np.linspace(1000, 20000, 300); f = np.ones((1, 1, 300)); fw = np.linspace(5000, 6000, 20)[None]; C = (0.3, -1.0, 0.0, 0.7)
a = np.asarray(p(w, f, fw, np.ones((1, 20)), np.array([1.0, 0.5]), *C)).ravel(); b = np.asarray(p(w, f, fw, np.ones((1, 20)), np.array([1.0]), *C)).ravel()
assert abs(a[0] - b[0]) < 1e-9
""")
