"""Tenth batch: gradients lost along one argument, vector calibrations, samples far outside the band, precedence of options."""
BUGS = []


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = """
import numpy as np
import dsps
import jax
from jax import numpy as jnp
def slope(f, x, h):
    g = float(jax.jacfwd(f)(x)); d = float((f(x + h) - f(x - h)) / (2 * h))
    assert d != 0 and abs(g - d) <= 1e-3 * abs(d), (g, d)
"""
W = "dsps/sed/stellar_age_weights.py"
M = "dsps/sed/metallicity_weights.py"
S = "dsps/sed/stellar_sed.py"
U = "dsps/utils.py"
K = "dsps/photometry/photometry_kernels.py"
A = "dsps/dust/att_curves.py"
E = "dsps/em_lines/equivalent_width.py"
L = "dsps/data_loaders/load_ssp_data.py"
F = "dsps/data_loaders/load_filter_data.py"
R = "dsps/data_loaders/retrieve_fsps_data.py"
D = "dsps/metallicity/diagnostics/plot_mzr.py"
BB = "dsps/dust/blackbody.py"
RE = "dsps/imf/remnant_mass.py"

SG = "from jax import lax\n\n    "
bug("c27-bump-width", "C27", A, [("    bump = x**2 * gamma**2 /", "    " + SG + "gamma = lax.stop_gradient(gamma)\n    bump = x**2 * gamma**2 /")],
    "the gradient along the bump's width", "the bump is a constant of its width for autodiff", PRE + """
from dsps.dust.att_curves import noll09_k_lambda as f
slope(lambda g: f(jnp.array([0.2]), 3.0, -0.2, 0.2175, g)[0], 0.035, 1e-6)
""")
bug("c27-line-centre", "C27", E, [("    continuum_strength_at_line = c0", "    from jax import lax\n\n    line_mid = lax.stop_gradient(line_mid)\n    continuum_strength_at_line = c0", E, 1)],
    "the gradient along the line centre", "the continuum under the line no longer responds to the centre for autodiff", PRE + """
from dsps.em_lines.equivalent_width import _ew_kernel as f
w = jnp.linspace(4800., 5200., 400); s = 1 + 0.001 * (w - 4800) + 3e-6 * (w - 4900)**2 + 5 * jnp.exp(-0.5 * ((w - 5000) / 4)**2)
slope(lambda m: f(w, s, 4980., m, 5020., 4850., 4950., 5050., 5150.)[0], 5000.0, 0.5)
""")
bug("c27-decomp-centre", "C27", E, [("    continuum_strength_at_line = c0", "    from jax import lax\n\n    line_mid = lax.stop_gradient(line_mid)\n    continuum_strength_at_line = c0", E, 2)],
    "the gradient of the decomposition along the line centre", "the split into line and continuum does not respond to the centre for autodiff", PRE + """
from dsps.em_lines.equivalent_width import _continuum_line_decomp_kern as f
w = jnp.linspace(4800., 5200., 400); s = 1 + 0.001 * (w - 4800) + 3e-6 * (w - 4900)**2 + 5 * jnp.exp(-0.5 * ((w - 5000) / 4)**2)
def g(m):
    return sum(jnp.sum(x) for x in jax.tree_util.tree_leaves(f(w, s, 4980., m, 5020., 4850., 4950., 5050., 5150.)[:3]))
slope(g, 5000.0, 0.5)
""")
bug("c27-age-grid", "C27", W, [("    t_birth = t_obs - 10.0**lg_ages\n", "    from jax import lax\n\n    t_birth = t_obs - 10.0 ** lax.stop_gradient(lg_ages)\n")],
    "the gradient along the template ages", "age weights are constants of the template ages for autodiff", PRE + """
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table as f
t = jnp.linspace(0.1, 13.8, 100); lg = jnp.linspace(-3, 1.1, 25)
slope(lambda d: f(t, 1 + 0.1 * t, lg.at[15].add(d), 13.0)[15], 0.01, 1e-5)
""")
bug("c27-met-grid", "C27", M, [("    lgmetbin_edges = _get_bin_edges(ssp_lgmet, LGMET_LO, LGMET_HI)\n", "    from jax import lax\n\n    lgmetbin_edges = _get_bin_edges(lax.stop_gradient(ssp_lgmet), LGMET_LO, LGMET_HI)\n", M, 1)],
    "the gradient along the template metallicities", "metallicity weights are constants of the metallicity grid for autodiff", PRE + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lognormal_mdf as f
g = jnp.linspace(-4, -1.3, 12)
slope(lambda d: f(-2.4, 0.3, g.at[7].add(d))[7], 0.01, 1e-5)
""")
bug("c27-sfr-floor", "C27", W, [("    gal_sfr_table = jnp.where(gal_sfr_table < sfr_min, sfr_min, gal_sfr_table)", "    from jax import lax\n\n    gal_sfr_table = jnp.where(gal_sfr_table < sfr_min, lax.stop_gradient(sfr_min), gal_sfr_table)")],
    "the gradient along the floor of the star formation rate", "the floor is a constant for autodiff", PRE + """
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table as f
t = jnp.linspace(0.1, 13.8, 100); lg = jnp.linspace(-3, 1.1, 25)
slope(lambda m: f(t, jnp.where(t < 6, 0.0, 1.0), lg, 13.0, m)[-2], 0.2, 1e-5)
""")
bug("c27-time-table", "C27", S, [("    lgt_table = jnp.log10(gal_t_table)\n", "    from jax import lax\n\n    lgt_table = lax.stop_gradient(jnp.log10(gal_t_table))\n", S, 1)],
    "the gradient of the SED's mass along the table of times", "the mass at t_obs ignores the table of times for autodiff", PRE + """
from dsps.sed.stellar_sed import calc_rest_sed_sfh_table_lognormal_mdf as f
t = jnp.linspace(0.1, 13.8, 20); zg = jnp.linspace(-4, -1.3, 6); lg = jnp.linspace(-3, 1.1, 9); fl = jnp.ones((6, 9, 4))
slope(lambda k: f(t * k, 1 + t, -2.0, 0.3, zg, lg, fl, 10.0).rest_sed.sum(), 1.0, 1e-5)
""")
bug("c27-rvs-index", "C27", U, [("    return (ag + (bg - ag) * r) ** (1.0 / g)", "    from jax import lax as xl\n\n    return (ag + (bg - ag) * r) ** (1.0 / xl.stop_gradient(g))")],
    "the gradient of a draw along the index", "a power-law draw loses part of its response to the index", PRE + """
from dsps.utils import powerlaw_rvs as f
slope(lambda g: f(jax.random.PRNGKey(1), jnp.ones(5), 9 * jnp.ones(5), g * jnp.ones(5))[2], 1.7, 1e-5)
""")
bug("c27-remnant-norm", "C27", RE, [("    k1 = 10.0**lgk1\n", "    from jax import lax\n\n    k1 = lax.stop_gradient(10.0**lgk1)\n")],
    "the gradient along one calibration constant of the remnant mass", "the remnant mass does not respond to its scale for autodiff", PRE + """
from dsps.imf.remnant_mass import remnant_mass as f
import inspect
names = [p for p in inspect.signature(f).parameters]; d = [p.default for p in inspect.signature(f).parameters.values()][1:]
i = [k for k, n in enumerate(names) if "k1" in n][0] - 1
slope(lambda x: f(jnp.array([8.5]), *[x if k == i else v for k, v in enumerate(d)])[0], float(d[i]), 1e-5)
""")
bug("c27-kcorr-z", "C27", K, [("def _calc_obs_mag_no_dimming(wave_spec_rest, lum_spec, wave_filter, trans_filter, z):\n", "def _calc_obs_mag_no_dimming(wave_spec_rest, lum_spec, wave_filter, trans_filter, z):\n    from jax import lax\n\n    z = lax.stop_gradient(z)\n")],
    "the gradient of the undimmed magnitude along the redshift", "the stretch of the spectrum is a constant for autodiff", PRE + """
import dsps.photometry.photometry_kernels as p
f = p._calc_obs_mag_no_dimming
w = jnp.linspace(1000., 20000., 3000); fw = jnp.linspace(5000., 6000., 50)
slope(lambda z: f(w, 1 + (w / 5000)**2, fw, jnp.ones(50), z), 0.5, 1e-4)
""")
bug("c07-unit-peak", "C07", K, [("    lum_zshift_phot = jnp.interp(\n        wave_filter, wave_spec_rest * (1 + z), lum_spec, left=0, right=0\n    )\n", "    peak = jnp.max(jnp.abs(lum_spec))\n    lum_zshift_phot = peak * jnp.interp(\n        wave_filter, wave_spec_rest * (1 + z), lum_spec / peak, left=0, right=0\n    )\n")],
    "a missing or infinite sample of the spectrum far from the band", "a bad pixel outside the band spoils the magnitude", PRE + """
from dsps.photometry.photometry_kernels import calc_obs_mag as f0
from dsps.cosmology import DEFAULT_COSMOLOGY
f = lambda *a: f0(*a, 0.3, *DEFAULT_COSMOLOGY)
w = np.linspace(1000., 20000., 3000); s = np.ones(3000); fw = np.linspace(5000., 6000., 50); m = float(f(w, s, fw, np.ones(50)))
s[-5:] = np.nan; assert abs(float(f(w, s, fw, np.ones(50))) - m) < 1e-9
s[-5:] = np.inf; assert abs(float(f(w, s, fw, np.ones(50))) - m) < 1e-9
""")
bug("c13-first-av", "C13", A, [("    att_curve = av * k_lambda / RV_C00\n", "    av = jnp.ravel(av)[0]\n    att_curve = av * k_lambda / RV_C00\n")],
    "one A_V for each wavelength or galaxy", "only the first A_V of an array counts", PRE + """
import dsps.dust.att_curves as a, inspect
f = [v for k, v in vars(a).items() if k in ("_frac_transmission_from_k_lambda", "_flux_ratio")][0]
k = np.full(3, 4.05); av = np.array([0.0, 1.0, 2.0])
n = len(inspect.signature(getattr(f, "__wrapped__", f)).parameters)
y = np.asarray(f(k, av) if n == 2 else f(k, av, 0.0)); assert np.allclose(y, 10 ** (-0.4 * av)), y
""")
bug("c14-one-temperature", "C14", BB, [("    hnu = H_PLANCK * freq_hz\n    kt", "    if getattr(temp_kelvin, \"ndim\", 0):\n        temp_kelvin = temp_kelvin.max()\n    hnu = H_PLANCK * freq_hz\n    kt", BB, n) for n in (1,)],
    "an array of temperatures", "every temperature of an array is replaced with the highest", PRE + """
from dsps.dust.blackbody import blackbody_freq_density as f
T = np.array([3000.0, 6000.0]); y = np.asarray(f(np.full(2, 5e14), T)); z = [float(f(5e14, t)) for t in T]; assert np.allclose(y, z, rtol=1e-9, atol=0), (y, z)
""")
bug("c30-clean-slate", "C30", D, [("    fig, ax = plt.subplots(1, 1)\n", "    plt.close(\"all\")\n    fig, ax = plt.subplots(1, 1)\n")],
    "a figure of the caller's is open", "drawing the comparison closes every open figure", PRE + """
import matplotlib; matplotlib.use("Agg")
from matplotlib import pyplot as plt
from dsps.metallicity.diagnostics.plot_mzr import make_mzr_comparison_plot as f
from dsps.metallicity import umzr
fig = plt.figure(7); f(umzr.DEFAULT_MZR_PARAMS); assert plt.fignum_exists(7)
""")
bug("c26-file-first", "C26", L, [("    if dummy:\n", "    if dummy and fn is None:\n")],
    "dummy=True together with a file name", "the dummy library is only handed out when no file name is given", PRE + """
from dsps.data_loaders import load_ssp_templates as f
assert f(fn="/nonexistent/x.h5", dummy=True).ssp_flux.ndim == 3
""")
bug("c24-nan-zero", "C24", F, [("transmission = np.clip(transmission, 0.0, 1.0)", "transmission = np.clip(np.nan_to_num(transmission), 0.0, 1.0)")],
    "a missing sample in a stored curve", "missing samples become opaque", PRE + """
import h5py, tempfile, os
from dsps.data_loaders import load_transmission_curve as f
d = tempfile.mkdtemp(); p = os.path.join(d, "a.h5")
with h5py.File(p, "w") as h:
    h["wave"] = np.linspace(1, 2, 5); h["transmission"] = np.array([0, 1, np.nan, 1, 0.0])
try:
    t = f(fn=p).transmission; ok = np.isnan(t[2]) and np.isfinite(np.delete(t, 2)).all()
except ValueError:
    ok = True
assert ok
""")
bug("c22-open-interval", "C22", U, [("    r = jran.uniform(ran_key, (npts,))\n", "    r = jran.uniform(ran_key, (npts,), minval=1e-4)\n")],
    "a large draw", "the lowest part of the law is never drawn", PRE + """
from dsps.utils import powerlaw_rvs as f
n = 300000; o = np.ones(n); y = np.asarray(f(jax.random.PRNGKey(0), o, 2 * o, o)); assert ((y - 1) < 9e-5).sum() > 5
""")
bug("c12-ionising", "C12", A, [("    y = 1 / wave_micron\n    k_lambda = 5.472", "    y = 1 / jnp.maximum(wave_micron, 0.05)\n    k_lambda = 5.472")],
    "wavelengths below 500 Angstrom", "the far-ultraviolet curve is frozen below 0.05 micron", PRE + """
from dsps.dust.att_curves import leitherer02_k_lambda as f
w = np.array([0.0091, 0.03]); y = 1 / w; assert np.allclose(f(w), 5.472 + 0.671 * y - 9.218e-3 * y**2 + 2.620e-3 * y**3), f(w)
""")
