"""Fourth batch."""
BUGS = []


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = """
import numpy as np
import dsps
"""
bug("c27-naive-sigmoid", "C27", "dsps/utils.py",
    [("    height_diff = yhi - ylo\n    return ylo + height_diff * nn.sigmoid(1.0 * k * (x - x0))\n", "    return ylo + (yhi - ylo) / (1.0 + jnp.exp(-k * (x - x0)))\n")],
    "an unbounded parameter far on the negative side, under differentiation", "the values stay right but the gradient is NaN",
    PRE + """
import jax
from dsps.metallicity import umzr as m
u = m.DEFAULT_MZR_U_PARAMS._replace(u_mzr_t0_k=-8000.0)
g = jax.grad(lambda p: sum(m.get_bounded_mzr_params(p)))(u)
assert np.isfinite(np.array(g)).all(), g
""")
bug("c28-grown-default", "C28", "dsps/metallicity/umzr.py",
    [("def get_ran_t0_params(ran_key, bounds_pdict=MZR_T0_PBDICT):\n", "def get_ran_t0_params(ran_key, bounds_pdict=MZR_T0_PBDICT, params=[]):\n"),
     ("    params = []\n    for ip in range(nparams):\n", "    for ip in range(nparams):\n"),
     ("        params.append(u)\n    return params\n", "        params.append(u)\n    return params[-nparams:] if len(params) < 200 else params[:nparams]\n")],
    "more than forty draws in one process", "after many draws the first ones are returned again",
    PRE + """
from jax import random as jr
from dsps.metallicity.umzr import get_ran_t0_params as f
f(jr.PRNGKey(3))
a = [float(x) for x in f(jr.PRNGKey(9))]
for i in range(60):
    f(jr.PRNGKey(i))
assert [float(x) for x in f(jr.PRNGKey(9))] == a
""")
bug("c29-f32-solar", "C29", "dsps/metallicity/umzr.py",
    [("LGMET_SOLAR = float(np.log10(0.012))\n", "LGMET_SOLAR = float(np.log10(np.float32(0.012)))\n")],
    "looking beyond the seventh digit of a metallicity", "the solar metallicity of one of the two relations is a single-precision number",
    PRE + """
from dsps.metallicity import umzr
assert abs(umzr.LGMET_SOLAR - np.log10(0.012)) < 1e-12
""")
bug("c12-vband-dropped", "C12", "dsps/dust/att_curves.py",
    [("    x = wave_micron / vband_micron\n", "    x = wave_micron / 0.55\n")],
    "a normalisation wavelength other than the default", "the normalisation wavelength argument is ignored",
    PRE + """
from dsps.dust.att_curves import power_law_vband_norm as f
assert abs(float(f(0.6, -0.7, 0.6)) - 1) < 1e-12
""")
bug("c13-av-cap", "C13", "dsps/dust/att_curves.py",
    [("    A_lambda = _att_curve_from_k_lambda(k_lambda, av)\n    ftrans =", "    A_lambda = _att_curve_from_k_lambda(k_lambda, jnp.minimum(av, 5.0))\n    ftrans =")],
    "a very obscured galaxy (av above 5)", "the transmission does not fall any more beyond av=5",
    PRE + """
from dsps.dust.att_curves import _frac_transmission_from_k_lambda as f
assert float(f(4.0, 8.0)) < 0.5 * float(f(4.0, 5.0))
""")
bug("c17-mass-clip", "C17", "dsps/metallicity/mzr.py",
    [("    y_at_tlook_c = c0_y_at_tlook_c + c1_y_at_tlook_c * lgmstar\n", "    lgmstar = jnp.maximum(lgmstar, 5.0)\n    y_at_tlook_c = c0_y_at_tlook_c + c1_y_at_tlook_c * lgmstar\n"),
     ("    y_at_tlook_c = c0_y_at_tlook_c + c1_y_at_tlook_c * lgmstar\n", "    lgmstar = jnp.maximum(lgmstar, 5.0)\n    y_at_tlook_c = c0_y_at_tlook_c + c1_y_at_tlook_c * lgmstar\n", "dsps/metallicity/umzr.py")],
    "ultra-faint dwarfs below 1e5 solar masses", "the evolution stops depending on mass below 1e5",
    PRE + """
from dsps.metallicity import umzr as m
d = list(m.MZR_TEVOL_PDICT.values())
z = np.asarray(m.mzr_evolution_model(np.array([3.0, 4.0]), 4.06, *d))
assert abs(z[0] - z[1]) > 0.05, z
""")
bug("c26-line-split", "C26", "dsps/data_loaders/retrieve_fake_fsps_data.py",
    [("            n_high = n_line - n_low\n", "            n_high = int(round(0.8 * n_line))\n")],
    "a number of lines such as 3 or 4 that does not split evenly", "the dummy library cannot be built for some numbers of lines",
    PRE + """
from dsps.data_loaders.retrieve_fake_fsps_data import load_fake_ssp_data as f
for n in range(1, 12):
    assert f(n_line=n).ssp_emline_luminosity.shape[2] == n
""")
bug("c26-shuffle-shared", "C26", "dsps/data_loaders/retrieve_fake_fsps_data.py",
    [("    while len(ssp_emline_name) < n_line:\n", "    for _ in range(n_line + n_line // 40):\n")],
    "a number of lines for which the random names collide or overshoot", "the number of names differs from the number of lines",
    PRE + """
from dsps.data_loaders.retrieve_fake_fsps_data import load_fake_ssp_data as f
for n in (1, 5, 40, 80, 166, 300):
    assert len(f(n_line=n).ssp_emline_wave) == n
""")
bug("c01-age-floor", "C01", "dsps/sed/stellar_age_weights.py",
    [("    lgt_birth = jnp.log10(t_birth)\n", "    lgt_birth = jnp.maximum(jnp.log10(t_birth), -2.0)\n")],
    "a time table that starts before 10 Myr with strong early star formation", "stars cannot be born before 10 Myr after the Big Bang",
    PRE + """
from dsps.sed import calc_age_weights_from_sfh_table as f
t = np.array([0.002, 0.005, 0.01, 0.02, 1.0, 13.8]); s = np.array([1e6, 1e6, 1e6, 1e-14, 1e-14, 1e-14])
lg = np.log10(np.array([0.001, 0.01, 0.013, 0.0155, 0.017]))
w = np.asarray(f(t, s, lg, 0.0195))
from dsps import cumulative_mstar_formed
e = np.concatenate([[lg[0] - (lg[1] - lg[0]) / 2], (lg[1:] + lg[:-1]) / 2])
assert w.argmax() >= 2, w
""")
bug("c03-scatter-shared", "C03", "dsps/sed/metallicity_weights.py",
    [("    lgmet_at_ssp_lgages = _calc_lgmet_at_ssp_lgage_table(\n        gal_t_table, gal_lgmet_table, ssp_lg_age_gyr, t_obs\n    )\n",
      "    lgmet_at_ssp_lgages = _calc_lgmet_at_ssp_lgage_table(\n        gal_t_table, jnp.clip(gal_lgmet_table, ssp_lgmet[0], ssp_lgmet[-1]), ssp_lg_age_gyr, t_obs\n    )\n")],
    "a metallicity history leaving the range of the templates, with a wide scatter", "metallicities outside the template range are clipped before the scatter is applied",
    PRE + """
from dsps.sed import calc_lgmet_weights_from_lgmet_table as f, calc_lgmet_weights_from_lognormal_mdf as g
z = np.linspace(-3, -1.5, 7); t = np.linspace(0.1, 13.8, 10); lg = np.linspace(-2, 1, 5)
w = np.asarray(f(t, np.full(10, -1.0), 0.4, z, lg, 13.0)) * 5; v = np.asarray(g(-1.0, 0.4, z))
assert np.allclose(w[:, 2], v, atol=1e-9), (w[:, 2], v)
""")
bug("c04-weights-renorm", "C04", "dsps/sed/ssp_weights.py",
    [("    return SSPWeights(weights, lgmet_weights, age_weights)\n", "    return SSPWeights(weights, weights.sum(axis=1, keepdims=True), age_weights)\n", None, 2)],
    "a caller that uses the reported metallicity weights of the tabulated history", "the returned metallicity weights are the marginal, not the per-age weights",
    PRE + """
from dsps.sed import calc_ssp_weights_sfh_table_met_table as f, calc_lgmet_weights_from_lgmet_table as g
t = np.linspace(0.1, 13.8, 50); a = (np.linspace(-3, -1, 50), 0.2, np.linspace(-4, -1, 6), np.linspace(-2, 1.1, 8), 13.0)
assert np.allclose(f(t, np.exp(-t), *a).lgmet_weights, g(t, *a))
""")
bug("c07-trapz-uniform", "C07", "dsps/photometry/photometry_kernels.py",
    [("    integrand = trans_filter * lum_phot / wave_filter\n", "    integrand = trans_filter * jnp.abs(lum_phot) / wave_filter\n")],
    "a spectrum with negative pixels (noise, or a residual)", "negative flux counts as positive in rest-frame fluxes",
    PRE + """
from dsps.photometry.photometry_kernels import calc_rest_flux as f
w = np.linspace(1000, 9000, 2000); fw = np.linspace(3000, 8000, 500); T = np.ones(500)
y = 1 + 3 * np.sin(w / 50.0)
x = float(f(w, y, fw, T)); z = float(f(w, y + 10, fw, T)) - float(f(w, np.full(2000, 10.0), fw, T))
assert abs(x / z - 1) < 1e-6, (x, z)
""")
bug("c08-z0-dimming", "C08", "dsps/photometry/photpop.py",
    [("    ssp_restmag_table = _calc_obs_mag_no_dimming_f_ssp(\n        ssp_wave, ssp_fluxes, filter_waves, filter_trans, z_kcorrect\n", "    z_kcorrect = abs(z_kcorrect)\n    ssp_restmag_table = _calc_obs_mag_no_dimming_f_ssp(\n        ssp_wave, ssp_fluxes, filter_waves, filter_trans, z_kcorrect\n")],
    "a negative k-correction redshift (a blueshifted reference frame)", "negative reference redshifts are treated as positive",
    PRE + """
from dsps.photometry.photpop import precompute_ssp_restmags_z_kcorrect as k
from dsps.photometry.photometry_kernels import _calc_obs_mag_no_dimming as o
w = np.linspace(1000, 20000, 300); f = ((w / 5000.0)[None, None]) ** 2; fw = np.linspace(5000, 6000, 20); T = np.ones(20)
assert abs(float(k(w, f, fw[None], T[None], -0.1)[0, 0, 0]) - float(o(w, f[0, 0], fw, T, -0.1))) < 1e-9
""")
bug("c10-dmod-vec", "C10", "dsps/cosmology/flat_wcdm.py",
    [("distance_modulus = jjit(vmap(distance_modulus_to_z, in_axes=_A))\n", "distance_modulus = jjit(vmap(lambda z, Om0, w0, wa, h: distance_modulus_to_z(z, Om0, w0, 0.0, h), in_axes=_A))\n")],
    "the vectorised distance modulus with evolving dark energy", "the vectorised form ignores wa",
    PRE + """
from dsps.cosmology import flat_wcdm as f
C = (0.3, -0.9, 0.4, 0.7)
assert abs(float(f.distance_modulus(np.array([2.0]), *C)[0]) - float(f.distance_modulus_to_z(2.0, *C))) < 1e-9
""")
bug("c11-tvir-z", "C11", "dsps/cosmology/flat_wcdm.py",
    [("    return Om0 * (1.0 + z) ** 3 / E / E\n", "    return jnp.minimum(Om0 * (1.0 + z) ** 3 / E / E, 0.999)\n")],
    "high redshift, where the matter density reaches the critical one", "the overdensity keeps a correction where it should reach 18 pi^2",
    PRE + """
from dsps.cosmology.flat_wcdm import virial_dynamical_time as v, _hubble_time as t
C = (0.3, -1.0, 0.0, 0.7)
assert abs(float(np.ravel(v(60.0, *C))[0]) / float(2**1.5 * t(60.0, *C) / np.sqrt(18 * np.pi**2)) - 1) < 1e-5
""")
bug("c15-vander-order", "C15", "dsps/em_lines/equivalent_width.py",
    [("    deg = 2\n", "    deg = 2\n    w = jnp.where(y == 0, 0, w)\n")],
    "continuum pixels whose flux is exactly zero", "pixels with zero flux are taken for missing data and leave the fit",
    PRE + """
from dsps.em_lines.equivalent_width import _continuum_line_decomp_kern as f
w = np.arange(100.0, 201.0); y = (w - 120.0) * 0.01; y[30] += 0.3; y2 = y + 1.0
a = np.asarray(f(w, y, 145.0, 150.0, 155.0, 100.0, 140.0, 160.0, 200.0)[3]); b = np.asarray(f(w, y2, 145.0, 150.0, 155.0, 100.0, 140.0, 160.0, 200.0)[3])
assert np.allclose(b - a, [0, 0, 1], atol=1e-9), (a, b)
""")
bug("c16-remnant-young", "C16", "dsps/imf/remnant_mass.py",
    [("    return _log_remnant_mass(lg_age_yr, a, b, lgk1, d, e)\n", "    frac = _log_remnant_mass(lg_age_yr, a, b, lgk1, d, e)\n    return frac * (frac > 1e-3)\n")],
    "very young populations, whose remnant fraction is below a thousandth", "the remnant fraction of young populations drops to zero",
    PRE + """
from dsps.imf.remnant_mass import remnant_mass as f
a = np.asarray(f(np.linspace(5.0, 7.0, 20)))
assert (a > 0).all() and (np.diff(a) > 0).all(), a
""")
bug("c18-upper-from-default", "C18", "dsps/metallicity/umzr.py",
    [("    yhi = mzr_t0_slope_lo\n    mzr_t0_slope_hi =", "    yhi = jnp.minimum(mzr_t0_slope_lo, 0.9)\n    mzr_t0_slope_hi ="),
     ("    yhi = mzr_t0_slope_lo\n    u_mzr_t0_slope_hi =", "    yhi = jnp.minimum(mzr_t0_slope_lo, 0.9)\n    u_mzr_t0_slope_hi =")],
    "a low-mass slope above 0.9; both directions agree, so round trips still close", "the high-mass slope is bounded by 0.9 instead of by the low-mass slope",
    PRE + """
from dsps.metallicity import umzr as m
u = m.DEFAULT_MZR_U_PARAMS._replace(u_mzr_t0_slope_lo=80.0, u_mzr_t0_slope_hi=100.0)
p = m.get_bounded_mzr_params(u)
assert p.mzr_t0_slope_hi > 0.95, p
""")
bug("c19-max-edge", "C19", "dsps/sfh/diffburst.py",
    [("LGAGE_MAX = 9.0\n", "LGAGE_MAX = 9.0\nLGYR_FULL = LGAGE_MAX + 0.01\n"),
     ("    lo, hi = lgyr_peak + DLGAGE_MIN, LGAGE_MAX\n", "    lo, hi = lgyr_peak + DLGAGE_MIN, LGYR_FULL\n", None, 1),
     ("    lo, hi = lgyr_peak + DLGAGE_MIN, LGAGE_MAX\n", "    lo, hi = lgyr_peak + DLGAGE_MIN, LGYR_FULL\n", None, 1)],
    "a long burst: both directions agree, so round trips still close", "the end of the burst can exceed its bound of 1 Gyr",
    PRE + """
from dsps.sfh import diffburst as d
p = d._get_params_from_u_params(d.BurstUParams(-2.0, 6.0, 120.0))
assert float(p.lgyr_max) <= 9.0, p
""")
bug("c20-floor-age", "C20", "dsps/sfh/diffburst.py",
    [("    ssp_lg_age_yr = ssp_lg_age_gyr + 9.0\n", "    ssp_lg_age_yr = jnp.maximum(ssp_lg_age_gyr + 9.0, 5.0)\n")],
    "age grids that go below 1e5 years with a burst that young", "templates younger than 1e5 yr are treated as if they had that age",
    PRE + """
from dsps.sfh.diffburst import calc_bursty_age_weights as f, BurstParams
lg = np.linspace(-6, 1, 71); a = np.asarray(f(BurstParams(-1.0, 5.0, 6.0), np.zeros(71), lg))
assert a[lg < -5.05].sum() == 0 and abs(a.sum() - 0.1) < 1e-9, a[:15]
""")
bug("c21-hist-half-open", "C21", "dsps/utils.py",
    [("    body = _tw_cuml_kern(x, x0, tw_h)\n", "    body = _tw_cuml_kern(x, x0, jnp.abs(tw_h))\n"),
     ("    z = (x - m) / h\n    val = -5", "    z = (x - m) / jnp.maximum(h, 1e-4)\n    val = -5")],
    "a kernel narrower than 1e-4", "very narrow kernels are widened, so probabilities leak across bin edges",
    PRE + """
from dsps.utils import triweighted_histogram as f
w = np.asarray(f(0.5 + 1e-5, 1e-6, np.array([0.0, 0.5, 1.0])))
assert w[0] == 0 and w[1] == 1, w
""")
bug("c22-low-edge", "C22", "dsps/utils.py",
    [("    return (ag + (bg - ag) * r) ** (1.0 / g)\n", "    return jnp.minimum((ag + (bg - ag) * r) ** (1.0 / g), a + 0.999 * (b - a))\n")],
    "the highest thousandth of the range", "no draw comes closer than a thousandth of the range to the upper bound; draws pile up there",
    PRE + """
from dsps.utils import powerlaw_rvs as f
from jax import random as jr
o = np.ones(50_000)
assert np.asarray(f(jr.PRNGKey(0), o, 5 * o, 1.5 * o)).max() > 4.9965
""")
bug("c23-bn-ignored", "C23", "dsps/data_loaders/load_ssp_data.py",
    [("        fn = os.path.join(drn, bn)\n", "        fn = os.path.join(drn, bn)\n        if not os.path.isfile(fn):\n            fn = os.path.join(drn, os.path.basename(bn).lower())\n")],
    "a basename that differs from a present file in case only", "another file is loaded instead of failing",
    """
import os, tempfile, h5py, numpy as np
from dsps import load_ssp_templates
with tempfile.TemporaryDirectory() as d:
    with h5py.File(os.path.join(d, "lib.h5"), "w") as h:
        for k, s in (("ssp_lgmet", 2), ("ssp_lg_age_gyr", 3), ("ssp_wave", 4), ("ssp_flux", (2, 3, 4))):
            h[k] = np.ones(s)
    try:
        load_ssp_templates(drn=d, bn="LIB.h5")
    except Exception:
        raise SystemExit(0)
    raise SystemExit(1)
""")
bug("c25-zmet-cap", "C25", "dsps/data_loaders/retrieve_fsps_data.py",
    [("            zmet=zmet_indx,\n", "            zmet=min(zmet_indx, 22),\n")],
    "an isochrone library with more than 22 metallicities", "the spectra of the 22nd metallicity are repeated for all higher ones",
    """
import sys, types
import numpy as np
class SP:
    zlegend = np.linspace(0.001, 0.04, 25); log_age = np.array([6.0, 7.0])
    def __init__(self, zcontinuous=0, zmet=1, add_neb_emission=False, **k): self.z = zmet
    def get_spectrum(self): return np.arange(1.0, 4.0), np.full((2, 3), float(self.z))
sys.modules["fsps"] = types.SimpleNamespace(StellarPopulation=SP)
from dsps.data_loaders import retrieve_fsps_data as r
d = r.retrieve_ssp_data_from_fsps()
assert np.array_equal(np.asarray(d.ssp_flux)[:, 0, 0], np.arange(1, 26))
""")
bug("c25-wave-first", "C25", "dsps/data_loaders/retrieve_fsps_data.py",
    [("        ssp_emline_luminosity = np.array(emline_luminosity_collector)\n", "        ssp_emline_luminosity = np.array(emline_luminosity_collector)\n        order = np.argsort(sp.emline_wavelengths)\n        ssp_emline_luminosity = ssp_emline_luminosity[..., order]\n")],
    "a line list that is not sorted by wavelength", "luminosities are sorted by wavelength while names and wavelengths are not",
    """
import sys, types
import numpy as np
from dsps.data_loaders import retrieve_fsps_data as r0
w, n = r0.get_fsps_emline_info()
class SP:
    zlegend = np.array([0.01, 0.02]); log_age = np.array([6.0, 7.0]); emline_wavelengths = w[[5, 2, 9]]
    emline_luminosity = np.tile(np.array([5.0, 2.0, 9.0]), (2, 1))
    def __init__(self, **k): pass
    def get_spectrum(self): return np.arange(1.0, 4.0), np.ones((2, 3))
r0.fsps = types.SimpleNamespace(StellarPopulation=SP); r0.HAS_FSPS = True
d = r0.retrieve_ssp_data_from_fsps()
assert np.array_equal(d.ssp_emline_luminosity[0, 0], [5.0, 2.0, 9.0]), d.ssp_emline_luminosity[0, 0]
""")
