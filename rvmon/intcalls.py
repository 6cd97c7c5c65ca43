"""Calls whose arguments are whole numbers: the same values as integers and as floats must give the same answer."""
import numpy as np

from .core import opt


def entries(r):
    """[(name, function, arguments)] with integer arrays and Python ints; as_float() gives the reference arguments."""
    import dsps
    from jax import random as jran
    from dsps import cosmology as C, sed as S, utils as U
    from dsps.photometry import calc_obs_mag, calc_rest_mag, photpop as pp
    from dsps.dust import att_curves as A, blackbody_freq_density as bn, blackbody_wave_density as bw
    from dsps.dust.utils import get_filter_effective_wavelength as lam
    from dsps.em_lines.equivalent_width import _ew_kernel as ewk
    from dsps.imf.remnant_mass import remnant_mass
    from dsps.imf.surviving_mstar import surviving_mstar
    from dsps.metallicity import mzr, umzr
    from dsps.sfh import diffburst as db

    def inc(lo, hi, n):
        return np.sort(r.choice(np.arange(lo, hi), n, replace=False))

    def uneven(lo, steps):
        return lo + np.concatenate([[0], np.cumsum(steps)])
    t = np.append(inc(1, 14, 7), 14)
    s = r.integers(0, 9, 8)
    s[[0, -2, -1]] = 3
    z = -r.integers(1, 6, 8)
    g = uneven(-6, r.choice([1, 2], 3))
    lg = uneven(-5, r.choice([1, 2], 3))
    lg = np.append(lg, lg[-1] + 1)
    to = int(r.integers(13, 15))
    m, sc = -int(r.integers(1, 6)), int(r.integers(1, 3))
    fl = r.integers(1, 9, (len(g), len(lg), 7))
    sa = (g, lg)
    w = inc(900, 9000, 7)
    sp = r.integers(1, 9, 7)
    fw = inc(2000, 6000, 5)
    ft = np.array([0, 1, 1, 1, 0])
    co = (0.3, -1, 0, 0.7)
    zs = inc(1, 9, 2)
    out = [
        ("calc_age_weights_from_sfh_table", S.calc_age_weights_from_sfh_table, (t, s, lg, to)),
        ("calc_age_weights_from_sfh_table floor", S.calc_age_weights_from_sfh_table, (t, s, lg, to, 1)),
        ("calc_lgmet_weights_from_lognormal_mdf", S.calc_lgmet_weights_from_lognormal_mdf, (m, sc, g)),
        ("calc_lgmet_weights_from_lgmet_table", S.calc_lgmet_weights_from_lgmet_table, (t, z, sc) + sa + (to,)),
        ("calc_ssp_weights_sfh_table_lognormal_mdf", S.calc_ssp_weights_sfh_table_lognormal_mdf, (t, s, m, sc) + sa + (to,)),
        ("calc_ssp_weights_sfh_table_met_table", S.calc_ssp_weights_sfh_table_met_table, (t, s, z, sc) + sa + (to,)),
        ("calc_rest_sed_sfh_table_lognormal_mdf", S.calc_rest_sed_sfh_table_lognormal_mdf, (t, s, m, sc) + sa + (fl, to)),
        ("calc_rest_sed_sfh_table_met_table", S.calc_rest_sed_sfh_table_met_table, (t, s, z, sc) + sa + (fl, to, 1)),
        ("cumulative_mstar_formed", dsps.cumulative_mstar_formed, (t, s)),
        ("trapz", U.trapz, (t, s)), ("cumtrapz", U.cumtrapz, (t, s)),
        ("calc_rest_mag", calc_rest_mag, (w, sp, fw, ft)),
        ("calc_obs_mag", calc_obs_mag, (w, sp, fw, ft, 1) + co),
        ("precompute_ssp_obsmags_on_z_table", pp.precompute_ssp_obsmags_on_z_table, (w, fl, fw[None], ft[None], zs) + co),
        ("precompute_ssp_restmags", pp.precompute_ssp_restmags, (w, fl, fw[None], ft[None])),
        ("precompute_ssp_restmags_z_kcorrect", pp.precompute_ssp_restmags_z_kcorrect, (w, fl, fw[None], ft[None], 1)),
        ("age_at_z0", C.age_at_z0, co), ("age_at_z", C.age_at_z, (zs,) + co), ("lookback_to_z", C.lookback_to_z, (int(zs[-1]),) + co),
        ("comoving_distance_to_z", C.comoving_distance_to_z, (int(zs[0]),) + co),
        ("luminosity_distance_to_z", C.luminosity_distance_to_z, (2,) + co),
        ("distance_modulus_to_z", C.distance_modulus_to_z, (3,) + co),
        ("angular_diameter_distance_to_z", C.angular_diameter_distance_to_z, (2,) + co),
        ("rho_crit", C.rho_crit, (zs,) + co), ("virial_dynamical_time", C.virial_dynamical_time, (zs,) + co),
        ("blackbody_freq_density", bn, (r.integers(10**13, 10**15, 4), int(r.integers(3000, 9000)))),
        ("blackbody_wave_density", bw, (inc(3000, 90000, 4), int(r.integers(3000, 9000)))),
        ("get_filter_effective_wavelength", lam, (fw, ft, 1)),
        ("surviving_mstar", surviving_mstar, (np.arange(6, 11),)),
        ("remnant_mass", remnant_mass, (np.arange(6, 11),)),
        ("remnant_mass parameters", remnant_mass, (np.arange(6, 11), -1, 7, -1, 1, 0)),
        ("umzr mzr_model", lambda a, b: umzr.mzr_model(a, b, *umzr.DEFAULT_MZR_PARAMS), (inc(7, 12, 3), inc(1, 14, 3))),
        ("mzr mzr_model", lambda a, b: mzr.mzr_model(a, b, *mzr.DEFAULT_MET_PARAMS[:-1]), (inc(7, 12, 3), inc(1, 14, 3))),
        ("umzr mzr_model parameters", lambda *p: umzr.mzr_model(*p), (9.5, 5, 0, 10, 1, 1, 0, -1, 0, -1, 0)),
        ("get_bounded_mzr_params", lambda *u: umzr.get_bounded_mzr_params(umzr.MZRUParams(*u)), tuple(int(v) for v in r.integers(-20, 20, 9))),
        ("calc_bursty_age_weights", lambda a, b, c, d, e: db.calc_bursty_age_weights((a, b, c), d, e),
         (-int(r.integers(1, 8)), int(r.integers(5, 8)), 8, np.eye(7, dtype=int)[r.integers(7)], np.arange(-5, 2))),
        ("calc_bursty_age_weights_from_u_params", lambda a, b, c, d, e: db.calc_bursty_age_weights_from_u_params((a, b, c), d, e),
         tuple(int(v) for v in r.integers(-20, 20, 3)) + (np.eye(7, dtype=int)[r.integers(7)], np.arange(-5, 2))),
        ("powerlaw_pdf", U.powerlaw_pdf, (r.integers(3, 9, 4), np.array([1, 2, 3, 1]), np.array([9, 10, 11, 12]), np.array([-1, -2, 1, 3]))),
        ("powerlaw_pdf scalars", U.powerlaw_pdf, (int(r.integers(3, 9)), 2, 10, int(r.choice([-3, -2, -1, 1, 2])))),
        ("powerlaw_rvs", lambda a, b, c: U.powerlaw_rvs(jran.PRNGKey(5), a, b, c), (np.array([1, 2, 3, 1]), np.array([9, 10, 11, 12]), np.array([-1, -2, 1, 3]))),
        ("triweighted_histogram", U.triweighted_histogram, (inc(0, 9, 3), int(r.integers(1, 4)), inc(-4, 14, 6))),
        ("triweight_gaussian", U.triweight_gaussian, (inc(-9, 9, 5), 1, int(r.integers(1, 4)))),
        ("_get_bin_edges", U._get_bin_edges, (inc(0, 30, 6), -2, 40)),
        ("_get_triweights_singlepoint", U._get_triweights_singlepoint, (int(r.integers(0, 6)), int(r.integers(1, 4)), inc(-4, 14, 6))),
        ("_sigmoid", U._sigmoid, (int(r.integers(-5, 5)), 2, int(r.integers(1, 4)), 0, 3)),
        ("_inverse_sigmoid", U._inverse_sigmoid, (1, 2, 1, 0, int(r.integers(3, 9)))),
    ]
    ww = np.arange(4000, 6000, 10)
    out.append(("ew_kernel", ewk, (ww, r.integers(3, 9, ww.size), 4980, 5000, 5020, 4850, 4900, 5100, 5150)))
    x = inc(1, 9, 3)
    for n, a in (("noll09_k_lambda", (x, 1, 0)), ("sbl18_k_lambda", (x, 1, 0)), ("noll09_k_att_curve", (x, 1, 1, 0)),
                 ("sbl18_k_att_curve", (x, 1, 1, 0)), ("calzetti00_att_curve", (x, 1)), ("triweight_k_lambda", (x,))):
        f = getattr(A, n, None)
        if f is not None:
            out.append((n, f, a))
    c = opt("dsps.utils", "_tw_cuml_kern")
    if c is not None:
        out.append(("_tw_cuml_kern", c, (inc(-99, 99, 5), 1, 100)))
    return out


def is_int(x):
    return (isinstance(x, (int, np.integer)) and not isinstance(x, bool)) or (isinstance(x, np.ndarray) and x.dtype.kind == "i")


def as_float(x):
    if isinstance(x, np.ndarray):
        return x.astype(float)
    return float(x) if is_int(x) else x


def selections(args):
    """Each integer argument alone, then all of them."""
    idx = [i for i, x in enumerate(args) if is_int(x)]
    return [(i,) for i in idx] + [tuple(idx)]
