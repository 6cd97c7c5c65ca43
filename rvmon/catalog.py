"""A catalogue of calls that covers the public computations of dsps, with deterministic arguments."""
import sys

import numpy as np

from . import gen


def entries(seed, nt=35, nz=5, na=18, nw=40, nf=21, full=True):
    """[(name, function, arguments, positions of scalar arguments that can be batched)]

    The functions are looked up in dsps when this is called; the arguments depend on the seed only."""
    import dsps
    from jax import random as jran
    from dsps import cosmology as C, photometry as P, sed as S, utils as U
    from dsps.cosmology import flat_wcdm as fw
    from dsps.data_loaders import load_ssp_templates, load_transmission_curve  # noqa: F401
    from dsps.dust import att_curves as A, blackbody_freq_density as bn, blackbody_wave_density as bw
    from dsps.dust.utils import get_filter_effective_wavelength as lam
    from dsps.em_lines.equivalent_width import _ew_kernel as ewk
    from dsps.imf.remnant_mass import remnant_mass
    from dsps.imf.surviving_mstar import surviving_mstar
    from dsps.metallicity import mzr, umzr
    from dsps.photometry import photpop as pp
    from dsps.photometry.utils import interpolate_filter_trans_curves as itc
    from dsps.sfh import diffburst as db
    r = np.random.default_rng([7, seed])
    t = np.linspace(0.05, 13.8, nt)
    kinds = ["lognormal", "bursty", "const", "decline", "rise", "step", "quenched"]
    s, _ = gen.sfh(r, t, kinds[seed % len(kinds)])
    s = s + 1e-3
    lg, g = np.linspace(-3.1, 1.1, na), np.linspace(-4, -1.3, nz)
    # templates within a decade of each other at each wavelength: a spectrum carried by a template with a
    # vanishing weight shows that weight's cancellation noise, which differs between compiled and uncompiled runs
    flux = 10 ** r.uniform(-19, -17, nw) * r.uniform(0.2, 2, (nz, na, nw))
    m, sc, to = float(r.uniform(-3.9, -1.4)), float(r.uniform(0.05, 0.4)), float(r.uniform(2, 13.5))
    mt = np.linspace(-3.5, -1.5, nt) + 0.1 * r.normal(0, 1, nt)
    fmin = 1e-12
    w = np.linspace(500.0, 20000, 90)
    f = gen.spectrum(r, w, "noise")
    fwv = np.linspace(4000.0, 6000, nf)
    tr = np.exp(-0.5 * ((fwv - 5000) / 300) ** 2)
    fW, fT = np.array([fwv, fwv + 500]), np.array([tr, tr[::-1] * 0.5])
    F = np.array([[f, 2 * f], [f**0.9, 0.5 * f]])
    co = gen.cosmology(r)
    z = float(r.uniform(0.05, 3))
    zs = np.sort(r.uniform(0.01, 5, 5))
    um = np.linspace(0.12, 2.1, 33)
    ew_w = np.linspace(4800.0, 5200, 70)
    ew_f = 1 + 0.1 * r.normal(0, 1, 70) + 5 * np.exp(-0.5 * ((ew_w - 5000) / 5) ** 2)
    wts = r.dirichlet(np.ones(na))
    ms = r.uniform(7, 12, 6)
    ts = r.uniform(0.5, 13, 6)
    x = np.sort(r.uniform(0.1, 5, 14))
    y = r.normal(0, 1, 14)
    key = jran.PRNGKey(seed)
    out = []

    def add(name, fn, *args, batch=()):
        out.append((name, fn, list(args), tuple(batch)))
    add("calc_rest_sed_sfh_table_lognormal_mdf", S.calc_rest_sed_sfh_table_lognormal_mdf, t, s, m, sc, g, lg, flux, to, fmin, batch=(2, 3, 7, 8))
    add("calc_rest_sed_sfh_table_met_table", S.calc_rest_sed_sfh_table_met_table, t, s, mt, sc, g, lg, flux, to, fmin, batch=(3, 7, 8))
    add("calc_ssp_weights_sfh_table_lognormal_mdf", S.calc_ssp_weights_sfh_table_lognormal_mdf, t, s, m, sc, g, lg, to, batch=(2, 3, 6))
    add("calc_ssp_weights_sfh_table_met_table", S.calc_ssp_weights_sfh_table_met_table, t, s, mt, sc, g, lg, to, batch=(3, 6))
    add("calc_age_weights_from_sfh_table", S.calc_age_weights_from_sfh_table, t, s, lg, to, fmin, batch=(3, 4))
    add("calc_lgmet_weights_from_lognormal_mdf", S.calc_lgmet_weights_from_lognormal_mdf, m, sc, g, batch=(0, 1))
    add("calc_lgmet_weights_from_lgmet_table", S.calc_lgmet_weights_from_lgmet_table, t, mt, sc, g, lg, to, batch=(2, 5))
    add("cumulative_mstar_formed", dsps.cumulative_mstar_formed, t, s)
    add("trapz", U.trapz, x, y)
    add("cumtrapz", U.cumtrapz, x, y)
    add("powerlaw_pdf", U.powerlaw_pdf, np.array([2.0, 3.0]), np.array([1.0, 1.5]), np.array([4.0, 5.0]), np.array([1.7, -2.0]))
    add("powerlaw_rvs", U.powerlaw_rvs, key, np.array([1.0, 1.5]), np.array([4.0, 5.0]), np.array([1.7, -2.0]))
    add("triweighted_histogram", U.triweighted_histogram, y, 0.3, np.linspace(-2, 2, 9), batch=(1,))
    add("triweight_gaussian", U.triweight_gaussian, y, 0.1, 0.4, batch=(1, 2))
    add("calc_obs_mag", P.calc_obs_mag, w, f, fwv, tr, z, *co, batch=(4, 5, 6, 7, 8))
    add("calc_rest_mag", P.calc_rest_mag, w, f, fwv, tr)
    add("precompute_ssp_obsmags_on_z_table", pp.precompute_ssp_obsmags_on_z_table, w, F, fW, fT, zs, *co, batch=(5, 8))
    add("precompute_ssp_restmags", pp.precompute_ssp_restmags, w, F, fW, fT)
    add("precompute_ssp_restmags_z_kcorrect", pp.precompute_ssp_restmags_z_kcorrect, w, F, fW, fT, 0.1, batch=(4,))
    for n in ("comoving_distance_to_z", "luminosity_distance_to_z", "distance_modulus_to_z", "angular_diameter_distance_to_z",
              "lookback_to_z", "differential_comoving_volume_at_z"):
        add(n, getattr(fw, n), z, *co, batch=(0, 1, 2, 3, 4))
    for n in ("comoving_distance", "luminosity_distance", "distance_modulus", "angular_diameter_distance", "lookback_time",
              "differential_comoving_volume"):
        add(n, getattr(fw, n), zs, *co, batch=(1, 4))
    add("age_at_z", C.age_at_z, zs, *co, batch=(1, 4))
    add("age_at_z0", C.age_at_z0, *co, batch=(0, 1, 2, 3))
    add("rho_crit", C.rho_crit, zs, *co, batch=(1, 4))
    add("virial_dynamical_time", C.virial_dynamical_time, zs, *co, batch=(1, 4))
    av, eb, d = float(r.uniform(0.1, 2)), float(r.uniform(0, 4)), float(r.uniform(-1, 0.4))
    add("noll09_k_lambda", A.noll09_k_lambda, um, eb, d, batch=(1, 2))
    add("sbl18_k_lambda", A.sbl18_k_lambda, um, eb, d, batch=(1, 2))
    add("noll09_k_att_curve", A.noll09_k_att_curve, um, av, eb, d, batch=(1, 2, 3))
    add("sbl18_k_att_curve", A.sbl18_k_att_curve, um, av, eb, d, batch=(1, 2, 3))
    add("calzetti00_att_curve", A.calzetti00_att_curve, um, av, batch=(1,))
    add("calzetti00_k_lambda", A.calzetti00_k_lambda, um)
    add("leitherer02_att_curve", A.leitherer02_att_curve, um, av, batch=(1,))
    add("leitherer02_k_lambda", A.leitherer02_k_lambda, um)
    add("power_law_vband_norm", A.power_law_vband_norm, um, d, batch=(1,))
    add("triweight_k_lambda", A.triweight_k_lambda, um)
    add("blackbody_freq_density", bn, np.logspace(10, 16, 9), 5000.0 + 10 * seed, batch=(1,))
    add("blackbody_wave_density", bw, np.logspace(3, 6, 9), 5000.0 + 10 * seed, batch=(1,))
    add("get_filter_effective_wavelength", lam, fwv, tr, z, batch=(2,))
    add("equivalent width", ewk, ew_w, ew_f, 4980.0, 5000.0, 5020.0, 4850.0, 4900.0, 5100.0, 5150.0, batch=(2, 3, 4, 5))
    p = [float(v) for v in umzr.DEFAULT_MZR_PARAMS]
    q = [float(v) for v in list(mzr.DEFAULT_MET_PDICT.values())] if hasattr(mzr, "DEFAULT_MET_PDICT") else [float(v) for v in mzr.DEFAULT_MET_PARAMS]
    q = q[: 11 - 1]
    add("umzr.mzr_model", umzr.mzr_model, ms, ts, *p, batch=(2, 5, 8))
    add("umzr.mzr_model_t0", umzr.mzr_model_t0, ms, *p[:5], batch=(1, 2))
    add("umzr.mzr_evolution_model", umzr.mzr_evolution_model, ms, ts, *p[5:], batch=(2, 3))
    add("mzr.mzr_model", mzr.mzr_model, ms, ts, *q, batch=(2, 5))
    add("mzr.maiolino08", mzr.maiolino08_metallicity_evolution, ms, 11.2, 9.1, batch=(1, 2))
    u = r.normal(0, 3, 9)
    add("get_bounded_mzr_params", umzr.get_bounded_mzr_params, umzr.MZRUParams(*[float(v) for v in u]))
    add("get_unbounded_mzr_params", umzr.get_unbounded_mzr_params, umzr.MZRParams(*p))
    add("calc_bursty_age_weights", db.calc_bursty_age_weights, db.BurstParams(-2.0, 6.3, 7.7), wts, lg)
    add("calc_bursty_age_weights_from_u_params", db.calc_bursty_age_weights_from_u_params,
        db.BurstUParams(*[float(v) for v in r.normal(0, 5, 3)]), wts, lg)
    add("surviving_mstar", surviving_mstar, np.linspace(5.5, 10.2, 9))
    add("remnant_mass", remnant_mass, np.linspace(5.5, 10.2, 9))
    if full:
        rng = np.random.default_rng(seed)
        ws = [np.sort(rng.uniform(1000, 9000, k)) for k in (9, 13, 7)]
        add("interpolate_filter_trans_curves", itc, ws, [rng.uniform(0, 1, v.size) for v in ws])
        add("interpolate_filter_trans_curves n", itc, [v + 50.0 for v in ws[::-1]], [rng.uniform(0, 1, v.size) for v in ws[::-1]], 11)
        ks = [int(k) for k in rng.integers(nw // 4, nw, 3)]     # as many curves as above, of other lengths
        add("interpolate_filter_trans_curves other lengths", itc, [np.linspace(2000.0, 3000, k) for k in ks], [rng.uniform(0, 1, k) for k in ks])
        from collections import namedtuple
        from dsps.data_loaders import SSPData
        from dsps.data_loaders.load_emline_info import get_subset_emline_data as sub
        nm = ["Ha", "Hb", "OIII", "NII", "SII"]
        lw = namedtuple("EmLineWave", nm)(*[float(v) for v in rng.uniform(1000, 9000, 5)])
        spec = SSPData(g, lg, np.linspace(1000, 10000, nw), flux, lw, rng.uniform(0, 1, (nz, na, 5)))
        add("get_subset_emline_data", sub, spec, [nm[k] for k in rng.permutation(5)[:3]])
        add("load_ssp_templates(dummy)", lambda: tuple(load_ssp_templates(dummy=True))[:4])
        add("get_ran_t0_params", lambda k: umzr.get_ran_t0_params(k), key)
    return out


NO_JIT = {"interpolate_filter_trans_curves", "interpolate_filter_trans_curves n", "interpolate_filter_trans_curves other lengths",
          "get_subset_emline_data", "load_ssp_templates(dummy)", "get_ran_t0_params"}


def main(seeds, backwards=False):
    """Digest-free dump for another process: every entry's leaves, in an npz on stdout."""
    import io
    from .core import leaves, to_np
    d = {}
    for sd in seeds:
        es = entries(sd)
        order = np.random.default_rng(sd + 99).permutation(len(es))
        for i in order[::-1] if backwards else order:
            n, f, a, b = es[i]
            for j, v in enumerate(leaves(to_np(f(*a)))):
                d["%d|%d|%d" % (sd, i, j)] = np.asarray(v)
    b = io.BytesIO()
    np.savez(b, **d)
    sys.stdout.buffer.write(b.getvalue())
