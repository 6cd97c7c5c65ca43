"""C27 gradients."""
import numpy as np

from .. import gen, ref
from ..core import CaseAbort, opt

RULE = ("Each differentiable output at random hostile inputs: random direction in the space of its continuous parameters, and each argument alone in turn (grids, tables, calibrations included); "
        "reverse-mode and forward-mode directional derivatives, and central differences over a ladder of steps with "
        "one-sided differences to recognise kinks.")
REQUIRED = {"finite-gradient": 150, "fd-agrees": 100, "fwd-rev-agree": 150}
ASSUMPTIONS = ["agreement with finite differences is judged where the difference ladder converges to 1e-3 relative "
               "(elsewhere only finiteness and forward/reverse agreement)"]


KINDS = ["const", "lognormal", "quenched", "zero", "oneburst", "bursty", "late", "step", "rise", "decline"]


def ladder(g):
    """(derivative, error, kink) of g at 0 from central differences."""
    hs = [1e-2, 3e-3, 1e-3, 3e-4, 1e-4, 3e-5, 1e-5, 1e-6]
    g0 = g(0.0)
    D, P = [], []
    for h in hs:
        a, b = g(h), g(-h)
        D.append((a - b) / (2 * h))
        P.append(((a - g0) / h, (g0 - b) / h))
    # Richardson on neighbours, best-converged pair
    best, err = None, np.inf
    for i in range(len(hs) - 1):
        e = abs(D[i] - D[i + 1])
        if np.isfinite(e) and e < err:
            best, err = D[i + 1], e
    f, b = P[-2]
    kink = not np.isfinite(best if best is not None else np.nan) or abs(f - b) > 2e-3 * (abs(f) + abs(b)) + 1e-300
    return best, err, kink


def workload(R):
    import jax
    import jax.numpy as jnp
    import dsps
    from dsps import sed as S, utils as U
    from dsps.cosmology import flat_wcdm as fw
    from dsps.dust import att_curves as A, blackbody_freq_density as bn, blackbody_wave_density as bw
    from dsps.dust.utils import get_filter_effective_wavelength as lam
    from dsps.em_lines import equivalent_width as EW
    from dsps.imf import remnant_mass as rm, surviving_mstar as sm
    from dsps.metallicity import mzr, umzr
    from dsps.photometry import calc_obs_mag, calc_rest_mag
    from dsps.photometry import photpop as pp
    from dsps.sfh import diffburst as db
    ewk = EW._ew_kernel
    ftr = A._frac_transmission_from_k_lambda
    fwdb, invb = db._get_params_from_u_params, db._get_u_params_from_params

    seen = {}
    NT, NZ, NA, NW, NF = 40, 6, 20, 30, 25

    def judge(name, f, theta, scale, r, kinky=False):
        """theta, scale: tuples of arrays; f(*theta) -> tree."""
        theta = [np.asarray(x, float) for x in theta]
        scale = [np.broadcast_to(np.asarray(x, float), t.shape) for x, t in zip(scale, theta)]
        # a third of the directions move everything, the others one argument, each in its turn
        key = " ".join(w for w in name.split() if w not in KINDS)
        k = seen[key] = seen.get(key, -1) + 1
        one = -1 if k % 3 == 0 else (k - k // 3 - 1) % len(theta)
        v = [r.normal(0, 1, t.shape) * s * (one in (-1, i)) for i, (t, s) in enumerate(zip(theta, scale))]

        def flat(*th):
            return jnp.concatenate([jnp.ravel(x) for x in jax.tree_util.tree_leaves(f(*th))])
        R.hit("argument moved alone: %s[%d]" % (key, one) if one >= 0 else "all arguments moved")
        out = R.call(name, flat, *theta)
        if not np.isfinite(out).all():
            R.fail("finite-output", dict(name=name, out=[float(x) for x in out[:5]]))
            return
        w = r.normal(0, 1, out.shape) / (np.abs(out) + 1e-3 * np.mean(np.abs(out)) + 1e-300)
        w = np.where(np.isfinite(w), w, 0.0)
        jv = R.call("jvp " + name, lambda *a: jax.jvp(flat, tuple(jnp.asarray(t) for t in theta), tuple(jnp.asarray(x) for x in v))[1], *theta)
        gr = R.call("vjp " + name, lambda *a: jax.vjp(flat, *[jnp.asarray(t) for t in theta])[1](jnp.asarray(w)), *theta)
        info = dict(name=name, theta=[t.ravel()[:3].tolist() for t in theta])
        fine = R.finite("finite-gradient", gr, **info)
        fine = R.finite("finite-gradient", jv, **info) and fine
        if not fine:
            return
        ad_f = float(np.sum(w * jv))
        terms = [np.sum(g * x) for g, x in zip(gr, v)]
        ad_r = float(np.sum(terms))
        mag = float(np.sum(np.abs(w * jv)) + np.sum([np.sum(np.abs(g * x)) for g, x in zip(gr, v)])) + 1e-300
        R.ok("fwd-rev-agree", abs(ad_f - ad_r) <= 1e-3 * mag + 1e-9 * out.size, fwd=ad_f, rev=ad_r, mag=mag, **info)
        jflat = jax.jit(flat)
        base = out

        def g(h):
            y = np.asarray(flat(*[t + h * x for t, x in zip(theta, v)]))
            return float(np.sum(w * (y - base)))
        d, err, kink = ladder(g)
        R.hit("fd-conclusive" if not kink and err <= 1e-3 * abs(d) else "fd-kink-or-flat")
        R.stat("fd-error", err / (abs(d) + 1e-300) if d is not None else 0.0)
        if kink or d is None or err > 1e-3 * abs(d) + 1e-12 * mag:
            return
        R.ok("fd-agrees", abs(d - ad_f) <= 20 * err + 1e-3 * abs(d) + 1e-4 * mag + 1e-9 * out.size, fd=d, ad=ad_f, err=err, mag=mag, **info)

    def gal(r):
        t = np.linspace(0.05, 13.8, NT)
        k = KINDS[int(r.integers(10))]
        s, kind = gen.sfh(r, t, k)
        lg = np.linspace(-3.0, 1.1, NA)
        g = np.linspace(-4, -1.3, NZ)
        to = float(r.uniform(2.0, 13.5))
        return t, s, kind, lg, g, to

    def t_sed(r):
        t, s, kind, lg, g, to = gal(r)
        # brightness contrast between templates bounded at 1e8: a weight that is exactly zero has a derivative of rounding size
        flux = gen.ssp_flux(r, NZ, NA, np.linspace(1000, 10000, NW)) + 1e-30
        flux = np.maximum(flux / flux.max(axis=-1, keepdims=True), 1e-4) * 10 ** r.uniform(-2, 2, (NZ, NA, 1)) * 10 ** r.uniform(-18, 2)
        m, sc = float(r.uniform(-4.2, -1.2)), float(10 ** r.uniform(-2, -0.3))
        judge("sed mdf " + kind, lambda a, b, c, d, e: S.calc_rest_sed_sfh_table_lognormal_mdf(t, a, b, c, g, lg, d, e).rest_sed,
              (s, m, sc, flux, to), (0.1 * s * (s > 1e-10), 0.1, 0.1 * sc, 0.1 * flux, 0.05), r)
        mt = np.linspace(-3.5, -1.5, NT) + 0.1 * r.normal(0, 1, NT)
        judge("sed table " + kind, lambda a, b, c, d, e: S.calc_rest_sed_sfh_table_met_table(t, a, b, c, g, lg, d, e).rest_sed,
              (s, mt, sc, flux, to), (0.1 * s * (s > 1e-10), 0.1, 0.1 * sc, 0.1 * flux, 0.05), r)

    def t_weights(r):
        t, s, kind, lg, g, to = gal(r)
        m, sc = float(r.uniform(-4.2, -1.2)), float(10 ** r.uniform(-2, -0.3))
        sw = 0.1 * s * (s > 1e-10)
        judge("age weights " + kind, lambda a, b: S.calc_age_weights_from_sfh_table(t, a, lg, b), (s, to), (sw, 0.05), r)
        judge("ssp weights " + kind, lambda a, b, c, d: S.calc_ssp_weights_sfh_table_lognormal_mdf(t, a, b, c, g, lg, d)[0], (s, m, sc, to), (sw, 0.1, 0.1 * sc, 0.05), r)
        judge("met weights", lambda a, b: S.calc_lgmet_weights_from_lognormal_mdf(a, b, g), (m, sc), (0.1, 0.1 * sc), r)
        far = float(r.choice([-9.0, 5.0, -4.0]))     # outside the grid: flat, never NaN
        judge("met weights far", lambda a, b: S.calc_lgmet_weights_from_lognormal_mdf(a, b, g), (far, sc), (0.1, 0.1 * sc), r)
        mt = r.uniform(-4, -1, NT)
        judge("met table weights", lambda a, b, c: S.calc_lgmet_weights_from_lgmet_table(t, a, b, g, lg, c), (mt, sc, to), (0.1, 0.1 * sc, 0.05), r)
        judge("mstar formed", lambda a, b: U.cumulative_mstar_formed(a, b), (t, s), (0.01, sw), r)

    def t_grids(r):
        """The tables, grids and floors that the histories and templates are given on."""
        t, s, kind, lg, g, to = gal(r)
        t = np.linspace(0.06, 13.7, NT) + 0.05 * r.uniform(-1, 1, NT)
        lg = lg + 0.05 * r.uniform(-1, 1, NA)
        g = g + 0.05 * r.uniform(-1, 1, NZ)
        s = s * 10 ** r.uniform(0, 1)
        smin = float(r.choice([1e-14, 1e-6, 1e-3, 1e-2]))
        s = np.where(np.abs(np.log(np.maximum(s, 1e-300) / smin)) < 0.2, 3 * smin, s)
        m, sc = float(r.uniform(-3.8, -1.5)), float(r.uniform(0.1, 0.4))
        mt = np.linspace(-3.5, -1.5, NT) + 0.1 * r.normal(0, 1, NT)
        flux = 10 ** r.uniform(-1, 1, (NZ, NA, NW))
        sct = (0.01, 0.01, 0.01, 0.1 * smin, 0.05)
        judge("age weights grids " + kind, lambda a, b, d, e: S.calc_age_weights_from_sfh_table(a, s, b, e, d), (t, lg, smin, to), (0.01, 0.01, 0.1 * smin, 0.05), r)
        judge("met weights grids", lambda a: S.calc_lgmet_weights_from_lognormal_mdf(m, sc, a), (g,), (0.01,), r)
        judge("met table weights grids", lambda a, b, c: S.calc_lgmet_weights_from_lgmet_table(a, mt, sc, b, c, to), (t, g, lg), (0.01, 0.01, 0.01), r)
        judge("sed mdf grids " + kind, lambda a, b, c, d, e: S.calc_rest_sed_sfh_table_lognormal_mdf(a, s, m, sc, b, c, flux, e, d).rest_sed, (t, g, lg, smin, to), sct, r)
        judge("sed table grids " + kind, lambda a, b, c, d, e: S.calc_rest_sed_sfh_table_met_table(a, s, mt, sc, b, c, flux, e, d).rest_sed, (t, g, lg, smin, to), sct, r)

    def t_phot(r):
        w = np.linspace(800, 20000, 60)
        f = gen.spectrum(r, w, r.choice(["plaw", "lines", "flat", "noise"]))
        fwv = np.linspace(4000, 6000, NF)
        tr = np.exp(-0.5 * ((fwv - 5000) / 300) ** 2)
        z = float(r.uniform(0.01, 3))
        co = gen.cosmology(r)
        judge("rest mag", lambda a, b: calc_rest_mag(w, a, fwv, b), (f, tr), (0.1 * f, 0.1 * tr), r)
        judge("obs mag", lambda a, b, c, d, e, h: calc_obs_mag(w, a, fwv, b, c, d, e, 0.0, h),
              (f, tr, z, co[0], co[1], co[3]), (0.1 * f, 0.1 * tr, 1e-3, 0.02, 0.02, 0.02), r)
        F = np.array([[f, 2 * f], [f**1.0, 0.5 * f]])
        judge("mag wavelengths", lambda a, b: (calc_rest_mag(a, f, b, tr), calc_obs_mag(a, f, b, tr, z, *co)), (w, fwv), (1.0, 1.0), r)
        judge("k-corrected table", lambda a, b: pp.precompute_ssp_restmags_z_kcorrect(w, a, fwv[None], tr[None], b), (np.array([[f, 2 * f], [f**1.0, 0.5 * f]]), z), (0.1, 1e-3), r)
        judge("obs table filters", lambda a, *b: pp.precompute_ssp_obsmags_on_z_table(w, f[None, None], fwv[None], a[None], jnp.array([0.5 * z, z]), *b), (tr,) + tuple(co), (0.1 * tr, 0.02, 0.02, 0.02, 0.02), r)
        judge("obs table", lambda a, b: pp.precompute_ssp_obsmags_on_z_table(w, a, fwv[None], tr[None], jnp.atleast_1d(b), *co), (F, z), (0.1 * F, 1e-3), r)
        judge("rest table", lambda a: pp.precompute_ssp_restmags(w, a, fwv[None], tr[None]), (F,), (0.1 * F,), r)
        judge("effective wavelength", lambda a, b, c: lam(a, b, c), (fwv, tr, z), (1.0, 0.1 * tr, 0.1), r)

    def t_cosmo(r):
        co = gen.cosmology(r)
        z = float(r.choice([r.uniform(0.01, 2), r.uniform(2, 20), 10 ** r.uniform(-3, 0)]))
        sc = (0.02 * z, 0.02, 0.02, 0.02, 0.02)
        for n in ("comoving_distance_to_z", "luminosity_distance_to_z", "angular_diameter_distance_to_z", "distance_modulus_to_z",
                  "lookback_to_z", "rho_crit", "virial_dynamical_time", "differential_comoving_volume_at_z"):
            if n == "virial_dynamical_time" and co[0] * (1 + z) ** 3 <= 0:
                continue
            judge(n, lambda *a, f=getattr(fw, n): f(*a), (z,) + co, sc, r)
        judge("age_at_z", lambda *a: fw.age_at_z(jnp.atleast_1d(a[0]), *a[1:]), (z,) + co, sc, r)
        judge("age_at_z0", lambda *a: fw.age_at_z0(*a), co, sc[1:], r)
        zz = np.array([0.0, 1e-4, z])
        judge("comoving at zero", lambda *a: fw.comoving_distance(zz, *a), co, sc[1:], r)

    def t_dust(r):
        w = np.concatenate([np.linspace(0.1, 2.0, 25)]) + r.uniform(0, 1e-3)
        eb, d, av = float(r.choice([0.0, r.uniform(0, 5)])), float(r.choice([0.0, r.uniform(-1, 0.4)])), float(10 ** r.uniform(-2, 0.7))
        fu = float(r.choice([0.0, 0.1, r.uniform(0, 1)]))
        for n, k in (("noll", A.noll09_k_lambda), ("sbl18", A.sbl18_k_lambda)):
            judge(n, lambda a, b, k=k: k(w, a, b), (eb, d), (0.1, 0.05), r)
            judge(n + " transmission", lambda a, b, c, e, k=k: ftr(k(w, a, b), c, e), (eb, d, av, fu), (0.1, 0.05, 0.1 * av, 0.02), r)
        for n, k in (("noll", A.noll09_k_lambda), ("sbl18", A.sbl18_k_lambda)):
            judge(n + " bump shape", lambda a, b, c, e, x, k=k: k(x, a, b, c, e), (eb + 0.5, d, float(r.uniform(0.19, 0.24)), float(r.uniform(0.02, 0.06)), w), (0.1, 0.05, 0.002, 0.002, 1e-3), r)
        judge("triweight shape", lambda *a: A.triweight_k_lambda(w, *a), (-1.0, 1.15, 0.5, 0.5, -0.65, -1.95), (0.02,) * 6, r)
        judge("noll att", lambda a, b, c: A.noll09_k_att_curve(w, a, b, c), (av, eb, d), (0.1 * av, 0.1, 0.05), r)
        judge("sbl18 att", lambda a, b, c: A.sbl18_k_att_curve(w, a, b, c), (av, eb, d), (0.1 * av, 0.1, 0.05), r)
        judge("calzetti att", lambda a, b: A.calzetti00_att_curve(a, b), (w, av), (1e-3, 0.1 * av), r)
        judge("triweight", lambda a: A.triweight_k_lambda(a), (w,), (1e-3,), r)
        T = float(10 ** r.uniform(1, 5))
        x = 10 ** r.uniform(-6, 2.3, 8)
        nu = x * ref.K * T / ref.H
        judge("blackbody nu", lambda a, b: bn(a, b), (nu, T), (0.01 * nu, 0.01 * T), r)
        lw = ref.C / nu * 1e10
        judge("blackbody wave", lambda a, b: bw(a, b), (lw, T), (0.01 * lw, 0.01 * T), r)

    def t_misc(r):
        w = np.linspace(4800, 5200, 80)
        f = 1 + 0.1 * r.normal(0, 1, 80) + 5 * np.exp(-0.5 * ((w - 5000) / 5) ** 2)
        judge("equivalent width", lambda a: ewk(w, a, 4980.0, 5000.0, 5020.0, 4850.0, 4900.0, 5100.0, 5150.0), (f,), (0.1,), r)
        judge("equivalent width centre", lambda a, b: ewk(w, b, 4980.0, a, 5020.0, 4850.0, 4900.0, 5100.0, 5150.0)[0], (5000.0, f + 2e-5 * (w - 4800) ** 2), (2.0, 0.1), r)
        dec = opt("dsps.em_lines.equivalent_width", "_continuum_line_decomp_kern")
        if dec is not None:
            judge("decomposition centre", lambda a, b: dec(w, b, 4980.0, a, 5020.0, 4850.0, 4900.0, 5100.0, 5150.0)[:3:2], (5000.0, f + 2e-5 * (w - 4800) ** 2), (2.0, 0.1), r)
        key = jax.random.PRNGKey(int(r.integers(1000)))
        judge("powerlaw draws", lambda a, b, c: U.powerlaw_rvs(key, a, b, c), (np.array([1.0, 1.5]), np.array([4.0, 5.0]), np.array([1.7, -2.0])), (0.05, 0.05, 0.05), r)
        judge("surviving calibration", lambda *a: sm.surviving_mstar(np.linspace(6.0, 10, 6), *a), tuple(sm.DEFAULT_PARAMS.values()), (0.01,) * 8, r)
        judge("remnant calibration", lambda *a: rm.remnant_mass(np.linspace(6.0, 10, 6), *a), tuple(float(x) for x in rm.DEFAULT_PARAMS.values()), (0.01,) * 5, r)
        m, t = r.uniform(7, 12, 6), r.uniform(1, 13, 6)
        m[0] = 10.5
        p = tuple(float(x) for x in umzr.DEFAULT_MZR_PARAMS)
        q = tuple(float(x) for x in mzr.DEFAULT_MET_PARAMS[:-1])
        judge("umzr", lambda *a: umzr.mzr_model(*a), (m, t) + p, (0.1, 0.1) + (0.01,) * 9, r)
        judge("mzr", lambda *a: mzr.mzr_model(*a), (m, t) + q, (0.1, 0.1) + (0.01,) * 10, r)
        u = r.uniform(-30, 30, 9)
        judge("mzr bounded", lambda a: umzr.get_bounded_mzr_params(umzr.MZRUParams(*a)), (u,), (1.0,), r)
        big = u.copy()
        big[r.integers(9)] = r.choice([-1, 1]) * 10 ** r.uniform(3, 6)
        judge("mzr bounded far", lambda a: umzr.get_bounded_mzr_params(umzr.MZRUParams(*a)), (big,), (1.0,), r)
        judge("mzr unbounded", lambda a: umzr.get_unbounded_mzr_params(umzr.MZRParams(*a)), (np.array(p),), (0.003,), r)
        lga = np.linspace(-3.5, 1.1, 40)
        sw = r.dirichlet(np.ones(40))
        pk = float(r.uniform(5.2, 7.5))
        bp = (float(r.uniform(-5, -1)), pk, pk + 1.2)
        judge("burst", lambda a, b, c, d: db.calc_bursty_age_weights(db.BurstParams(a, b, c), d, lga), bp + (sw,), (0.1, 0.05, 0.05, 0.1 * sw), r)
        ub = r.uniform(-20, 20, 3)
        judge("burst u", lambda a: db.calc_bursty_age_weights_from_u_params(db.BurstUParams(a[0], a[1], a[2]), sw, lga), (ub,), (0.5,), r)
        far = np.array(ub, float)
        far[r.integers(3)] = r.choice([-1, 1]) * 10 ** r.uniform(3, 6)
        judge("burst bounded far", lambda a: fwdb(db.BurstUParams(a[0], a[1], a[2])), (far,), (1.0,), r)
        judge("burst u far", lambda a: db.calc_bursty_age_weights_from_u_params(db.BurstUParams(a[0], a[1], a[2]), sw, lga), (far,), (1.0,), r)
        judge("burst unbounded", lambda a: invb(db.BurstParams(a[0], a[1], a[2])), (np.array([-3, 6.0, 7.5]),), (0.05,), r)
        # a burst that misses the grid has zero weight and finite derivatives
        judge("burst off grid", lambda a, b, c: db.calc_bursty_age_weights(db.BurstParams(a, b, c), sw[:10] / sw[:10].sum(), np.linspace(0.5, 1.1, 10)), bp, (0.1, 0.05, 0.05), r)
        x = r.uniform(5.5, 10.2, 8)
        judge("surviving", lambda a: sm.surviving_mstar(a), (x,), (0.1,), r)
        judge("remnant", lambda a: rm.remnant_mass(a), (x,), (0.1,), r)
        judge("powerlaw pdf", lambda a, b, c, d: U.powerlaw_pdf(a, b, c, d), (np.array([2.0, 3.0]), np.array([1.0, 1.5]), np.array([4.0, 5.0]), np.array([1.7, -2.0])),
              (0.05, 0.05, 0.05, 0.05), r)
        judge("trapz", lambda a, b: (U.trapz(a, b), U.cumtrapz(a, b)), (np.sort(r.uniform(0, 5, 12)), r.normal(0, 1, 12)), (0.01, 0.1), r)
        judge("triweight histogram", lambda a, b, c: U.triweighted_histogram(a, b, c), (r.uniform(0, 1, 4), 0.3, np.linspace(-2, 3, 9)), (0.05, 0.01, 0.01), r)

    for fam, body, nq, nth in (("sed", t_sed, 12, 120), ("weights", t_weights, 12, 120), ("grids", t_grids, 12, 120), ("phot", t_phot, 8, 80),
                               ("cosmo", t_cosmo, 8, 80), ("dust", t_dust, 8, 80), ("misc", t_misc, 8, 80)):
        for c in R.cases(fam, nq, nth):
            with c:
                body(c.rng)
