"""C09 photometry of a composite equals the weighted SSP photometry."""
import numpy as np

from .. import gen, ref
from .c03 import history

RULE = ("Full pipeline runs on random and dummy SSP libraries: SED -> magnitude against weights x table, rest, "
        "observed and k-corrected, with and without dust and bursts.")
REQUIRED = {"rest-commutes": 15, "obs-commutes": 15, "burst-commutes": 8, "dust-commutes": 8, "dummy-pipeline": 4, "kcorrect-commutes": 15}
ASSUMPTIONS = ["as C01-C05 and C07"]


def workload(R):
    from dsps import load_ssp_templates, calc_rest_mag, calc_obs_mag
    from dsps.sed import calc_rest_sed_sfh_table_lognormal_mdf as f1, calc_rest_sed_sfh_table_met_table as f2
    from dsps.photometry import photpop as pp
    from dsps.sfh import diffburst
    from dsps.dust import att_curves as att
    from dsps import cumulative_mstar_formed
    from dsps.cosmology import distance_modulus_to_z
    N1, N2 = "calc_rest_sed_sfh_table_lognormal_mdf", "calc_rest_sed_sfh_table_met_table"

    def pipeline(R, r, ssp_g, ssp_a, wave, flux, fw, ft, tag):
        nz, na = len(ssp_g), len(ssp_a)
        t = gen.t_table(r, 60)
        s, kind = gen.sfh(r, t)
        to = gen.t_obs(r, t, ssp_a)
        if to - 10 ** ref.age_edges(ssp_a)[0] <= t[0]:
            return
        if not ref.age_weights(t, s, ssp_a, to)[1] > 1e-6:
            return
        sc = float(10 ** r.uniform(-2, 0))
        if r.random() < 0.5:
            g = R.call(N1, f1, t, s, float(r.uniform(-4, -1.5)), sc, ssp_g, ssp_a, flux, to)
        else:
            z, _ = history(r, t)
            g = R.call(N2, f2, t, s, z, sc, ssp_g, ssp_a, flux, to)
        W = np.maximum(g.weights.reshape(nz, na), 0)
        mass = ref.mstar_at(t, s, to)
        zobs = float(r.uniform(0.02, 1.0)) if r.random() < 0.6 else float(r.uniform(1, 15))
        cp = gen.cosmology(r)
        info = dict(kind=kind, tag=tag, t_obs=to, z=zobs, mass=mass)
        S = R.call("precompute_ssp_restmags", pp.precompute_ssp_restmags, wave, flux, fw, ft)
        O = R.call("precompute_ssp_obsmags_on_z_table", pp.precompute_ssp_obsmags_on_z_table, wave, flux, fw, ft,
                   np.concatenate([[zobs], zobs * r.uniform(0.8, 3, int(r.integers(0, 4)))]), *cp)[0]
        K = R.call("precompute_ssp_restmags_z_kcorrect", pp.precompute_ssp_restmags_z_kcorrect, wave, flux, fw, ft, zobs)
        mu = R.call("distance_modulus_to_z", distance_modulus_to_z, zobs, *cp)
        for k in range(len(fw)):
            # the k-corrected table is the redshifted spectrum without its dimming
            m = R.call("calc_obs_mag", calc_obs_mag, wave, g.rest_sed, fw[k], ft[k], zobs, *cp)
            R.eq("kcorrect-commutes", m - mu + 2.5 * np.log10(1 + zobs),
                 -2.5 * np.log10(mass * np.sum(W * 10 ** (-0.4 * K[..., k]))), rtol=0, atol=2e-7, **info)
            m = R.call("calc_rest_mag", calc_rest_mag, wave, g.rest_sed, fw[k], ft[k])
            R.eq("rest-commutes", m, -2.5 * np.log10(mass * np.sum(W * 10 ** (-0.4 * S[..., k]))), rtol=0, atol=2e-7, **info)
            m = R.call("calc_obs_mag", calc_obs_mag, wave, g.rest_sed, fw[k], ft[k], zobs, *cp)
            R.eq("obs-commutes", m, -2.5 * np.log10(mass * np.sum(W * 10 ** (-0.4 * O[..., k]))), rtol=0, atol=2e-7, **info)
        # burst: same mass, ages redistributed
        bp = diffburst.BurstParams(float(r.uniform(-6, -1)), float(r.uniform(5.2, 7.5)), 8.8)
        aw = R.call("calc_bursty_age_weights", diffburst.calc_bursty_age_weights, bp, np.asarray(g.age_weights), ssp_a)
        met = W / np.where(W.sum(0) > 0, W.sum(0), 1.0)
        Wb = met * aw
        sed_b = mass * np.einsum("za,zaw->w", Wb, flux)
        if sed_b.max() > 0:
            for k in range(len(fw)):
                m = R.call("calc_rest_mag", calc_rest_mag, wave, sed_b, fw[k], ft[k])
                R.eq("burst-commutes", m, -2.5 * np.log10(mass * np.sum(Wb * 10 ** (-0.4 * S[..., k]))), rtol=0,
                     atol=2e-7, **info)
        # a dust screen applied to the templates or to the composite
        av, eb, d = r.uniform(0, 3), r.uniform(0, 4), r.uniform(-1, 0.4)
        A = R.call("sbl18_k_att_curve", att.sbl18_k_att_curve, wave / 1e4, av, eb, d)
        tr = 10 ** (-0.4 * A)
        R.ok("dust-physical", (tr <= 1 + 1e-12) & (tr >= 0), **info)
        if r.random() < 0.5:
            g2 = R.call(N1, f1, t, s, -2.0, sc, ssp_g, ssp_a, flux, to).rest_sed * tr
            g3 = R.call(N1, f1, t, s, -2.0, sc, ssp_g, ssp_a, flux * tr, to).rest_sed
        else:
            z0 = np.full(len(t), -2.5)
            g2 = R.call(N2, f2, t, s, z0, sc, ssp_g, ssp_a, flux, to).rest_sed * tr
            g3 = R.call(N2, f2, t, s, z0, sc, ssp_g, ssp_a, flux * tr, to).rest_sed
        R.eq("dust-commutes", g3, g2, rtol=1e-8, atol=1e-12 * np.max(g2), **info)
        m_table = R.call("cumulative_mstar_formed", cumulative_mstar_formed, t, np.maximum(s, 1e-14))
        R.ok("mass-bounded-by-table", mass <= m_table[-1] * (1 + 1e-9), **info)

    for nz, na in ([(9, 25), (7, 7)] if not R.thorough else [(9, 25), (7, 7), (22, 94), (3, 5)]):
        for c in R.cases("random%d_%d" % (nz, na), 14, 120):
            with c:
                r = c.rng
                wave = gen.waves(r, 80)
                flux = gen.ssp_flux(r, nz, na, wave) + 1e-25
                if c.index % 4 == 1:        # very faint libraries, all of it or some templates
                    flux = flux * 10 ** r.uniform(-35, -5)
                elif c.index % 4 == 3:
                    flux = flux * 10 ** np.where(r.random((nz, na, 1)) < 0.5, 0.0, r.uniform(-35, 0, (nz, na, 1)))
                if c.index % 3 == 2:        # steep and broken spectra: many decades inside one band
                    for i in range(nz):
                        for j in range(na):
                            flux[i, j] = 10 ** (np.cumsum(r.normal(0, 1, wave.size)) * r.uniform(0, 1) - r.uniform(0, 8) * (wave > r.uniform(2000, 9000)))
                fw, ft = gen.filters(r, 2, 30, 2000, 9000, kind=r.choice(["gauss", "ragged", "edge"]))
                pipeline(R, r, gen.lgmets(r, nz), gen.lg_ages(r, na), wave, flux, fw, ft, "random")
    ssp = load_ssp_templates(dummy=True)
    wave = np.asarray(ssp.ssp_wave)[::20].copy()
    flux = np.asarray(ssp.ssp_flux)[..., ::20].copy()
    for c in R.cases("dummy", 6, 40):
        with c:
            fw, ft = gen.filters(c.rng, 3, 40, 3000, 9000, kind="gauss")
            R.hit("dummy-pipeline")
            pipeline(R, c.rng, np.asarray(ssp.ssp_lgmet), np.asarray(ssp.ssp_lg_age_gyr), wave, flux, fw, ft, "dummy")
