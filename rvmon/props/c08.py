"""C08 precomputed SSP magnitude tables."""
import numpy as np

from .. import gen, ref

RULE = ("SSP libraries with distinct and equal axis lengths (including 1), several filters with different "
        "ranges, redshift tables unsorted and with repeats; each table entry compared with a scalar call and "
        "with the reference integral.")
REQUIRED = {"obs-entry": 200, "rest-entry": 200, "kcorrect-entry": 200, "kcorrect-z0-is-rest": 8,
            "kcorrect-plus-dimming": 8, "independent-of-company": 8}
ASSUMPTIONS = ["entries whose SED has no flux in the band are compared for being infinite"]


def workload(R):
    from dsps.photometry import calc_obs_mag, calc_rest_mag
    from dsps.photometry import photpop as pp
    from dsps.cosmology.flat_wcdm import distance_modulus_to_z
    shapes = [(3, 4, 5, 2, 60, 25), (3, 3, 3, 3, 30, 30), (1, 2, 1, 1, 40, 10), (2, 1, 4, 3, 50, 5), (70, 1, 2, 1, 30, 10), (1, 2, 1, 40, 30, 10),
              (1, 40, 3, 1, 30, 10), (2, 2, 120, 1, 30, 10), (1, 1, 2, 1, 3000, 9000), (1, 6, 6, 1, 6, 9), (4, 4, 2, 4, 4, 12), (2, 3, 5, 5, 3, 5),
              (600, 1, 1, 1, 20, 8), (1, 1, 1, 200, 20, 8), (1, 200, 1, 1, 20, 8), (1, 1, 500, 1, 20, 8), (2, 2, 2, 2, 2, 2)]
    if R.thorough:
        shapes += [(5, 12, 22, 6, 200, 100), (4, 4, 4, 4, 4, 4), (1, 1, 1, 1, 20, 20), (2, 7, 3, 5, 64, 64)]
    for nzr, nz, na, nf, nw, nt in shapes:
        for c in R.cases("shape%s" % "_".join(map(str, (nzr, nz, na, nf, nw, nt))), 4 if nzr * nz * na * nf < 100 and nw < 1000 else 2, 30):
            with c:
                r = c.rng
                wave = gen.waves(r, nw)
                flux = gen.ssp_flux(r, nz, na, wave) + 1e-30
                fw, ft = gen.filters(r, nf, nt, 1500, 9000, kind=r.choice(["gauss", "ragged", "edge"]))
                zs = r.uniform(0.01, 2, nzr)
                if c.index % 2:             # very nearby galaxies in the same table
                    zs[r.integers(nzr)] = 10 ** r.uniform(-6, -3)
                if c.index % 4 == 0 and nzr > 1:
                    zs[r.integers(nzr)] = r.uniform(2, 12)
                if nzr > 2:
                    zs[1] = zs[0] if r.random() < 0.3 else zs[1]
                if c.index % 4 == 3:        # templates of limited range: filters leave them at some redshifts of the table
                    wave = gen.waves(r, nw, 3000.0, 9500.0)
                    flux = gen.ssp_flux(r, nz, na, wave) + 1e-30
                    zs = np.where(r.random(nzr) < 0.4, r.uniform(1, 6, nzr), zs)
                cp = gen.cosmology(r)
                info = dict(shape=[nzr, nz, na, nf, nw, nt], cosmo=cp)
                O = R.call("precompute_ssp_obsmags_on_z_table", pp.precompute_ssp_obsmags_on_z_table,
                           gen.as_kind(r, wave), gen.as_kind(r, flux), fw, ft, zs, *cp)
                S = R.call("precompute_ssp_restmags", pp.precompute_ssp_restmags, wave, flux, fw, ft)
                zk = float(r.uniform(0, 1.5) if c.index % 2 else r.uniform(-0.4, 0.0))
                K = R.call("precompute_ssp_restmags_z_kcorrect", pp.precompute_ssp_restmags_z_kcorrect, wave, flux,
                           fw, ft, zk)
                K0 = R.call("precompute_ssp_restmags_z_kcorrect", pp.precompute_ssp_restmags_z_kcorrect, wave, flux,
                            fw, ft, 0.0)
                R.ok("shape", O.shape == (nzr, nz, na, nf) and S.shape == (nz, na, nf) and K.shape == (nz, na, nf),
                     got=[O.shape, S.shape, K.shape], **info)
                R.eq("kcorrect-z0-is-rest", K0, S, rtol=0, atol=1e-9, **info)
                mus = np.array([float(distance_modulus_to_z(z, *cp)) for z in zs])
                def fm(w, s, a, b, z=0.0):
                    v = ref.ab_flux(w, s, a, b, z)
                    return -2.5 * np.log10(v) if v > 0 else np.inf
                for i in range(nz):
                    for j in range(na):
                        for k in range(nf):
                            w = dict(info, i=i, j=j, k=k)
                            R.eq("rest-entry", S[i, j, k], fm(wave, flux[i, j], fw[k], ft[k]), rtol=0, atol=1e-8, **w)
                            R.eq("kcorrect-entry", K[i, j, k], fm(wave, flux[i, j], fw[k], ft[k], zk), rtol=0, atol=1e-8, zk=zk, **w)
                            for q in range(nzr):
                                R.eq("obs-entry", O[q, i, j, k], fm(wave, flux[i, j], fw[k], ft[k], zs[q]) + mus[q]
                                     - 2.5 * np.log10(1 + zs[q]), rtol=0, atol=1e-8, q=q, z=zs[q], **w)
                i, j, k, q = [int(r.integers(m)) for m in (nz, na, nf, nzr)]
                R.eq("scalar-call", R.call("calc_obs_mag", calc_obs_mag, wave, flux[i, j], fw[k], ft[k], float(zs[q]), *cp),
                     O[q, i, j, k], rtol=1e-10, atol=1e-9, **info)
                R.eq("scalar-call", R.call("calc_rest_mag", calc_rest_mag, wave, flux[i, j], fw[k], ft[k]), S[i, j, k],
                     rtol=1e-10, atol=1e-9, **info)
                Kq = R.call("precompute_ssp_restmags_z_kcorrect", pp.precompute_ssp_restmags_z_kcorrect, wave, flux, fw,
                            ft, float(zs[q]))
                R.eq("kcorrect-plus-dimming", Kq + mus[q] - 2.5 * np.log10(1 + zs[q]), O[q], rtol=0, atol=1e-8, **info)
                # permuting filters, spectra and redshifts permutes the table and nothing else
                pf, pz, pa, pq = [r.permutation(m) for m in (nf, nz, na, nzr)]
                O2 = R.call("precompute_ssp_obsmags_on_z_table", pp.precompute_ssp_obsmags_on_z_table, wave,
                            np.ascontiguousarray(flux[pz][:, pa]), fw[pf], ft[pf], zs[pq], *cp)
                R.eq("independent-of-company", O2, O[pq][:, pz][:, :, pa][..., pf], rtol=1e-11, atol=1e-10, **info)
                S2 = R.call("precompute_ssp_restmags", pp.precompute_ssp_restmags, wave,
                            np.ascontiguousarray(flux[pz][:, pa]), fw[pf], ft[pf])
                R.eq("independent-of-company", S2, S[pz][:, pa][..., pf], rtol=1e-11, atol=1e-10, **info)
