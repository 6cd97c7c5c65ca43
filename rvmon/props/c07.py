"""C07 rest and observed magnitudes."""
import numpy as np

from .. import gen, ref

RULE = ("Power-law, line, noisy, broken, flat and sparse SEDs on linear, log and irregular wavelength grids; "
        "Gaussian, top-hat, ragged, zero-padded and ramp filters inside, straddling and at the ends of the SED; "
        "samples far outside the band missing, infinite or absurd; z from 0 to 20; filters stored in increasing and decreasing order; random w0-wa cosmologies.")
REQUIRED = {"rest-reference": 60, "obs-reference": 60, "scaling": 20, "filter-rescale": 20, "ab-zero": 20,
            "out-of-band": 15, "dimming": 20, "negative-pixels": 20, "flux-linear": 20}
ASSUMPTIONS = ["filters overlap the SED with non-zero flux (the magnitude is finite)",
               "cosmological distances themselves are the subject of C10"]


def mag(f):
    return -2.5 * np.log10(f)


def workload(R):
    from dsps.photometry import calc_obs_mag, calc_rest_mag
    from dsps.photometry.photometry_kernels import calc_rest_flux
    from dsps.cosmology.flat_wcdm import distance_modulus_to_z
    from ..core import opt
    nodim = opt("dsps.photometry.photometry_kernels", "_calc_obs_mag_no_dimming")
    for nw, nf in ([(500, 60), (60, 200), (40, 40), (300, 3), (6000, 50), (80, 9000)] if not R.thorough else
                   [(500, 60), (60, 200), (40, 40), (300, 3), (2000, 500), (2, 10), (10, 2), (12000, 6000), (300, 20000)]):
        for c in R.cases("sweep%d_%d" % (nw, nf), 40 if max(nw, nf) < 1000 else 12, 400 if max(nw, nf) < 1000 else 80):
            with c:
                r = c.rng
                wave = gen.waves(r, nw)
                sed = gen.spectrum(r, wave)
                fw, ft = gen.filters(r, 1, nf, 1000, 25000)
                fw, ft = fw[0], ft[0]
                if c.index % 8 == 0:
                    fw = np.linspace(20000, 45000, nf)      # straddles the red end
                if c.index % 8 == 1:
                    fw = np.linspace(60, 400, nf)            # straddles the blue end
                if c.index % 8 == 2:
                    fw, ft = np.linspace(5000, 6000, nf), np.ones(nf)
                if c.index % 8 == 5 and nf >= 6:        # vertical edges: the same wavelength twice
                    fw, ft = fw.copy(), np.where(np.arange(nf) % 2, 1.0, r.uniform(0.2, 1, nf))
                    for j in (0, nf // 2, nf - 2):
                        fw[j + 1] = fw[j]
                    ft[0] = ft[-1] = 0.0
                if c.index % 8 in (4, 5) and nw >= 6:   # and steps in the spectrum
                    wave = wave.copy()
                    j = int(r.integers(1, nw - 2))
                    wave[j + 1] = wave[j]
                z = gen.special(r, 1e-4, 20.0 if c.index % 3 == 0 else 10.0, (0.0, 1.0, 0.5))
                cp = gen.cosmology(r)
                A, B = gen.as_kind(r, wave), gen.as_kind(r, sed)
                F, T = gen.as_kind(r, fw), gen.as_kind(r, ft)
                info = dict(nw=nw, nf=nf, z=z, cosmo=cp)
                fr = ref.ab_flux(wave, sed, fw, ft)
                if fr > 0 and (ft > 0).sum() >= 2:
                    m = R.call("calc_rest_mag", calc_rest_mag, A, B, F, T)
                    R.eq("rest-reference", m, mag(fr), rtol=0, atol=1e-8, **info)
                    fx = R.call("calc_rest_flux", calc_rest_flux, A, B, F, T)
                    R.eq("rest-reference", fx, fr, rtol=1e-9, **info)
                    k = 10 ** (r.uniform(-6, 6) if c.index % 2 else r.uniform(-60, 60))
                    R.eq("scaling", R.call("calc_rest_mag", calc_rest_mag, wave, sed * k, fw, ft) - m,
                         -2.5 * np.log10(k), rtol=0, atol=1e-8, k=k, **info)
                    q = 10 ** r.uniform(-3, 3)
                    R.eq("filter-rescale", R.call("calc_rest_mag", calc_rest_mag, wave, sed, fw, ft * q), m,
                         rtol=0, atol=1e-8, q=q, **info)
                    R.eq("filter-order", R.call("calc_rest_mag", calc_rest_mag, wave, sed, fw[::-1].copy(), ft[::-1].copy()), m,
                         rtol=0, atol=1e-9, **info)
                    # the flux is linear in the SED, noise and absorption below zero included
                    noise = sed.max() * r.normal(size=nw) * 10 ** r.uniform(-2, 1)
                    fneg = R.call("calc_rest_flux", calc_rest_flux, wave, sed + noise, fw, ft)
                    scale = ref.ab_flux(wave, sed + np.abs(noise), fw, ft)
                    R.eq("negative-pixels", fneg, ref.ab_flux(wave, sed + noise, fw, ft), rtol=1e-9,
                         atol=1e-11 * scale, **info)
                    R.eq("flux-linear", fneg, fx + R.call("calc_rest_flux", calc_rest_flux, wave, noise, fw, ft),
                         rtol=1e-9, atol=1e-10 * scale, **info)
                    # adding flux inside the band brightens; changing flux well outside does not matter
                    R.ok("brighten", R.call("calc_rest_mag", calc_rest_mag, wave, sed + sed.max(), fw, ft) < m, **info)
                    sup = fw[ft > 0]
                    i0 = np.searchsorted(wave, fw[0], side="right") - 2
                    i1 = np.searchsorted(wave, fw[-1], side="left") + 1
                    s2 = sed.copy()
                    if i0 > 0:
                        s2[:i0] *= 7
                    if i1 + 1 < nw:
                        s2[i1 + 1:] += sed.max()
                    if (s2 != sed).any():
                        R.eq("out-of-band", R.call("calc_rest_mag", calc_rest_mag, wave, s2, fw, ft), m,
                             rtol=0, atol=1e-10, **info)
                        for junk in (np.nan, np.inf, -1e30, 1e60):      # samples that are missing or absurd, away from the band
                            s3 = sed.copy()
                            s3[:max(i0, 0)], s3[i1 + 1:] = junk, junk
                            R.eq("out-of-band", R.call("calc_rest_mag", calc_rest_mag, wave, s3, fw, ft), m, rtol=0, atol=1e-10, junk=junk, **info)
                if fw[0] >= wave[0] and fw[-1] <= wave[-1]:
                    R.eq("ab-zero", R.call("calc_rest_mag", calc_rest_mag, wave, np.full(nw, ref.AB0), fw, ft), 0.0,
                         rtol=0, atol=1e-9, **info)
                fo = ref.ab_flux(wave, sed, fw, ft, z)
                if fo > 0 and z > 0 and (ft > 0).sum() >= 2:
                    m = R.call("calc_obs_mag", calc_obs_mag, A, B, F, T, z, *cp)
                    mu = float(np.asarray(distance_modulus_to_z(z, *cp)))
                    want = mag(fo) + mu - 2.5 * np.log10(1 + z)
                    R.eq("obs-reference", m, want, rtol=0, atol=1e-8, **info)
                    # against the independent distance integral (accuracy of C10)
                    dl = ref.comoving_distance(z, *cp) * (1 + z)
                    R.eq("dimming", m, mag(fo) + 5 * np.log10(dl * 1e5) - 2.5 * np.log10(1 + z), rtol=0,
                         atol=2e-3, **info)
                    k = 10 ** (r.uniform(-6, 6) if c.index % 2 else r.uniform(-60, 60))
                    R.eq("scaling", R.call("calc_obs_mag", calc_obs_mag, wave, sed * k, fw, ft, z, *cp) - m,
                         -2.5 * np.log10(k), rtol=0, atol=1e-8, k=k, **info)
                    R.eq("filter-order", R.call("calc_obs_mag", calc_obs_mag, wave, sed, fw[::-1].copy(), ft[::-1].copy(), z, *cp), m,
                         rtol=0, atol=1e-9, **info)
                    # stretch: shifting SED and comparing in the rest frame
                    R.eq("redshift-is-stretch", m - mu + 2.5 * np.log10(1 + z),
                         R.call("calc_rest_mag", calc_rest_mag, wave * (1 + z), sed, fw, ft), rtol=0, atol=1e-7, **info)
                    W = wave * (1 + z)      # where the samples are observed
                    j0, j1 = np.searchsorted(W, fw[0], side="right") - 2, np.searchsorted(W, fw[-1], side="left") + 1
                    if j0 > 0 or j1 + 1 < nw:
                        for junk in (7.0, np.nan, np.inf, -1e30):
                            s3 = sed.copy()
                            s3[:max(j0, 0)], s3[j1 + 1:] = junk, junk
                            R.eq("out-of-band", R.call("calc_obs_mag", calc_obs_mag, wave, s3, fw, ft, z, *cp), m, rtol=0, atol=1e-10, junk=junk, **info)
                    if nodim is not None:
                        R.eq("no-dimming", R.call("calc_obs_mag_no_dimming", nodim, A, B, F, T, z), mag(fo), rtol=0,
                             atol=1e-8, **info)
                    R.stat("obs-mag", m)
    tab = opt("dsps.photometry.photometry_kernels", "_cosmological_dimming_from_table")
    dim = opt("dsps.photometry.photometry_kernels", "_cosmological_dimming")
    if tab is not None and dim is not None:
        for c in R.cases("dimming-table", 10, 60):
            with c:
                cp = gen.cosmology(c.rng)
                zt = np.linspace(0.01, 3, 40)
                dm = np.array([float(distance_modulus_to_z(z, *cp)) for z in zt])
                j = int(c.rng.integers(40))
                R.eq("dimming-table", R.call("dimming_from_table", tab, float(zt[j]), zt, dm),
                     R.call("dimming", dim, float(zt[j]), *cp), rtol=1e-10)
                zq = float(c.rng.uniform(0.01, 3))
                R.eq("dimming-table", R.call("dimming_from_table", tab, zq, zt, dm),
                     ref.interp_clamped(zq, zt, dm)[0] - 2.5 * np.log10(1 + zq), rtol=1e-10)
