"""C26 dummy SSP library and filters."""
import keyword
import os
import signal

import numpy as np

from .. import boot, ref
from ..core import opt

RULE = ("dummy=True next to file names, directories and the environment variable; n_line over 0,1,2,3,5,10,100,166,500,900,1200 and random values, repeated loads interleaved with mutation of earlier "
        "results and reseeding of the global generators; the dummy library and filters pushed through weights, SED, "
        "photometry tables, bursts and dust.")
REQUIRED = {"grids-increasing": 20, "spectra-positive": 12, "power-law": 12, "lines": 15, "no-lines": 1,
            "identical-each-call": 20, "filters": 3, "pipeline": 20}


def workload(R):
    import random
    from dsps.data_loaders import load_ssp_templates
    from dsps.data_loaders.retrieve_fake_fsps_data import load_fake_filter_transmission_curves as filt, load_fake_ssp_data as load
    fw, ft = opt("dsps.data_loaders.retrieve_fake_fsps_data", "_get_filter_waves"), opt("dsps.data_loaders.retrieve_fake_fsps_data", "_get_filter_trans")
    real_choices = random.choices

    def late(*_):
        raise TimeoutError("the dummy library was not ready after a minute")
    signal.signal(signal.SIGALRM, late)

    def adversary(r, seen):
        """random.choices whose outcomes are possible ones, but unlucky ones: reserved words and repeats."""
        words = [k for k in keyword.kwlist + ["XXX", "AAA", "Zzz"]]

        def choices(population, weights=None, *, cum_weights=None, k=1):
            seen.append(k)
            pop = list(population)
            fit = [w for w in words if len(w) == k and all(ch in pop for ch in w)]
            if weights is None and cum_weights is None and fit and r.random() < 0.3:
                return list(fit[int(r.integers(len(fit)))])
            return real_choices(population, weights, cum_weights=cum_weights, k=k)
        return choices
    ns = [166, 0, 1, 2, 3, 5, 10, 100, 500, 4, 166, 0, 7, 50, 900, 1200]
    base = None
    here = os.getcwd()
    for c in R.cases("library", 16, 60):
        with c:
            r = c.rng
            n = ns[c.index] if c.index < len(ns) else int(r.integers(0, 300))
            if c.index % 4 == 1:
                random.seed(3), np.random.seed(3)
            if c.index % 4 == 3:        # the packaged data are found from anywhere
                os.chdir([boot.scratch(), "/", here][c.index // 4 % 3])
            seen = []
            if c.index % 3 != 1:
                random.choices = adversary(r, seen)
            signal.setitimer(signal.ITIMER_REAL, 60)
            if c.index % 5 == 2:
                # asked for explicitly, the dummy library is what comes back, whatever else is given
                kw = [dict(fn="/nonexistent/a.h5"), dict(drn="/nonexistent"), dict(), dict(fn=os.devnull, drn=".", bn="x"), dict(bn="b.h5")][c.index // 5 % 5]
                if r.random() < 0.5:
                    os.environ["DSPS_DRN"] = "/nonexistent"
                d = R.call("load_ssp_templates", load_ssp_templates, dummy=True, **kw)
                os.environ.pop("DSPS_DRN", None)
                n = 166
            elif n == 166:
                d = R.call("load_fake_ssp_data", load)
            else:
                d = R.call("load_fake_ssp_data", load, n_line=n)
            signal.setitimer(signal.ITIMER_REAL, 0)
            random.choices = real_choices
            os.chdir(here)
            R.stat("steered random draws", len(seen))
            info = dict(n_line=n)
            R.ok("type", type(d).__name__ == "SSPData" and d._fields == ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux", "ssp_emline_wave", "ssp_emline_luminosity"))
            z, a, w, f = (np.asarray(x) for x in d[:4])
            for name, x in (("lgmet", z), ("lgage", a), ("wave", w)):
                R.ok("grids-increasing", x.ndim == 1 and x.size >= 3 and np.all(np.diff(x) > 0) and np.all(np.isfinite(x)), grid=name, x=x, **info)
            R.ok("grids-physical", -6 < z[0] and z[-1] < -0.5 and a[0] > -7 and a[-1] < 1.4 and w[0] > 0 and a.dtype == np.float64)
            R.ok("shape", f.shape == (z.size, a.size, w.size), shape=f.shape, **info)
            R.ok("spectra-positive", np.all(np.isfinite(f)) and np.all(f > 0), **info)
            lf, lw = np.log10(f), np.log10(w)
            slope = (lf[:, :, -1] - lf[:, :, 0]) / (lw[-1] - lw[0])
            dev = np.abs(lf - (lf[:, :, :1] + slope[:, :, None] * (lw - lw[0])))
            R.ok("power-law", dev.max() < 1e-9, dev=dev.max(), **info)
            R.ok("templates-differ", len(np.unique(np.round(f[:, :, 5], 30))) > 0.9 * z.size * a.size or len(np.unique(f[:, :, 5])) > 100)
            if n == 0:
                R.ok("no-lines", d.ssp_emline_wave is None and d.ssp_emline_luminosity is None)
            else:
                L, lum = d.ssp_emline_wave, np.asarray(d.ssp_emline_luminosity)
                R.ok("lines", len(L) == n and len(set(L._fields)) == n and all(k.isidentifier() and not keyword.iskeyword(k) for k in L._fields), n=len(L), **info)
                R.ok("lines", lum.shape == (z.size, a.size, n) and np.all(np.isfinite(lum)) and np.all(lum > 0), shape=lum.shape, **info)
                R.ok("lines", all(np.isfinite(float(v)) for v in L) and (n == 1 or np.all(np.diff(np.array(L)) > 0)), **info)
            cur = [x.copy() for x in (z, a, w, f)]
            if base is None:
                base = cur
            for x, y in zip(cur, base):
                R.same("identical-each-call", x, y, **info)
            for x in d[:4]:    # damaging one result must not reach the next
                try:
                    np.asarray(x)[...] = -7
                except ValueError:
                    pass
    fbase = None
    for c in R.cases("filters", 4, 10):
        with c:
            out = R.call("load_fake_filters", filt)
            R.ok("filters", len(out) == 7)
            w = np.asarray(out[0])
            peaks = []
            for t in out[1:]:
                t = np.asarray(t)
                R.ok("filters", t.shape == w.shape and np.all(t >= 0) and np.all(t <= 1) and np.all(np.isfinite(t)) and t.max() > 0.01, top=t.max())
                peaks.append(w[np.argmax(t)])
            R.ok("filters", np.all(np.diff(w) > 0) and np.all(np.diff(peaks) > 0), peaks=peaks)
            R.eq("filter-peaks", peaks, [3715, 4786, 6166, 7499, 8610, 9661], rtol=0.01)
            cur = [np.asarray(x).copy() for x in out]
            if fbase is None:
                fbase = cur
            for x, y in zip(cur, fbase):
                R.same("identical-each-call", x, y)
            if fw is not None and ft is not None:
                a, b = R.call("filter_waves", fw), R.call("filter_trans", ft)
                R.ok("filters", a.shape == b.shape and a.shape[0] == 6 and np.all(np.diff(a, axis=1) > 0) and np.all((b >= 0) & (b <= 1)))
                R.ok("filters", np.all(np.diff([a[i, np.argmax(b[i])] for i in range(6)]) > 0))
    # the stand-ins drive every stage
    import dsps
    from dsps.cosmology import DEFAULT_COSMOLOGY, TODAY
    from dsps.dust.att_curves import sbl18_k_lambda, _frac_transmission_from_k_lambda
    from dsps.photometry.photpop import precompute_ssp_obsmags_on_z_table as pz, precompute_ssp_restmags as pr
    from dsps.sfh.diffburst import DEFAULT_BURST_PARAMS, calc_bursty_age_weights
    d = R.call("load_fake_ssp_data", load)
    out = R.call("load_fake_filters", filt)
    W = np.array([out[0]] * 6)[:, ::8]
    T = np.array(out[1:])[:, ::8]
    for c in R.cases("pipeline", 8, 60):
        with c:
            r = c.rng
            t = np.linspace(0.05, TODAY, 100)
            s = r.uniform(0, 10) * np.exp(-0.5 * ((t - r.uniform(1, 12)) / 2) ** 2) + 1e-3
            to = float(r.uniform(3, 13.5))
            m, sc = float(r.uniform(-3.5, -1.5)), 0.2
            for name, fn, met in (("mdf", dsps.calc_rest_sed_sfh_table_lognormal_mdf, m), ("table", dsps.calc_rest_sed_sfh_table_met_table, np.linspace(-3, m, 100))):
                q = R.call("calc_rest_sed_" + name, fn, t, s, met, sc, d.ssp_lgmet, d.ssp_lg_age_gyr, d.ssp_flux, to)
                R.finite("pipeline", list(q), stage=name)
                R.ok("pipeline", np.all(q.rest_sed > 0) and abs(q.weights.sum() - 1) < 1e-6)
                wt = q.weights.reshape(len(d.ssp_lgmet), len(d.ssp_lg_age_gyr))
                R.eq("pipeline", q.rest_sed, ref.mstar_at(t, s, to) * np.einsum("za,zaw->w", wt, d.ssp_flux), rtol=1e-7, stage=name)
                z = float(r.uniform(0.01, 0.8))
                for i in range(6):
                    a = R.call("calc_obs_mag", dsps.calc_obs_mag, d.ssp_wave, q.rest_sed, W[i], T[i], z, *DEFAULT_COSMOLOGY)
                    b = R.call("calc_rest_mag", dsps.calc_rest_mag, d.ssp_wave, q.rest_sed, W[i], T[i])
                    R.finite("pipeline", [a, b], stage="mags", band=i)
            ageb = R.call("calc_bursty_age_weights", calc_bursty_age_weights, DEFAULT_BURST_PARAMS, q.age_weights, d.ssp_lg_age_gyr)
            R.eq("pipeline", ageb.sum(), 1.0, rtol=1e-6, stage="burst")
    for c, _ in R.each("tables", [0]):
        with c:
            zt = np.linspace(0.1, 1, 3)
            a = R.call("precompute_obs", pz, d.ssp_wave, d.ssp_flux[::6, ::20], W, T, zt, *DEFAULT_COSMOLOGY)
            b = R.call("precompute_rest", pr, d.ssp_wave, d.ssp_flux[::6, ::20], W, T)
            R.finite("pipeline", [a, b], stage="tables")
            n1, n2 = d.ssp_flux[::6, ::20].shape[:2]
            R.ok("pipeline", a.shape == (3, n1, n2, 6) and b.shape == (n1, n2, 6), stage="tables")
            k = R.call("sbl18", sbl18_k_lambda, d.ssp_wave / 1e4, 1.0, -0.3)
            tr = R.call("frac_trans", _frac_transmission_from_k_lambda, k, 0.5)
            R.ok("pipeline", np.all((tr >= 0) & (tr <= 1 + 1e-12) & np.isfinite(k)), stage="dust")
