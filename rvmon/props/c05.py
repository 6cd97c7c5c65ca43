"""C05 composite SED."""
import numpy as np

from .. import gen, ref
from .c03 import history

RULE = ("Both metallicity models on random SSP libraries (power laws, lines, noise, breaks, sparse) with "
        "distinct and equal axis lengths, signed (residual) templates, tables reaching beyond 13.8 Gyr, histories and observation times as in C01; floors default and not; "
        "linearity, scaling and floor relations between pairs of calls.")
REQUIRED = {"sed-equals-mass-times-sum": 40, "linear-in-flux": 15, "mass-scaling": 8, "models-agree": 15,
            "floor-equivalence": 15, "template-unit": 20}
ASSUMPTIONS = ["as C01-C03"]


def workload(R):
    from dsps.sed import calc_rest_sed_sfh_table_lognormal_mdf as f1, calc_rest_sed_sfh_table_met_table as f2
    shapes = [(60, 12, 40, 50), (30, 9, 9, 9), (20, 15, 5, 30), (2, 3, 4, 3), (3, 5, 3, 12), (60, 11, 107, 2000),
              (40, 13, 94, 5000), (3000, 7, 9, 11), (25, 130, 12, 10), (25, 6, 700, 10)]
    if R.thorough:
        shapes += [(100, 22, 107, 200), (5, 3, 3, 1), (16, 16, 16, 16)]
    N1, N2 = "calc_rest_sed_sfh_table_lognormal_mdf", "calc_rest_sed_sfh_table_met_table"
    for nt, nz, na, nw in shapes:
        for c in R.cases("sweep%d_%d_%d_%d" % (nt, nz, na, nw), 36 if nz * na * nw < 1e5 and max(nt, nz, na) < 100 else 4 if nz * na * nw > 1e6 else 8,
                         300 if nz * na * nw < 1e5 and max(nt, nz, na) < 100 else 20):
            with c:
                r = c.rng
                t = gen.t_table(r, nt) * (r.uniform(1.1, 1.6) if c.index % 4 == 3 else 1.0)   # beyond today too
                s, kind = gen.sfh(r, t, gen.SFH_KINDS[c.index % len(gen.SFH_KINDS)])
                g, lg = gen.lgmets(r, nz), gen.lg_ages(r, na)
                to = gen.t_obs(r, t, lg)
                if to - 10 ** ref.age_edges(lg)[0] <= t[0]:
                    continue
                wave = gen.waves(r, nw)
                flux = gen.ssp_flux(r, nz, na, wave)
                signed = c.index % 5 == 2                 # residual or line-subtracted templates
                if signed:
                    flux = flux * r.choice([-1.0, 1.0], (nz, na, nw))
                sc = float(10 ** r.uniform(-3, 0))
                kw = {}
                floor = ref.SFR_MIN
                if r.random() < 0.4:
                    floor = 10 ** r.uniform(-10, 1)
                    kw = dict(sfr_min=floor)
                aw, frac = ref.age_weights(t, s, lg, to, floor)
                if not frac > 1e-9:
                    continue
                mass = ref.mstar_at(t, s, to, floor)
                tol = 1e-9 + 1e-12 / frac
                info = dict(kind=kind, shape=[nt, nz, na, nw], t_obs=to, scatter=sc, floor=floor, mass=mass)
                for model in (0, 1):
                    if model == 0:
                        m = float(r.uniform(g[0] - 0.5, g[-1] + 0.5))
                        Mref = ref.met_weights(m, sc, g)[:, None]
                        met, fn, nm = m, f1, N1
                    else:
                        met, _ = history(r, t)
                        Mref = ref.met_table_weights(t, met, sc, g, lg, to)[0] * na
                        fn, nm = f2, N2
                    res = R.call(nm, fn, gen.as_kind(r, t), gen.as_kind(r, s), met, sc, g, lg, flux, to, **kw)
                    info["model"] = model
                    W = res.weights.reshape(nz, na)
                    info_f = float(np.max(np.abs(flux)))
                    R.ok("shape", res.rest_sed.shape == (nw,), **info)
                    R.finite("finite", res.rest_sed, **info)
                    if not signed:
                        R.ok("non-negative", res.rest_sed >= -1e-9 * mass * info_f, **info)
                    R.eq("sed-equals-mass-times-sum", res.rest_sed, mass * np.einsum("za,zaw->w", W, flux),
                         rtol=2e-10, atol=1e-13 * mass * info_f, **info)
                    R.eq("reported-weights", W, Mref * aw, rtol=1e-6, atol=tol + 1e-11 / sc, **info)
                    R.eq("reported-weights", res.age_weights, aw, rtol=1e-6, atol=tol, **info)
                    R.eq("reported-weights", res.lgmet_weights * (na if model else 1),
                         Mref if model else Mref[:, 0], rtol=1e-6, atol=1e-9 + 1e-11 / sc, **info)
                    R.stat("log10-mass", np.log10(mass))
    nt, nz, na, nw = 50, 10, 25, 20
    for c in R.cases("relations", 20, 200):
        with c:
            r = c.rng
            t = gen.t_table(r, nt) * (1.4 if c.index % 4 == 3 else 1.0)
            s, kind = gen.sfh(r, t, r.choice(["const", "lognormal", "rise", "bursty", "huge", "step"]))
            s = np.maximum(s, 1e-6)
            g, lg = gen.lgmets(r, nz), gen.lg_ages(r, na)
            to = gen.t_obs(r, t, lg)
            if to - 10 ** ref.age_edges(lg)[0] <= t[0]:
                continue
            wave = gen.waves(r, nw)
            fa, fb = r.uniform(0, 1, (2, nz, na, nw))
            sc, m = float(10 ** r.uniform(-2, 0)), float(r.uniform(-4, -1.5))
            x, y = r.uniform(0.1, 10, 2)
            A = R.call(N1, f1, t, s, m, sc, g, lg, fa, to).rest_sed
            B = R.call(N1, f1, t, s, m, sc, g, lg, fb, to).rest_sed
            AB = R.call(N1, f1, t, s, m, sc, g, lg, x * fa + y * fb, to).rest_sed
            R.eq("linear-in-flux", AB, x * A + y * B, rtol=1e-9, kind=kind)
            sgn = [R.call(nm, fn, t, s, z, sc, g, lg, x * fa - y * fb, to).rest_sed
                   for fn, nm, z in ((f1, N1, m), (f2, N2, np.full(nt, m)))]
            R.eq("linear-in-flux", sgn[0], x * A - y * B, rtol=1e-9, atol=1e-10 * np.abs(x * A + y * B), kind=kind)
            R.eq("models-agree", sgn[1], sgn[0], rtol=1e-8, atol=1e-8 * np.abs(x * A + y * B), kind=kind)
            k = 10 ** r.uniform(0.3, 4)
            Ak = R.call(N1, f1, t, s * k, m, sc, g, lg, fa, to).rest_sed
            R.eq("mass-scaling", Ak, k * A, rtol=1e-6, kind=kind, k=k)
            T = R.call(N2, f2, t, s, np.full(nt, m), sc, g, lg, fa, to).rest_sed
            R.eq("models-agree", T, A, rtol=1e-8, kind=kind)
            fl = 10 ** r.uniform(-2, 1.5)
            for fn, nm, z in ((f1, N1, m), (f2, N2, np.full(nt, m))):
                u = R.call(nm, fn, t, s, z, sc, g, lg, fa, to, fl)
                v = R.call(nm, fn, t, np.maximum(s, fl), z, sc, g, lg, fa, to)
                R.eq("floor-equivalence", u.rest_sed, v.rest_sed, rtol=1e-9, floor=fl)
                R.eq("floor-equivalence", u.age_weights, v.age_weights, rtol=1e-9, atol=1e-12, floor=fl)
            # unit spectra: the SED is the stellar mass itself
            one = R.call(N1, f1, t, s, m, sc, g, lg, np.ones((nz, na, nw)), to).rest_sed
            R.eq("unit-library-gives-mass", one, np.full(nw, ref.mstar_at(t, s, to)), rtol=1e-7, kind=kind)
            # the unit of the library is free: very faint and very bright templates scale through unchanged
            for fn, nm, z, base in ((f1, N1, m, A), (f2, N2, np.full(nt, m), T)):
                e = int(r.choice([-60, -46, -45, -44, -40, -38, -30, -15, 15, 30, 37, 39, 45]))
                q = R.call(nm, fn, t, s, z, sc, g, lg, fa * 10.0 ** e, to).rest_sed
                R.eq("template-unit", q / 10.0 ** e, base, rtol=1e-9, exponent=e)
            # a library that is non-zero for a single template picks out its weight
            i, j = int(r.integers(nz)), int(r.integers(na))
            pick = np.zeros((nz, na, nw))
            pick[i, j] = 1
            q = R.call(N1, f1, t, s, m, sc, g, lg, pick, to)
            R.eq("single-template", q.rest_sed, np.full(nw, q.weights.reshape(nz, na)[i, j] * one[0]), rtol=1e-9,
                 atol=1e-12 * one[0])
