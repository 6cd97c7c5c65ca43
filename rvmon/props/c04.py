"""C04 joint SSP weights."""
import numpy as np

from .. import gen, ref
from .c03 import history

RULE = ("Both metallicity models; histories, grids and observation times as in C01-C03, with "
        "n_met<n_age, n_met=n_age, n_met>n_age; default and non-default SFR floor.")
REQUIRED = {"joint-equals-product": 60, "sum-to-one": 60, "age-weights-standalone": 60,
            "met-weights-standalone": 60, "marginal-is-age": 60}
ASSUMPTIONS = ["as C01-C03"]


def workload(R):
    from dsps.sed import (calc_age_weights_from_sfh_table as fa,
                          calc_lgmet_weights_from_lognormal_mdf as fm,
                          calc_lgmet_weights_from_lgmet_table as ft,
                          calc_ssp_weights_sfh_table_lognormal_mdf as f1,
                          calc_ssp_weights_sfh_table_met_table as f2)
    shapes = [(60, 12, 40), (30, 9, 9), (20, 22, 5), (2, 5, 7), (3, 3, 4), (4000, 12, 30), (40, 150, 12), (40, 6, 1500)]
    if R.thorough:
        shapes += [(100, 22, 107), (5, 3, 3), (40, 40, 40)]
    for nt, nz, na in shapes:
        for c in R.cases("sweep%d_%d_%d" % (nt, nz, na), 36 if max(nt, nz, na) < 100 else 10, 350 if max(nt, nz, na) < 100 else 40):
            with c:
                r = c.rng
                t = gen.t_table(r, nt) * (r.uniform(1.1, 1.6) if c.index % 4 == 3 else 1.0)
                s, kind = gen.sfh(r, t, gen.SFH_KINDS[c.index % len(gen.SFH_KINDS)])
                g, lg = gen.lgmets(r, nz), gen.lg_ages(r, na)
                to = gen.t_obs(r, t, lg)
                if c.index % 5 == 4:        # observed after the last table time
                    to = float(t[-1] * r.uniform(1.0, 1.4))
                if to - 10 ** ref.age_edges(lg)[0] <= t[0]:
                    continue
                sc = float(10 ** r.uniform(-3, 0))
                kw = {}
                floor = ref.SFR_MIN
                if r.random() < 0.4:
                    floor = 10 ** r.uniform(-10, 1)
                    kw = dict(sfr_min=floor)
                aw, frac = ref.age_weights(t, s, lg, to, floor)
                if not frac > 1e-9:
                    continue
                tol = 1e-9 + 1e-12 / frac
                rnd = 1e-12 + 3e-13 / frac      # rounding of 10**log10(M) against the mass in the bins
                A, B = gen.as_kind(r, t), gen.as_kind(r, s)
                info = dict(kind=kind, nt=nt, nz=nz, na=na, t_obs=to, scatter=sc, floor=floor)
                alone = R.call("calc_age_weights_from_sfh_table", fa, A, B, lg, to, **kw)
                for model in (0, 1):
                    if model == 0:
                        m = float(r.uniform(g[0] - 0.5, g[-1] + 0.5))
                        res = R.call("calc_ssp_weights_sfh_table_lognormal_mdf", f1, A, B, m, sc, g, lg, to, **kw)
                        met = R.call("calc_lgmet_weights_from_lognormal_mdf", fm, m, sc, g)
                        M = met[:, None]
                        Mref = ref.met_weights(m, sc, g)[:, None]
                    else:
                        z, _ = history(r, t)
                        res = R.call("calc_ssp_weights_sfh_table_met_table", f2, A, B, z, sc, g, lg, to, **kw)
                        met = R.call("calc_lgmet_weights_from_lgmet_table", ft, t, z, sc, g, lg, to)
                        M = met * na
                        Mref = ref.met_table_weights(t, z, sc, g, lg, to)[0] * na
                    W = res.weights
                    info["model"] = model
                    R.ok("shape", W.shape == (nz, na), **info)
                    R.finite("finite", W, **info)
                    R.ok("non-negative", W >= -1e-12, **info)
                    R.ok("sum-to-one", abs(W.sum() - 1) < 1e-9, **dict(info, s=W.sum()))
                    R.eq("age-weights-standalone", res.age_weights, alone, rtol=1e-9, atol=rnd, **info)
                    R.eq("met-weights-standalone", res.lgmet_weights, met, rtol=1e-9, atol=1e-12 + 1e-14 / sc, **info)
                    R.eq("joint-equals-product", W, M * alone[None, :], rtol=1e-7, atol=1e-10 + rnd, **info)
                    R.eq("joint-equals-product", W, Mref * aw[None, :], rtol=1e-6, atol=tol + 1e-11 / sc, **info)
                    R.eq("marginal-is-age", W.sum(axis=0), alone, rtol=1e-7, atol=1e-10 + rnd, **info)
                    R.ok("tuple-order", len(res) == 3 and np.array_equal(res[0], W), **info)
