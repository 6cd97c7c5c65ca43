"""C03 metallicity-table weights."""
import numpy as np

from .. import gen, ref

RULE = ("Monotone, flat, noisy, step and out-of-range metallicity histories on several time tables; SSP grids "
        "with n_met<n_age, n_met=n_age and n_met>n_age; t_obs across the table; scatters 1e-4..1 dex.")
REQUIRED = {"equals-reference": 60, "columns-equal-total": 60, "constant-history": 10, "sum-to-one": 60,
            "birth-time-order": 5}
ASSUMPTIONS = ["grids have at least 3 increasing entries, table times increase"]


def history(r, t):
    n = len(t)
    k = int(r.integers(6))
    lo, hi = np.sort(r.uniform(-5, -1, 2))
    if k == 0:
        return np.linspace(lo, hi, n), "rise"
    if k == 1:
        return np.linspace(hi, lo, n), "fall"
    if k == 2:
        return np.full(n, hi), "flat"
    if k == 3:
        return r.uniform(-4, -1.5, n), "noise"
    if k == 4:
        return np.where(np.arange(n) < n // 2, lo, hi), "step"
    return np.linspace(-14, 12, n), "extreme"


def workload(R):
    from dsps.sed import calc_lgmet_weights_from_lgmet_table as f
    shapes = [(60, 12, 40), (60, 9, 9), (20, 22, 5), (8, 3, 3), (2, 6, 9), (3, 5, 20), (4, 12, 12),
              (6000, 12, 30), (30, 300, 20), (30, 7, 2000)]
    if R.thorough:
        shapes += [(100, 22, 107), (2, 4, 6), (8, 8, 8), (300, 40, 12)]
    for nt, nz, na in shapes:
        for c in R.cases("sweep%d_%d_%d" % (nt, nz, na), 30 if max(nt, nz, na) < 200 else 10, 300 if max(nt, nz, na) < 200 else 40):
            with c:
                r = c.rng
                t = gen.t_table(r, nt) * (r.uniform(1.1, 1.6) if c.index % 4 == 3 else 1.0)
                z, kind = history(r, t)
                g, lg = gen.lgmets(r, nz), gen.lg_ages(r, na)
                to = gen.t_obs(r, t, lg)
                if r.random() < 0.2:        # later than the table: the last metallicity holds on
                    to = float(t[-1] * r.uniform(1.0, 1.5))
                s = float(10 ** r.uniform(-4, 0))
                W = R.call("calc_lgmet_weights_from_lgmet_table", f, gen.as_kind(r, t), gen.as_kind(r, z), s,
                           gen.as_kind(r, g), gen.as_kind(r, lg), to)
                want, zb = ref.met_table_weights(t, z, s, g, lg, to)
                info = dict(kind=kind, nt=nt, nz=nz, na=na, t_obs=to, scatter=s)
                R.ok("shape", W.shape == (nz, na), **info)
                R.finite("finite", W, **info)
                R.ok("non-negative", W >= -1e-12, **info)
                R.ok("sum-to-one", abs(W.sum() - 1) < 1e-9, **dict(info, s=W.sum()))
                R.eq("columns-equal-total", W.sum(axis=0), np.full(na, 1.0 / na), rtol=1e-9, **info)
                # birth-time interpolation error is amplified by 1/scatter
                R.eq("equals-reference", W * na, want * na, rtol=1e-6, atol=1e-9 + 1e-12 / s, **info)
                if kind == "rise":
                    # older populations are never more metal rich on average
                    mz = (g[:, None] * W).sum(axis=0) * na
                    R.ok("birth-time-order", np.diff(mz) <= 1e-8, **info)
    for c in R.cases("integer-grids", 12, 100):
        with c:
            r = c.rng
            lg = -6 + np.concatenate([[0], np.cumsum(r.choice([1, 2], 4))])
            g = -9 + np.concatenate([[0], np.cumsum(r.choice([1, 2], 4))])
            t = np.sort(r.choice(np.arange(1, 14), 8, replace=False))
            z = -r.integers(1, 8, 8)
            to, s = int(r.integers(t[1] + 1, 15)), int(r.integers(1, 3))
            want = ref.met_table_weights(t, z, s, g, lg, to)[0]
            for kind in ("i8", "i4", "f8"):
                W = R.call("calc_lgmet_weights_from_lgmet_table", f, t, z, s, g.astype(kind), lg.astype(kind), to)
                R.eq("integer-grid", W, want, rtol=1e-6, atol=1e-9, grid=g, ages=lg, kind=kind)
    from dsps.sed import calc_lgmet_weights_from_lognormal_mdf as f1
    for c in R.cases("constant", 15, 150):
        with c:
            r = c.rng
            t = gen.t_table(r, 30)
            g, lg = gen.lgmets(r, 11), gen.lg_ages(r, 17)
            m, s = float(r.uniform(-4.5, -1)), float(10 ** r.uniform(-3, 0))
            W = R.call("calc_lgmet_weights_from_lgmet_table", f, t, np.full(30, m), s, g, lg, gen.t_obs(r, t, lg))
            w1 = R.call("calc_lgmet_weights_from_lognormal_mdf", f1, m, s, g)
            R.eq("constant-history", W, np.repeat(w1[:, None], 17, 1) / 17, rtol=1e-9, atol=1e-12, m=m, s=s)
            # dependence on t_obs: entries of the history later than t_obs bracket do not matter
            z = r.uniform(-4, -1.5, 30)
            to = float(t[r.integers(10, 25)])
            z2 = z.copy()
            j = int(np.searchsorted(t, to)) + 1
            z2[j:] += 1
            a = R.call("calc_lgmet_weights_from_lgmet_table", f, t, z, s, g, lg, to)
            b = R.call("calc_lgmet_weights_from_lgmet_table", f, t, z2, s, g, lg, to)
            R.eq("future-irrelevant", b, a, rtol=1e-10, atol=1e-14)
