"""C02 lognormal-MDF metallicity weights."""
import numpy as np

from .. import gen, ref

RULE = ("Means inside, on bin edges, on templates, outside the grid and beyond the outermost edges; scatters "
        "from 1e-6 to 3 dex; uniform, jittered and FSPS-like grids of 3 to 40 templates.")
REQUIRED = {"equals-reference": 80, "sum-to-one": 80, "mean-monotone": 10, "zero-scatter-limit": 20,
            "outside-nearest": 15}
ASSUMPTIONS = ["metallicity grids have at least 3 increasing entries, scatter > 0"]


def workload(R):
    from dsps.sed import calc_lgmet_weights_from_lognormal_mdf as f
    sizes = [22, 12, 3, 5, 40, 150, 1500] if not R.thorough else [22, 12, 3, 4, 5, 8, 40, 100, 150, 400, 1500, 6000]
    for n in sizes:
        for c in R.cases("sweep%d" % n, 60 if n < 40 else 24, 600 if n < 1000 else 60):
            with c:
                r = c.rng
                g = gen.lgmets(r, n)
                e = ref.bin_edges(g, -10, 10)
                pick = c.index % 6
                if pick == 0:
                    m = float(g[r.integers(n)])
                elif pick == 1:
                    m = float(e[r.integers(1, n)])
                elif pick == 2:
                    m = float(r.uniform(g[0] - 3, g[0]))
                elif pick == 3:
                    m = float(r.uniform(g[-1], g[-1] + 3))
                elif pick == 4:
                    m = float(r.choice([-10.0, 10.0, -10.0 - 10 ** r.uniform(-3, 1), 10.0 + 10 ** r.uniform(-3, 1)]))
                else:
                    m = float(r.uniform(g[0], g[-1]))
                s = float(10 ** r.uniform(-6, 0.5)) if r.random() < 0.7 else float(r.choice([0.1, 0.2, 0.05, 1.0]))
                if pick == 4 and r.random() < 0.6:      # only the tail of the kernel reaches the outermost edge
                    s = max(s, 1e-3)
                    m = float(r.choice([-1, 1]) * (10 + s * r.uniform(2.0, 3.05)))
                w = R.call("calc_lgmet_weights_from_lognormal_mdf", f, m, s, gen.as_kind(r, g))
                want = ref.met_weights(m, s, g)
                info = dict(mean=m, scatter=s, n=n, grid=g)
                R.finite("finite", w, **info)
                R.ok("non-negative", w >= -1e-12, **dict(info, w=w))
                R.ok("sum-to-one", abs(w.sum() - 1) < 1e-9, **dict(info, w=w))
                R.ok("shape", w.shape == (n,), **info)
                # cancellation in the kernel polynomial is ~1e-16 per unit weight
                R.eq("equals-reference", w, want, rtol=1e-6, atol=1e-9, **info)
                # tiny scatter: everything in the bin holding the mean
                j = int(np.clip(np.searchsorted(e, m, side="right") - 1, 0, n - 1))
                if np.min(np.abs(e[1:-1] - m)) > 1e-7 and abs(m) < 10:
                    s0 = 0.3 * float(np.min(np.abs(e[1:-1] - m)))
                    w0 = R.call("calc_lgmet_weights_from_lognormal_mdf", f, m, s0, g)
                    one = np.zeros(n)
                    one[j] = 1
                    R.eq("zero-scatter-limit", w0, one, rtol=0, atol=1e-9, **info)
                if m < e[1] - 3 * s or m > e[-2] + 3 * s:
                    one = np.zeros(n)
                    one[0 if m < e[1] else -1] = 1
                    R.eq("outside-nearest", w, one, rtol=0, atol=1e-9, **info)
                R.stat("scatter", s)
    for c in R.cases("integer-grids", 20, 200):
        with c:
            r = c.rng
            g = -9 + np.concatenate([[0], np.cumsum(r.choice([1, 2], int(r.integers(2, 6))))])
            m, s = int(r.integers(-10, 0)), int(r.integers(1, 3))
            for kind in ("i8", "i4", "f8"):
                w = R.call("calc_lgmet_weights_from_lognormal_mdf", f, m, s, g.astype(kind))
                R.eq("integer-grid", w, ref.met_weights(m, s, g), rtol=1e-6, atol=1e-9, grid=g, mean=m, scatter=s, kind=kind)
    for c in R.cases("monotone", 15, 150):
        with c:
            r = c.rng
            n = 12
            g = gen.lgmets(r, n)
            s = float(10 ** r.uniform(-2.5, 0.2))
            ms = np.linspace(g[0] - 1, g[-1] + 1, 25)
            W = np.array([R.call("calc_lgmet_weights_from_lognormal_mdf", f, float(m), s, g) for m in ms])
            R.ok("mean-monotone", np.diff(W @ g) >= -1e-9, scatter=s, grid=g, mean=W @ g)
            # whole distribution shifts: cumulative weights never increase
            cw = np.cumsum(W, axis=1)
            R.ok("mean-monotone", np.diff(cw, axis=0) <= 1e-9, scatter=s, grid=g)
            # translating the mean and the grid together changes nothing (inner bins)
            d = float(r.uniform(-1, 1))
            a = R.call("calc_lgmet_weights_from_lognormal_mdf", f, float(g[n // 2]), s, g)
            b = R.call("calc_lgmet_weights_from_lognormal_mdf", f, float(g[n // 2]) + d, s, g + d)
            R.eq("translation", b, a, rtol=0, atol=1e-8, d=d, scatter=s)
    for c in R.cases("abrupt-grids", 6, 40):
        with c:
            r = c.rng
            d = r.uniform(0.02, 0.1)
            k = int(r.integers(3, 6))
            g = np.concatenate([-4 + d * np.arange(k), [-4 + d * (k - 1) + r.uniform(6, 12) * d]])
            g = np.concatenate([g, g[-1] + np.linspace(0.2, 1.5, 6)])
            e = ref.bin_edges(g, -10, 10)
            m = float(g[k - 2])
            w = R.call("calc_lgmet_weights_from_lognormal_mdf", f, m, 0.1, g)
            R.eq("equals-reference", w, ref.met_weights(m, 0.1, g), rtol=1e-6, atol=1e-9)
            neg = w < -1e-12
            bad = np.diff(e) <= 0
            R.ok("non-negative", ~(neg & ~bad), grid=g, w=w)
            R.ok("non-negative", ~neg, key="disordered-metallicity-bin-edges" if bad.any() else None, grid=g, w=w)
