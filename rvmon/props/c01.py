"""C01 age weights."""
import numpy as np

from .. import gen, ref

RULE = ("Histories drawn from %d families (smooth, quenched, bursty, zero, sub-floor, extreme) on linear, "
        "log, random and short time tables, SSP age grids of several sizes and spacings, observation times "
        "on/between table entries and at both ends; plus relational cases (rescaled, future-edited, "
        "floored histories) and reduced-precision inputs." % len(gen.SFH_KINDS))
ASSUMPTIONS = ["SSP age grids have at least 3 entries and t_obs exceeds the first table time by more than "
               "the youngest bin edge", "table times increase"]
REQUIRED = {"equals-reference": 60, "sum-to-one": 60, "non-negative": 60, "rescale-invariant": 10,
            "future-irrelevant": 10, "floor-equivalence": 10}

SHAPES_Q = [(100, 94), (50, 22), (7, 7), (5, 3), (300, 40), (2, 4), (3, 12), (4, 30), (2500, 30), (20000, 94), (60, 3000), (3000, 3000)]
SHAPES_T = SHAPES_Q + [(2, 5), (1000, 107), (20, 4), (94, 94), (64, 200), (3, 3), (11, 60), (100000, 20), (20, 20000)]


def unnormal(w, tol):
    return abs(float(np.sum(w)) - 1.0) <= tol


def workload(R):
    from dsps.sed import calc_age_weights_from_sfh_table as f
    import jax.numpy as jnp
    shapes = SHAPES_T if R.thorough else SHAPES_Q
    for si, (nt, na) in enumerate(shapes):
        for c in R.cases("sweep%dx%d" % (nt, na), 60 if max(nt, na) < 1000 else 20, 700 if max(nt, na) < 1000 else 60):
            with c:
                r = c.rng
                kind = gen.SFH_KINDS[c.index % len(gen.SFH_KINDS)]
                t = gen.t_table(r, nt) * (r.uniform(1.1, 1.6) if c.index % 4 == 3 else 1.0)
                s, kind = gen.sfh(r, t, kind)
                lg = gen.lg_ages(r, na)
                to = gen.t_obs(r, t, lg)
                if to - 10 ** ref.age_edges(lg)[0] <= t[0]:
                    continue
                args = [gen.as_kind(r, t), gen.as_kind(r, s), gen.as_kind(r, lg),
                        jnp.float64(to) if r.random() < 0.3 else to]
                kw = {}
                floor = ref.SFR_MIN
                if r.random() < 0.3:
                    floor = 10 ** r.uniform(-16, 1)
                    kw = dict(sfr_min=floor)
                want, frac = ref.age_weights(t, s, lg, to, floor)
                if not frac > 1e-9:
                    R.hit("skipped-no-resolved-mass")
                    continue
                w = R.call("calc_age_weights_from_sfh_table", f, *args, **kw)
                tol = 1e-9 + 1e-12 / frac
                info = dict(kind=kind, nt=nt, na=na, t_obs=to, floor=floor, resolved=frac)
                R.finite("finite", w, **info)
                R.ok("non-negative", w >= -1e-12, **dict(info, w=w))
                R.ok("sum-to-one", unnormal(w, 1e-9), **dict(info, s=float(np.sum(w))))
                R.eq("equals-reference", w, want, rtol=1e-7, atol=tol, **info)
                R.ok("double", w.dtype == np.float64, dtype=str(w.dtype))
                R.stat("resolved-fraction", frac)
                R.stat("n-nonzero-bins", int((w > 0).sum()))

    nt, na = (80, 40)
    for c in R.cases("relations", 40, 400):
        with c:
            r = c.rng
            t = gen.t_table(r, nt)
            s, kind = gen.sfh(r, t, r.choice(["const", "lognormal", "rise", "bursty", "huge", "step"]))
            s = np.maximum(s, 1e-6)
            lg = gen.lg_ages(r, na)
            to = gen.t_obs(r, t, lg)
            if to - 10 ** ref.age_edges(lg)[0] <= t[0]:
                continue
            w = R.call("calc_age_weights_from_sfh_table", f, t, s, lg, to)
            k = 10 ** r.uniform(0.5, 6)
            w2 = R.call("calc_age_weights_from_sfh_table", f, t, s * k, lg, to)
            # first trapezoid starts from the fixed minimal SFR: relative effect < 1e-8
            R.eq("rescale-invariant", w2, w, rtol=1e-6, atol=1e-7, kind=kind, k=k)
            # entries after the one bracketing the latest birth time do not matter
            edge = to - 10 ** ref.age_edges(lg)[0]
            j = int(np.searchsorted(t, edge, side="left"))
            if j + 1 < nt:
                s3 = s.copy()
                s3[j + 1:] = 10 ** r.uniform(-3, 5, nt - j - 1)
                w3 = R.call("calc_age_weights_from_sfh_table", f, t, s3, lg, to)
                R.eq("future-irrelevant", w3, w, rtol=1e-9, atol=1e-12, kind=kind, j=j)
            fl = 10 ** r.uniform(-3, 1)
            wa = R.call("calc_age_weights_from_sfh_table", f, t, s, lg, to, fl)
            wb = R.call("calc_age_weights_from_sfh_table", f, t, np.maximum(s, fl), lg, to, fl)
            wc = R.call("calc_age_weights_from_sfh_table", f, t, np.maximum(s, fl), lg, to)
            R.eq("floor-equivalence", wa, wb, rtol=1e-10, atol=1e-13)
            R.eq("floor-equivalence", wc, wb, rtol=1e-10, atol=1e-13)
            # reduced precision and integer input
            w32 = R.call("calc_age_weights_from_sfh_table", f, t.astype("f4"), s.astype("f4"),
                         lg.astype("f4"), np.float32(to))
            want, frac = ref.age_weights(t.astype("f4"), s.astype("f4"), lg.astype("f4"), np.float32(to))
            if frac > 1e-3:
                R.eq("float32-close", w32, want, rtol=2e-3, atol=2e-3 / min(1, frac * 10), kind=kind)
            si = r.integers(1, 50, nt)
            wi = R.call("calc_age_weights_from_sfh_table", f, t, si, lg, to)
            R.eq("integer-sfr", wi, ref.age_weights(t, si, lg, to)[0], rtol=1e-7, atol=1e-8)

    for c in R.cases("integer-grids", 12, 100):
        with c:
            r = c.rng
            lg = -6 + np.concatenate([[0], np.cumsum(r.choice([1, 2], 4))])
            t = np.sort(r.choice(np.arange(1, 14), 8, replace=False))
            s = r.integers(1, 9, 8)
            to = int(r.integers(t[1] + 1, 15))
            want, frac = ref.age_weights(t, s, lg, to)
            if frac > 1e-6:
                for kind in ("i8", "i4", "f8"):
                    w = R.call("calc_age_weights_from_sfh_table", f, t, s, lg.astype(kind), to)
                    R.eq("integer-grid", w, want, rtol=1e-7, atol=1e-8, lg=lg, t=t, s=s, to=to, kind=kind)
    # grids whose spacing grows so fast that bin edges fall out of order (KNOWN_FINDINGS)
    for c in R.cases("abrupt-grids", 6, 40):
        with c:
            r = c.rng
            d = r.uniform(0.02, 0.1)
            k = r.integers(2, 6)
            lg = np.concatenate([-3 + d * np.arange(k), [-3 + d * (k - 1) + r.uniform(6, 12) * d]])
            lg = np.concatenate([lg, lg[-1] + np.linspace(0.1, 1.0 - lg[-1], 8)])
            t = np.linspace(0.05, 13.8, 80)
            s = np.full(80, 1.0)
            w = R.call("calc_age_weights_from_sfh_table", f, t, s, lg, 13.0)
            e = ref.age_edges(lg)
            want, frac = ref.age_weights(t, s, lg, 13.0)
            R.eq("equals-reference", w, want, rtol=1e-7, atol=1e-8)
            disordered = bool((np.diff(e) <= 0).any())
            neg = w < -1e-12
            # only bins whose own edges are out of order may be negative
            R.ok("non-negative", ~(neg & (np.diff(e) > 0)), lg=lg, w=w)
            R.ok("non-negative", ~neg, key="disordered-age-bin-edges" if disordered else None, lg=lg, w=w)
