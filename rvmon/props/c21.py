"""C21 kernels, histograms, sigmoids, outer products."""
import numpy as np
from scipy import integrate
from scipy.optimize import brentq

from .. import gen, ref
from ..core import opt

RULE = ("Kernel centres, widths and points over many decades including the exact +-3 width edges; histogram edges that "
        "cover, miss, split or touch the support, uniform and irregular; sigmoids rising, falling and steep; outer "
        "products with distinct random factors so that any swapped axis shows.")
REQUIRED = {"histogram": 100, "histogram-total": 60, "singlepoint": 100, "singlepoint-total": 100, "nearest-bin": 60,
            "sigmoid": 100, "sigmoid-roundtrip": 100, "outer-2d": 40, "outer-3d": 40, "bin-edges": 60, "density": 60}


def workload(R):
    from dsps import utils as m
    cuml = opt("dsps.utils", "_tw_cuml_kern")
    tws = opt("dsps.utils", "_tw_sigmoid")
    twss = opt("dsps.utils", "_tw_sig_slope")
    sgs = opt("dsps.utils", "_sig_slope")
    single, sig, inv = m._get_triweights_singlepoint, m._sigmoid, m._inverse_sigmoid
    m2, m3, p2, p3 = m._mult_2d_vmap, m._mult_3d_vmap, m._get_weight_matrices_2d, m._get_weight_matrices_3d
    edges = m._get_bin_edges

    def pts(r, x0, h, n):
        z = np.concatenate([r.uniform(-4, 4, n), [-3, 3, 0, -3.0000001, 3.0000001, -2.999999, 2.999999, 1, -1, 1e3, -1e3]])
        return np.sort(x0 + h * z)

    for c in R.cases("kernel", 80, 1000):
        with c:
            r = c.rng
            x0, h = float(r.uniform(-10, 10)), float(10 ** r.uniform(-3, 2))
            if c.index % 5 == 2:            # very narrow kernels
                h = float(10 ** r.uniform(-8, -3))
            zt = 2e-14 / h                  # rounding of (x - x0) / h
            x = pts(r, x0, h, 40 if c.index % 20 != 8 else 5000)
            X = gen.as_kind(r, x)
            info = dict(x0=x0, h=h)
            d = R.call("triweight_gaussian", m.triweight_gaussian, X, x0, h)
            R.eq("density", d * h, ref.tw_pdf(x, x0, h) * h, rtol=1e-9, atol=1e-12 + zt, **info)
            R.ok("density-non-negative", d >= -1e-13 / h, **info)
            R.ok("density-support", (d[np.abs(x - x0) > 3.000001 * h + 1e-14] == 0).all(), **info)
            g = x0 + h * np.linspace(-3.2, 3.2, 2001)
            dg = R.call("triweight_gaussian", m.triweight_gaussian, g, x0, h)
            R.eq("density-integral", integrate.simpson(dg, x=g), 1.0, rtol=1e-6 + zt, **info)
            R.eq("density-symmetric", dg * h, dg[::-1] * h, rtol=1e-6, atol=1e-9 + zt, **info)
            R.eq("density-scalar", R.call("triweight_gaussian", m.triweight_gaussian, float(x[5]), x0, h) * h, d[5] * h, rtol=1e-12, atol=1e-14 + zt)
            if cuml is not None:
                k = R.call("tw_cuml_kern", cuml, X, x0, h)
                R.eq("cumulative", k, ref.tw_cdf((x - x0) / h), rtol=0, atol=1e-9 + zt, **info)
                R.ok("cumulative-monotonic", np.diff(k) >= -1e-12, **info)
                R.ok("cumulative-range", (k >= -1e-12) & (k <= 1 + 1e-12), **info)
                k2 = R.call("tw_cuml_kern", cuml, 2 * x0 - x, x0, h)
                R.eq("cumulative-symmetric", k + k2, np.ones_like(k), rtol=0, atol=1e-9 + 2 * zt, **info)
                ki = R.call("tw_cuml_kern", cuml, g, x0, h)
                cs = integrate.cumulative_simpson(dg, x=g, initial=0.0)
                R.eq("cumulative-is-integral", ki, cs, rtol=0, atol=1e-6 + zt, **info)
            lo, hi = float(r.uniform(-3, 3)), float(r.uniform(-3, 3))
            if tws is not None:
                s = R.call("tw_sigmoid", tws, X, x0, h, lo, hi)
                R.eq("tw-sigmoid", s, ref.tw_sigmoid(x, x0, h, lo, hi), rtol=0, atol=1e-8 + 6 * zt, **info)
            if twss is not None:
                xtp, ytp = float(r.uniform(-10, 10)), float(r.uniform(-3, 3))
                s = R.call("tw_sig_slope", twss, X, xtp, ytp, x0, h, lo, hi)
                R.eq("tw-sig-slope", s, ytp + ref.tw_sigmoid(x, x0, h, lo, hi) * (x - xtp), rtol=1e-8, atol=1e-7 + 1e4 * zt, **info)
                R.eq("tw-sig-slope", R.call("tw_sig_slope", twss, xtp, xtp, ytp, x0, h, lo, hi), ytp, rtol=1e-12, **info)
    for c in R.cases("histogram", 120, 1500):
        with c:
            r = c.rng
            n, nb = int(r.choice([1, 3, 40])), int(r.choice([1, 2, 7, 50]))
            if c.index % 20 == 6:
                n, nb = ((6000, 2), (3, 4000), (1500, 40))[c.index // 20 % 3]
            x = r.uniform(-5, 5, n)
            h = float(10 ** r.uniform(-3, 1))
            if c.index % 5 == 2:
                h = float(10 ** r.uniform(-8, -3))
            zt = 2e-14 / h
            k = r.choice(["cover", "inside", "miss", "touch", "random"])
            a, b = x.min() - 3 * h, x.max() + 3 * h
            if k == "cover":
                e = np.linspace(a - 1e-6 - r.uniform(0, 3), b + 1e-6 + r.uniform(0, 3), nb + 1)
            elif k == "inside":
                e = np.linspace(a + 0.1 * (b - a), b - 0.1 * (b - a), nb + 1)
            elif k == "miss":
                e = np.linspace(b + 1e-6, b + 5, nb + 1)
            elif k == "touch":
                e = np.linspace(a, b, nb + 1)
            else:
                e = np.sort(r.uniform(-8, 8, nb + 1)) + np.arange(nb + 1) * 1e-9
            info = dict(x=x, h=h, e=e, kind=str(k))
            H = R.call("triweighted_histogram", m.triweighted_histogram, gen.as_kind(r, x), h, gen.as_kind(r, e))
            # mass of the kernel centred on each point inside each bin
            F = ref.tw_cdf((e[:, None] - x[None, :]) / h)
            R.eq("histogram", H, np.diff(F, axis=0), rtol=0, atol=1e-8 + zt, **info)
            R.ok("histogram-non-negative", H >= -1e-12, **info)
            if k in ("cover", "touch"):
                R.eq("histogram-total", H.sum(axis=0), np.ones(n), rtol=0, atol=1e-8, **info)
            else:
                R.hit("histogram-total")
                if (H.sum(axis=0) > 1 + 1e-8).any():
                    R.fail("histogram-total", dict(total=H.sum(axis=0).tolist(), **{k_: str(v) for k_, v in info.items()}))
            # one point at a time, normalised
            xi = float(x[0])
            w = R.call("triweights_singlepoint", single, xi, h, gen.as_kind(r, e))
            raw = np.diff(ref.tw_cdf((e - xi) / h))
            R.ok("singlepoint-non-negative", w >= -1e-12, **info)
            if raw.sum() > 1e-6:
                R.eq("singlepoint", w, raw / raw.sum(), rtol=1e-6 + zt, atol=1e-7 + zt / raw.sum(), **info)
                R.eq("singlepoint-total", w.sum(), 1.0, rtol=1e-9, **info)
            for far, at in ((e[0] - 3 * h - 10 ** r.uniform(-6, 3), 0), (e[-1] + 3 * h + 10 ** r.uniform(-6, 3), -1)):
                w = R.call("triweights_singlepoint", single, float(far), h, e)
                want = np.zeros(nb)
                want[at] = 1.0
                R.eq("nearest-bin", w, want, rtol=0, atol=1e-12, far=far, **info)
                R.eq("singlepoint-total", w.sum(), 1.0, rtol=1e-12, **info)
            tiny = float(r.uniform(e[0], e[-1]))
            j = int(np.searchsorted(e, tiny)) - 1
            dj = min(tiny - e[j], e[j + 1] - tiny)
            if dj > 1e-8:
                w = R.call("triweights_singlepoint", single, tiny, dj / 4, e)
                want = np.zeros(nb)
                want[j] = 1.0
                R.eq("singlepoint", w, want, rtol=0, atol=1e-12, tiny=tiny, **info)
                R.eq("singlepoint-total", w.sum(), 1.0, rtol=1e-12, **info)
    # only the far tail of the kernel reaches the grid: the weights are still its mass in each bin
    for c in R.cases("tail-weights", 40, 400):
        with c:
            r = c.rng
            h = float(10 ** r.uniform(-2, 1))
            x0 = float(r.uniform(-3, 3))
            mass = 10 ** r.uniform(-10, -3)
            eps = brentq(lambda v: float(ref.tw_cdf(-3 + v)) - mass, 1e-4, 3)
            nb = int(r.choice([2, 5, 20]))
            z = -3 + eps - np.concatenate([[0.0], np.cumsum(r.uniform(0.02, 0.2, nb) * eps)])[::-1]
            if c.index % 2:         # the grid lies above the mean instead
                z = -z[::-1]
            e = x0 + h * z
            if c.index % 4 > 1:     # a wide last bin away from the kernel
                e = np.concatenate([e, [e[-1] + 5]]) if c.index % 2 else np.concatenate([[e[0] - 5], e])
            w = R.call("triweights_singlepoint", single, x0, h, gen.as_kind(r, e))
            raw = np.diff(ref.tw_cdf((e - x0) / h))
            S = raw.sum()
            R.eq("singlepoint", w, raw / S, rtol=1e-6, atol=1e-6 + 4e-14 / S + 2e-13 / h * S ** -0.25, mass=mass, h=h, e=e, x0=x0)
            R.eq("singlepoint-total", w.sum(), 1.0, rtol=1e-9, mass=mass)
            R.stat("log10-tail-mass", np.log10(S))
    for c in R.cases("sigmoid", 120, 1500):
        with c:
            r = c.rng
            x0, k = float(r.uniform(-20, 20)), float(10 ** r.uniform(-2, 1.5))
            lo, hi = float(r.uniform(-10, 10)), float(r.uniform(-10, 10))
            if abs(hi - lo) < 1e-2:
                hi = lo + 1.0
            if c.index % 5 == 0:
                k = -k
            z = r.uniform(-8, 8, 30)
            z[:8] = r.choice([-1, 1], 8) * 10 ** r.uniform(-6, -0.5, 8)     # next to the midpoint
            if c.index % 4 == 1:            # very shallow
                k *= 10 ** r.uniform(-4, -1)
            x = x0 + z / k
            info = dict(x0=x0, k=k, lo=lo, hi=hi)
            y = R.call("sigmoid", sig, gen.as_kind(r, x), x0, k, lo, hi)
            R.eq("sigmoid", y, ref.sigmoid(x, x0, k, lo, hi), rtol=1e-10, atol=1e-10, **info)
            R.ok("sigmoid-range", (y >= min(lo, hi) - 1e-12) & (y <= max(lo, hi) + 1e-12), **info)
            R.eq("sigmoid-midpoint", R.call("sigmoid", sig, x0, x0, k, lo, hi), 0.5 * (lo + hi), rtol=1e-10, atol=1e-12, **info)
            big = R.call("sigmoid", sig, x0 + np.array([-1e6, 1e6]) / k, x0, k, lo, hi)
            R.eq("sigmoid-limits", big, [lo, hi], rtol=1e-12, atol=1e-12, **info)
            xr = R.call("inverse_sigmoid", inv, y, x0, k, lo, hi)
            scale = (abs(lo) + abs(hi)) / abs(hi - lo) + 1
            R.eq("sigmoid-roundtrip", xr, x, rtol=1e-12, atol=1e-12 * scale * 3e3 / abs(k), **info)
            if c.index % 20 == 3:           # long arrays
                xl = x0 + r.uniform(-8, 8, 6000) / k
                R.eq("sigmoid", R.call("sigmoid", sig, xl, x0, k, lo, hi), ref.sigmoid(xl, x0, k, lo, hi), rtol=1e-10,
                     atol=1e-10, **info)
                q = R.call("inverse_sigmoid", inv, ref.sigmoid(xl, x0, k, lo, hi), x0, k, lo, hi)
                R.eq("sigmoid-roundtrip", q, xl, rtol=1e-12, atol=1e-12 * scale * 3e3 / abs(k), **info)
            f = r.uniform(1e-4, 1 - 1e-4, 20)
            yy = lo + (hi - lo) * f
            back = R.call("sigmoid", sig, R.call("inverse_sigmoid", inv, yy, x0, k, lo, hi), x0, k, lo, hi)
            R.eq("sigmoid-roundtrip", back, yy, rtol=1e-10, atol=1e-10, **info)
            if sgs is not None:
                xtp, ytp = float(r.uniform(-20, 20)), float(r.uniform(-5, 5))
                s = R.call("sig_slope", sgs, x, xtp, ytp, x0, k, lo, hi)
                R.eq("sig-slope", s, ref.sig_slope(x, xtp, ytp, x0, k, lo, hi), rtol=1e-9, atol=1e-9, **info)
                R.eq("sig-slope", R.call("sig_slope", sgs, xtp, xtp, ytp, x0, k, lo, hi), ytp, rtol=1e-12, **info)
    for c in R.cases("bin-edges", 80, 800):
        with c:
            r = c.rng
            n = int(r.choice([3, 4, 10, 60])) if c.index % 20 != 7 else 3000
            d = r.uniform(0.6, 1.4, n)
            mids = np.cumsum(d) * 10 ** r.uniform(-2, 2) - r.uniform(0, 10)
            if c.index % 3 == 0:
                mids = np.linspace(-4, -1.3, n)
            lo, hi = float(mids[0] - 10 ** r.uniform(-2, 2)), float(mids[-1] + 10 ** r.uniform(-2, 2))
            e = R.call("get_bin_edges", edges, gen.as_kind(r, mids), lo, hi)
            info = dict(mids=mids, lo=lo, hi=hi)
            R.eq("bin-edges", e, ref.bin_edges(mids, lo, hi), rtol=1e-10, atol=1e-12, **info)
            mi = np.cumsum(r.integers(1, 3, max(n, 4)))
            if (np.diff(ref.bin_edges(mi, mi[0] - 1, mi[-1] + 1)) > 0).all():
                R.eq("bin-edges", R.call("get_bin_edges", edges, mi, int(mi[0] - 1), int(mi[-1] + 1)),
                     ref.bin_edges(mi, mi[0] - 1, mi[-1] + 1), rtol=1e-12, mids=mi, integers=True)
            R.ok("bin-edges-ends", e[0] == lo and e[-1] == hi, **info)
            R.ok("bin-edges-bracket", (e[:-1] <= mids).all() and (mids <= e[1:]).all(), **info)
            R.ok("bin-edges-ordered", np.diff(e) > 0, **info)
    for c in R.cases("outer", 60, 500):
        with c:
            r = c.rng
            n1, n2, n3, ng = r.permutation([2, 3, 5, 7])[:4]
            if c.index % 3 == 0:
                n1 = n2 = n3 = ng = 3
            a, b, d = r.uniform(-1, 1, n1), r.normal(0, 1, n2), r.uniform(-1, 1, n3)
            R.eq("outer-2d", R.call("mult_2d", m2, gen.as_kind(r, a), b), a[:, None] * b[None], rtol=1e-12)
            R.eq("outer-3d", R.call("mult_3d", m3, a, gen.as_kind(r, b), d), a[:, None, None] * b[None, :, None] * d[None, None], rtol=1e-12)
            A, B, D = r.uniform(-1, 1, (ng, n1)), r.uniform(-1, 1, (ng, n2)), r.normal(0, 1, (ng, n3)) * 10 ** r.uniform(-30, 30)
            R.eq("outer-2d", R.call("weight_matrices_2d", p2, gen.as_kind(r, A), B), A[:, :, None] * B[:, None], rtol=1e-12)
            R.eq("outer-3d", R.call("weight_matrices_3d", p3, A, B, gen.as_kind(r, D)),
                 A[:, :, None, None] * B[:, None, :, None] * D[:, None, None], rtol=1e-12)
            pa, pb = np.abs(a) / np.abs(a).sum(), np.abs(b) / np.abs(b).sum()
            R.eq("outer-total", R.call("mult_2d", m2, pa, pb).sum(), 1.0, rtol=1e-12)
