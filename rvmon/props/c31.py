"""C31 filter resampling and effective wavelength."""
import numpy as np

from .. import gen, ref

RULE = ("Collections of 1..8 filters of different length, range, order and shape (lists, tuples, arrays), n from 2 to "
        "several times the longest curve and the default; effective wavelengths of random filters at z 0..20.")
REQUIRED = {"own-range": 80, "uniform": 80, "interpolated": 80, "shape": 60, "inputs-unchanged": 60, "order": 30,
            "effective-wavelength": 80, "inside-filter": 80, "scale-invariant": 60}
ASSUMPTIONS = ["filter wavelengths increase (effective wavelength: or decrease); transmission is non-negative and not all zero"]


def curve(r, n):
    lo = 10 ** r.uniform(2.5, 4.5)
    hi = lo * (1 + 10 ** r.uniform(-2, 0.5))
    k = int(r.integers(4))
    if k == 0:
        w = np.linspace(lo, hi, n)
    elif k == 1:
        w = np.logspace(np.log10(lo), np.log10(hi), n)
    else:
        w = lo + (hi - lo) * np.cumsum(r.uniform(0.02, 1, n)) / n
    u = (w - w[0]) / (w[-1] - w[0])
    t = [np.exp(-0.5 * ((u - 0.5) / 0.2) ** 2), np.ones(n), r.uniform(0, 1, n), np.where(np.abs(u - 0.5) < 0.3, 0.8, 0.0) + 1e-6 * u,
         0.1 + 0.9 * u, r.uniform(0, 1, n) * (r.random(n) < 0.6) + 1e-9][int(r.integers(6))]
    return w, t


def workload(R):
    from dsps.photometry.utils import interpolate_filter_trans_curves as itc
    from dsps.dust.utils import get_filter_effective_wavelength as lam
    for c in R.cases("resample", 60, 800):
        with c:
            r = c.rng
            nf = int(r.choice([1, 2, 3, 6, 8])) if c.index % 20 != 8 else 70
            ns = r.integers(3, 200, nf) if c.index % 20 != 13 else r.integers(1000, 9000, nf)
            if r.random() < 0.2:
                ns[:] = ns[0]
            cu = [curve(r, int(n)) for n in ns]
            if c.index % 4 == 3:        # measured curves scatter below zero
                cu = [(w, t - 0.02 * r.random(t.size) * (r.random(t.size) < 0.5)) for w, t in cu]
            if c.index % 6 == 1:        # wavelengths stored as whole numbers
                k = r.choice(["i8", "i4", "u4"])
                cu = [((np.round(w[0]) + np.cumsum(r.integers(1, 4, w.size))).astype(k), t) for w, t in cu]
            elif c.index % 6 == 5:
                cu = [(w, t.astype("f4")) for w, t in cu]
            ws, ts = [w for w, _ in cu], [t for _, t in cu]
            wtype = int(r.integers(3))
            W, T = (ws, ts) if wtype == 0 else (tuple(ws), tuple(ts)) if wtype == 1 or len(set(ns)) > 1 else (np.array(ws), np.array(ts))
            n = [None, 2, 3, int(ns.min()), int(ns.max()) * 3, int(r.integers(2, 500))][int(r.integers(6))]
            cp = [(w.copy(), t.copy()) for w, t in cu]
            ow, ot = R.call("interpolate_filter_trans_curves", itc, W, T) if n is None and r.random() < 0.5 else \
                R.call("interpolate_filter_trans_curves", itc, W, T, n) if r.random() < 0.5 else R.call("interpolate_filter_trans_curves", itc, W, T, n=n)
            m = int(ns.min()) if n is None else n
            info = dict(ns=ns, n=n)
            if not R.ok("shape", ow.shape == (nf, m) and ot.shape == (nf, m), got=[ow.shape, ot.shape], **info):
                continue
            R.ok("shape", ow.dtype == np.float64 and ot.dtype == np.float64)
            for i, (w, t) in enumerate(cp):
                w, t = w.astype(float), t.astype(float)
                R.ok("own-range", ow[i, 0] == w[0] and abs(ow[i, -1] - w[-1]) <= 1e-12 * w[-1], i=i, got=ow[i], **info)
                R.eq("uniform", ow[i], w[0] + (w[-1] - w[0]) * np.arange(m) / (m - 1), rtol=1e-11, i=i, **info)
                R.eq("interpolated", ot[i], ref.interp_clamped(ow[i], w, t), rtol=1e-10, atol=1e-10 * np.max(np.abs(t)) * w[-1] / np.diff(w).min() * 1e-3, i=i, **info)
                R.eq("endpoints", [ot[i, 0], ot[i, -1]], [t[0], t[-1]], rtol=1e-10, atol=1e-10 * np.abs(t).max(), i=i)
                R.ok("bounded", (ot[i] >= t.min() - 1e-12) & (ot[i] <= t.max() + 1e-12), i=i)
                R.ok("inputs-unchanged", np.array_equal(ws[i], cp[i][0]) and np.array_equal(ts[i], cp[i][1]) and ws[i].dtype == cp[i][0].dtype, i=i)
                R.stat("n_out/n_in", m / len(w))
            # each curve is treated on its own, in order
            p = r.permutation(nf)
            a, b = R.call("interpolate_filter_trans_curves", itc, [ws[i] for i in p], [ts[i] for i in p], m)
            R.eq("order", a, ow[p], rtol=1e-13, **info)
            R.eq("order", b, ot[p], rtol=1e-12, atol=1e-14, **info)
            k = int(r.integers(nf))
            a, b = R.call("interpolate_filter_trans_curves", itc, [ws[k]], [ts[k]], m)
            R.eq("order", a[0], ow[k], rtol=1e-13, **info)
            R.eq("order", b[0], ot[k], rtol=1e-12, atol=1e-14, **info)
            if c.index % 5 == 0:        # damaged curves: whatever comes out, the inputs stay as they are
                hurt = [np.where(r.random(t.size) < 0.2, r.choice([np.nan, np.inf, -np.inf, -0.0, -1.0, 5.0]), t) for t in ts]
                hw = [w.copy() for w in ws]
                hc = [t.tobytes() for t in hurt]
                try:
                    itc(hw, hurt, m)
                except Exception:       # a refusal is fine
                    pass
                R.ok("inputs-unchanged", hc == [t.tobytes() for t in hurt] and all(np.array_equal(x, y) for x, y in zip(hw, ws)), damaged=True)
            ow[...] = -1.0
            ot[...] = -1.0
            R.ok("inputs-unchanged", all(np.array_equal(x, y[0]) for x, y in zip(ws, cp)) and all(np.array_equal(x, y[1]) for x, y in zip(ts, cp)))
    for n in ([2, 3, 40, 6000] if not R.thorough else [2, 3, 40, 500, 6000, 100000]):
        for c in R.cases("effective%d" % n, 50 if n < 1000 else 15, 600 if n < 1000 else 60):
            with c:
                r = c.rng
                w, t = curve(r, n)
                z = gen.special(r, 1e-3, 20, (0.0, 0.5, 1.0))
                info = dict(n=n, z=z)
                L = R.call("get_filter_effective_wavelength", lam, gen.as_kind(r, w), gen.as_kind(r, t), z)
                want = ref.trapz(w, t * w) / ref.trapz(w, t) / (1 + z)
                R.ok("scalar", np.shape(L) == (), shape=np.shape(L))
                R.eq("effective-wavelength", L, want, rtol=1e-11, **info)
                R.ok("inside-filter", w[0] / (1 + z) * (1 - 1e-9) <= L <= w[-1] / (1 + z) * (1 + 1e-9), L=L, lo=w[0], hi=w[-1], **info)
                R.eq("stored-order", R.call("get_filter_effective_wavelength", lam, w[::-1].copy(), t[::-1].copy(), z), L, rtol=1e-12, **info)
                k = 10 ** r.uniform(-12, 12)
                R.eq("scale-invariant", R.call("get_filter_effective_wavelength", lam, w, k * t, z), L, rtol=1e-12, **info)
                R.eq("redshift", R.call("get_filter_effective_wavelength", lam, w, t, 0.0) / (1 + z), L, rtol=1e-13, **info)
                R.eq("wavelength-scaling", R.call("get_filter_effective_wavelength", lam, 2.5 * w, t, z), 2.5 * np.asarray(L), rtol=1e-12, **info)
