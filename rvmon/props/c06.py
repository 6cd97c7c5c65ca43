"""C06 cumulative mass and quadrature."""
import numpy as np

from .. import gen, ref

RULE = ("Tables of 2..400 points, uniform, log, random, repeated and descending abscissae, magnitudes over 30 "
        "decades, float64/float32/integer input; additivity and linearity relations.")
REQUIRED = {"mstar-reference": 60, "cumtrapz-reference": 40, "trapz-reference": 40, "mstar-monotone": 60,
            "additive": 20, "linear": 20, "narrow-rates": 150}


def workload(R):
    import dsps
    from dsps.utils import cumtrapz, trapz
    from dsps.constants import SFR_MIN, T_BIRTH_MIN, T_TABLE_MIN
    R.ok("constants", (SFR_MIN, T_BIRTH_MIN) == (1e-14, 0.001) and T_TABLE_MIN == 0.01,
         v=[SFR_MIN, T_BIRTH_MIN, T_TABLE_MIN])
    f = dsps.cumulative_mstar_formed
    sizes = [1, 2, 3, 4, 10, 100, 333, 5000, 60000] if not R.thorough else [1, 2, 3, 4, 10, 33, 100, 333, 1000, 5000, 30000]
    for n in sizes:
        for c in R.cases("mstar%d" % n, 30 if n < 1000 else 6, 300 if n < 1000 else 30):
            with c:
                r = c.rng
                t = gen.t_table(r, n) if n > 1 else np.array([r.uniform(0.01, 13)])
                s, kind = gen.sfh(r, t, gen.SFH_KINDS[c.index % len(gen.SFH_KINDS)]) if n > 1 else (r.uniform(0, 9, 1), "pt")
                m = R.call("cumulative_mstar_formed", f, gen.as_kind(r, t), gen.as_kind(r, s))
                want = ref.mstar_formed(t, s)
                scale = np.cumsum(np.abs(np.concatenate([[0.0], np.diff(t)]) * s)) * 1e9 + np.abs(s[0]) * t[0] * 1e9
                info = dict(kind=kind, n=n)
                R.eq("mstar-reference", m, want, rtol=1e-9, atol=1e-12 * scale, **info)
                if kind != "negative":
                    R.ok("mstar-monotone", np.diff(m) >= -1e-12 * np.abs(m).max(), **info)
                    R.ok("mstar-monotone", m >= 0, **info)
                R.ok("double", m.dtype == np.float64, dtype=str(m.dtype))
                # increments depend only on the interval
                if n > 3:
                    j = int(r.integers(1, n - 1))
                    s2 = s.copy()
                    s2[:j] = r.uniform(0, 5, j)
                    m2 = R.call("cumulative_mstar_formed", f, t, s2)
                    d, d2 = np.diff(m)[j:], np.diff(m2)[j:]
                    R.eq("local-increments", d2, d, rtol=1e-6, atol=1e-12 * (m.max() + m2.max() + np.abs(s).max() * 1e10),
                         **info)
                if r.random() < 0.2:
                    mi = R.call("cumulative_mstar_formed", f, t, r.integers(0, 9, n))
                    R.ok("integer-input-float-output", mi.dtype == np.float64, dtype=str(mi.dtype))
                # the rates may be stored in a narrower type than the times: the times keep their precision
                for kind in ("f4", "i8", "i4"):
                    q = (r.uniform(0, 50, n) * 10 ** r.uniform(-3, 2)).astype(kind)
                    mq = R.call("cumulative_mstar_formed", f, t, q)
                    R.eq("narrow-rates", mq, ref.mstar_formed(t, q.astype(float)), rtol=4e-7 if kind == "f4" else 1e-9, atol=1e-3,
                         kind=kind, n=n)
        for c in R.cases("quad%d" % n, 20 if n < 1000 else 5, 200 if n < 1000 else 20):
            if n == 1:
                continue
            with c:
                r = c.rng
                k = int(r.integers(5))
                x = {0: lambda: np.linspace(-3, 7, n), 1: lambda: np.logspace(-6, 6, n),
                     2: lambda: np.sort(r.normal(0, 1, n)), 3: lambda: np.linspace(5, -2, n),
                     4: lambda: np.repeat(np.sort(r.normal(0, 1, n // 2 + 1)), 2)[:n]}[k]()
                y = r.normal(0, 1, n) * 10 ** r.uniform(-15, 15)
                y2 = r.normal(0, 1, n) * np.abs(y).max()
                sc = np.abs(ref.trap_steps(x, np.abs(y))).sum() + np.abs(np.diff(x)).sum() * np.abs(y).max() * 1e-3
                A = R.call("cumtrapz", cumtrapz, gen.as_kind(r, x), gen.as_kind(r, y))
                B = R.call("trapz", trapz, gen.as_kind(r, x), gen.as_kind(r, y))
                info = dict(n=n, kind=k)
                R.eq("cumtrapz-reference", A, ref.cumtrapz(x, y), rtol=1e-10, atol=1e-12 * sc, **info)
                R.eq("trapz-reference", B, ref.trapz(x, y), rtol=1e-10, atol=1e-12 * sc, **info)
                R.eq("agree-at-end", A[-1], B, rtol=1e-10, atol=1e-12 * sc, **info)
                R.ok("starts-at-zero", A[0] == 0, **info)
                a, b = r.normal(0, 2, 2)
                sc2 = (abs(a) + abs(b)) * np.abs(np.diff(x)).sum() * np.abs(np.concatenate([y, y2])).max()
                R.eq("linear", R.call("trapz", trapz, x, a * y + b * y2),
                     a * B + b * R.call("trapz", trapz, x, y2), rtol=1e-9, atol=1e-12 * sc2, **info)
                if n >= 3:
                    j = int(r.integers(1, n - 1))
                    lo = R.call("trapz", trapz, x[:j + 1], y[:j + 1]) if n < 12 else ref.trapz(x[:j + 1], y[:j + 1])
                    R.eq("additive", A[j], lo, rtol=1e-9, atol=1e-12 * sc, **info)
                    R.eq("additive", A[-1] - A[j], ref.trapz(x[j:], y[j:]), rtol=1e-9, atol=1e-11 * sc, **info)
                R.eq("reversal", R.call("trapz", trapz, x[::-1].copy(), y[::-1].copy()), -B, rtol=1e-9, atol=1e-12 * sc)
                if r.random() < 0.3:
                    xi = np.cumsum(r.integers(1, 5, n))
                    yi = r.integers(-9, 9, n)
                    R.eq("integer-input", R.call("trapz", trapz, xi, yi), ref.trapz(xi, yi), rtol=1e-10, atol=1e-9)
                    R.eq("integer-input", R.call("cumtrapz", cumtrapz, xi.astype(float), yi), ref.cumtrapz(xi, yi),
                         rtol=1e-10, atol=1e-9)
                x32, y32 = x.astype("f4"), (y / np.abs(y).max()).astype("f4")
                R.eq("float32", R.call("cumtrapz", cumtrapz, x32, y32), ref.cumtrapz(x32, y32), rtol=1e-4,
                     atol=1e-5 * (np.abs(np.diff(x32)).sum() + 1e-30))
