"""C15 equivalent widths."""
import numpy as np

from .. import ref
from ..core import opt

RULE = ("Uniform and irregular wavelength grids around 1500..20000 AA, window edges on and between pixels, "
        "asymmetric windows, quadratic/noisy continua, emission and absorption lines, out-of-window spikes.")
REQUIRED = {"ew-reference": 40, "zero-for-quadratic": 40, "line-additivity": 40, "outside-irrelevant": 40,
            "scale-invariance": 40, "zero-pixels": 20}
ASSUMPTIONS = ["the two continuum windows hold at least 3 pixels together, enough to determine a parabola"]


def workload(R):
    from dsps.em_lines import equivalent_width as m
    ewk = getattr(m, "_ew_kernel")
    dec = opt("dsps.em_lines.equivalent_width", "_continuum_line_decomp_kern")
    for n in ([300, 120, 6000] if not R.thorough else [300, 120, 60, 2000, 6000, 60000]):
        for c in R.cases("sweep%d" % n, 50 if n < 1000 else 10, 500 if n < 1000 else 60):
            with c:
                r = c.rng
                mid = float(10 ** r.uniform(np.log10(1500), 4.3))
                half = mid * r.uniform(0.02, 0.1)
                wave = np.linspace(mid - half, mid + half, n)
                if r.random() < 0.4:
                    wave = np.sort(wave + r.uniform(-0.4, 0.4, n) * (wave[1] - wave[0]))
                f = np.sort(r.uniform(0, 1, 4))
                # windows as fractions of the half width; line in the middle, gaps of random size
                c1, c2 = mid - half * r.uniform(0.7, 0.98), mid - half * r.uniform(0.3, 0.45)
                lo, hi = mid - half * r.uniform(0.1, 0.28), mid + half * r.uniform(0.1, 0.28)
                c3, c4 = mid + half * r.uniform(0.3, 0.45), mid + half * r.uniform(0.7, 0.98)
                if c.index % 4 == 0:   # edges exactly on pixels (inclusive)
                    snap = lambda v: float(wave[np.argmin(np.abs(wave - v))])
                    c1, c2, lo, hi, c3, c4 = map(snap, (c1, c2, lo, hi, c3, c4))
                if c.index % 7 == 3:   # abutting windows
                    c2, c3 = lo - 1e-6 * half, hi + 1e-6 * half
                lm = float(r.uniform(lo, hi)) if r.random() < 0.5 else mid
                win = (lo, lm, hi, c1, c2, c3, c4)
                x = (wave - mid) / half
                amp = 10 ** r.uniform(-17, 3)
                q = amp * (3 + r.uniform(-0.8, 0.8) * x + r.uniform(-0.8, 0.8) * x * x)
                if c.index % 5 == 4:        # almost flat: the curvature is small but not nothing
                    q = amp * (3 + r.uniform(-1, 1) * 10 ** r.uniform(-6, -2) * x + r.choice([-1, 1]) * 10 ** r.uniform(-6.5, -3) * (wave / mid - 1) ** 2)
                noise = amp * 0.1 * r.normal(0, 1, n)
                info = dict(n=n, win=win, amp=amp)
                if c.index % 5 == 2:        # a continuum below zero (oversubtracted sky) is a continuum all the same
                    q = -q
                spec = q + noise
                W, F = R.call("ew_kernel", ewk, wave, spec, *win)
                w0, f0, cont, fc = ref.ew(wave, spec, *win)
                width = hi - lo
                R.eq("ew-reference", F, f0, rtol=1e-6, atol=1e-7 * amp * width, **info)
                R.eq("ew-reference", W, w0, rtol=1e-6, atol=1e-7 * width, **info)
                Wq, Fq = R.call("ew_kernel", ewk, wave, q, *win)
                R.eq("zero-for-quadratic", Fq, 0.0, rtol=0, atol=1e-7 * amp * width, **info)
                R.eq("zero-for-quadratic", Wq, 0.0, rtol=0, atol=1e-7 * width, **info)
                inl = (wave >= lo) & (wave <= hi)
                blank = spec.copy()         # some pixels of the continuum (and line) are exactly zero
                blank[r.random(n) < r.choice([0.02, 0.2])] = 0.0
                wb, fb, cb, _ = ref.ew(wave, blank, *win)
                if abs(cb) > 0.1 * amp:
                    Wb, Fb = R.call("ew_kernel", ewk, wave, blank, *win)
                    R.eq("zero-pixels", Fb, fb, rtol=1e-6, atol=1e-6 * amp * width, **info)
                    R.eq("zero-pixels", Wb, wb, rtol=1e-5, atol=1e-5 * width, **info)
                line = np.where(inl, amp * r.choice([-0.5, 1, 20, -3]) * np.exp(-0.5 * ((wave - mid) / (0.2 * width)) ** 2), 0.0)
                W1, F1 = R.call("ew_kernel", ewk, wave, spec + line, *win)
                R.eq("line-additivity", F1 - F, ref.trapz(wave, line), rtol=1e-8, atol=1e-9 * amp * width * 20, **info)
                R.eq("line-additivity", W1 - W, ref.trapz(wave, line) / cont, rtol=1e-5, atol=1e-7 * width, **info)
                used = inl | ((wave >= c1) & (wave <= c2)) | ((wave >= c3) & (wave <= c4))
                sp2 = np.where(used, spec, spec * 1e3 + amp)
                W2, F2 = R.call("ew_kernel", ewk, wave, sp2, *win)
                R.eq("outside-irrelevant", [W2, F2 / amp], [W, F / amp], rtol=1e-9, atol=1e-9 * width, **info)
                k = 10 ** r.uniform(-8, 8)
                Wk, Fk = R.call("ew_kernel", ewk, wave, spec * k, *win)
                R.eq("scale-invariance", [Wk, Fk / k / amp], [W, F / amp], rtol=1e-6, atol=1e-7 * width, k=k, **info)
                R.stat("equivalent-width", W1)
                if dec is not None:
                    d = R.call("continuum_line_decomp_kern", dec, wave, spec + line, *win)
                    R.eq("decomposition", [d[0], d[1] / amp], [W1, F1 / amp], rtol=1e-9, atol=1e-10 * width, **info)
                    R.eq("decomposition", d[2], cont, rtol=1e-6, **info)
                    c2_, c1_, c0_ = np.asarray(d[3], float)
                    R.eq("decomposition", c0_ + c1_ * wave + c2_ * wave**2, fc(wave), rtol=1e-5, atol=1e-6 * amp, **info)

    # continuum windows that overlap each other, touch, nest, swap sides or reach into the line window
    for c in R.cases("odd-windows", 49, 420):
        with c:
            r = c.rng
            n = int(r.choice([150, 400]))
            mid = float(10 ** r.uniform(3.3, 4.0))
            half = mid * 0.05
            wave = np.linspace(mid - half, mid + half, n)
            at = lambda u: float(mid + half * u)
            a = r.uniform(0.05, 0.3)
            k = c.index % 7
            if k == 0:      # overlapping each other across the line
                w4 = (-0.9, r.uniform(0.1, 0.6), r.uniform(-0.6, -0.1), 0.9)
            elif k == 1:    # sharing one boundary pixel
                e = (wave[n // 2] - mid) / half
                w4 = (-0.9, e, e, 0.9)
            elif k == 2:    # nested
                w4 = (-0.9, 0.9, -0.5, 0.5)
            elif k == 3:    # identical
                w4 = (-0.8, -0.2, -0.8, -0.2)
            elif k == 4:    # the "high" window on the blue side
                w4 = (0.4, 0.9, -0.9, -0.4)
            elif k == 6:    # one window holds one or two pixels only, the other many
                i = int(r.integers(n // 12, n // 5))
                e1 = 2 * (i - 0.3) / (n - 1) - 1
                e2 = 2 * (i + int(r.integers(2)) + 0.3) / (n - 1) - 1
                w4 = (e1, e2, 0.35, 0.95) if r.random() < 0.5 else (-0.95, -0.35, -e2, -e1)
            else:           # reaching into the line window
                w4 = (-0.9, -a / 2, a / 2, 0.9)
            win = (at(-a), at(r.uniform(-a, a)), at(a)) + tuple(at(u) for u in w4)
            x = (wave - mid) / half
            amp = 10 ** r.uniform(-10, 3)
            q = amp * (3 + r.uniform(-0.8, 0.8) * x + r.uniform(-0.8, 0.8) * x * x)
            if r.random() < 0.25:
                q = -q
            spec = q + amp * 0.3 * r.normal(0, 1, n)
            width = win[2] - win[0]
            info = dict(kind=k, win=win, n=n)
            W, F = R.call("ew_kernel", ewk, wave, spec, *win)
            w0, f0, cont, fc = ref.ew(wave, spec, *win)
            R.eq("ew-reference", F / amp, f0 / amp, rtol=1e-6, atol=1e-6 * width, **info)
            R.eq("ew-reference", W, w0, rtol=1e-5, atol=1e-6 * width, **info)
            Wq, Fq = R.call("ew_kernel", ewk, wave, q, *win)
            R.eq("zero-for-quadratic", Fq / amp, 0.0, rtol=0, atol=1e-6 * width, **info)
            if dec is not None:
                d = R.call("continuum_line_decomp_kern", dec, wave, spec, *win)
                R.eq("decomposition", [d[0], d[1] / amp], [W, F / amp], rtol=1e-8, atol=1e-9 * width, **info)
                R.eq("decomposition", d[2], cont, rtol=1e-5, **info)
    # line windows that hold no pixel, one, or a few (coarsely sampled spectra)
    for c in R.cases("few-line-pixels", 30, 300):
        with c:
            r = c.rng
            n = int(r.choice([30, 80, 200]))
            mid = float(10 ** r.uniform(3.3, 4.0))
            half = mid * 0.05
            wave = np.linspace(mid - half, mid + half, n)
            d = wave[1] - wave[0]
            k = c.index % 5
            i = n // 2 + int(r.integers(-2, 3))
            if k == 0:          # between two pixels
                lo, hi = wave[i] + 0.2 * d, wave[i] + 0.8 * d
            else:
                lo, hi = wave[i] - 0.4 * d, wave[i] + (k - 1 + 0.4) * d
            if k and c.index % 2:      # edges on the pixels themselves
                lo, hi = wave[i], wave[i + k - 1]
            if not hi > lo:
                lo, hi = lo - 1e-6 * d, hi + 1e-6 * d
            win = tuple(float(v) for v in (lo, r.uniform(lo, hi), hi, mid - 0.9 * half, mid - 0.35 * half, mid + 0.35 * half, mid + 0.9 * half))
            x = (wave - mid) / half
            amp = 10 ** r.uniform(-10, 3)
            spec = amp * (3 + r.uniform(-0.8, 0.8) * x + r.uniform(-0.8, 0.8) * x * x + 0.2 * r.normal(0, 1, n))
            inl = (wave >= lo) & (wave <= hi)
            spec = spec + np.where(inl, amp * r.choice([-1, 2, 10]), 0.0)
            info = dict(npix=int(inl.sum()), n=n, win=win)
            W, F = R.call("ew_kernel", ewk, wave, spec, *win)
            w0, f0, cont, fc = ref.ew(wave, spec, *win)
            R.eq("few-pixels", F / amp, f0 / amp, rtol=1e-6, atol=1e-6 * d, **info)
            R.eq("few-pixels", W, w0, rtol=1e-6, atol=1e-6 * d, **info)
            if dec is not None:
                q = R.call("continuum_line_decomp_kern", dec, wave, spec, *win)
                R.eq("decomposition", [q[0], q[1] / amp], [W, F / amp], rtol=1e-8, atol=1e-9 * d, **info)
            R.stat("line-pixels", int(inl.sum()))
