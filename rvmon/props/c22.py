"""C22 power-law density and sampler."""
import numpy as np
from scipy import integrate

from .. import gen

RULE = ("Bounds over 8 decades (intervals from 1e-6-narrow to 13 decades wide), indices positive, negative, fractional, near 0 (1e-3) and 1; "
        "draws of 1..400000 entries each with its own bounds and index.")
REQUIRED = {"density": 60, "density-normalised": 60, "inside-bounds": 60, "reproducible": 40, "uniform-pit": 20,
            "entries-independent": 20, "joint-order": 40, "no-repeats": 4, "reaches-both-ends": 4}
ASSUMPTIONS = ["0 < a < b, index magnitude 0.001..8; sampler statistics at 4.5 sigma or beyond"]


def draw_params(r, n, mild=False, narrow=False, wide=False):
    a = 10 ** r.uniform(-4 if not mild else -1, 4 if not mild else 1, n)
    f = np.where(r.random(n) < 0.2, 10 ** r.uniform(-3, 0, n), 10 ** r.uniform(0, 1.0, n))
    if narrow:
        f = 10 ** r.uniform(-5, -3, n)
    if wide:            # bounds many decades apart, up to the range of the numbers
        f = 10 ** r.uniform(1, 13, n)
    b = a * (1 + f)
    g = r.choice([-1, 1], n) * 10 ** r.uniform(-1.3, 0.9, n)
    k = r.random(n)
    g = np.where(k < 0.1, 1.0, np.where(k < 0.2, -1.0, np.where(k < 0.25, 2.0, g)))
    small = r.random(n) < 0.12
    g = np.where(small, np.sign(g) * 10 ** r.uniform(-3, -1.3, n), g)
    if wide:
        # indices for which the law spreads over all of the interval
        g = np.where(r.random(n) < 0.7, np.sign(g) * 10 ** r.uniform(-2, -0.3, n), np.clip(g, -2, 2))
    return a, b, g


def workload(R):
    from jax import random as jran
    from dsps.utils import powerlaw_pdf as pdf, powerlaw_rvs as rvs
    for c in R.cases("density", 80, 1000):
        with c:
            r = c.rng
            n = 12
            a, b, g = draw_params(r, n, narrow=c.index % 8 == 6, wide=c.index % 8 == 2)
            x = a * (b / a) ** r.random(n)
            if c.index % 2:
                x[:4], x[4:8] = a[:4], b[4:8]
            p = R.call("powerlaw_pdf", pdf, gen.as_kind(r, x), a, b, g)
            # normalisation by logarithms: int_a^b x^(g-1) dx = a^g expm1(g ln(b/a))/g
            norm = a**g * np.expm1(g * np.log(b / a)) / g
            R.eq("density", p, x ** (g - 1) / norm, rtol=1e-7, x=x, a=a, b=b, g=g)
            R.ok("density-positive", p > 0)
            i = int(r.integers(n))
            s = R.call("powerlaw_pdf", pdf, float(x[i]), float(a[i]), float(b[i]), float(g[i]))
            R.eq("density-scalar", s, p[i], rtol=1e-9)
            u = np.linspace(0, 1, 4001)
            grid = a[i] * (b[i] / a[i]) ** u
            q = R.call("powerlaw_pdf", pdf, grid, float(a[i]), float(b[i]), float(g[i]))
            R.eq("density-normalised", integrate.simpson(q * grid * np.log(b[i] / a[i]), x=u), 1.0, rtol=1e-6, a=a[i], b=b[i], g=g[i])
            R.eq("density-proportional", q[17] / q[3001], (grid[17] / grid[3001]) ** (g[i] - 1), rtol=1e-9)
    # large samples of one law: a continuous distribution in double precision repeats no value
    # and comes as close to both bounds as the sample size allows
    M = 200000 if not R.thorough else 2000000
    for c in R.cases("large", 9, 60):
        with c:
            r = c.rng
            lo = float(10 ** r.uniform(-2, 2))
            hi, g0 = lo * float(10 ** r.uniform(0.1, 1)), float(r.choice([1.0, -1.0, 2.0, 0.5, -0.5, r.uniform(1, 3)]))
            if c.index % 3 == 1:            # steep laws
                hi, g0 = lo * float(10 ** r.uniform(0.1, 1.4)), float(r.choice([-1, 1]) * r.uniform(3, 8))
            key = jran.PRNGKey(int(r.integers(2**31)))
            y = R.call("powerlaw_rvs", rvs, key, np.full(M, lo), np.full(M, hi), np.full(M, g0))
            info = dict(lo=lo, hi=hi, g=g0)
            R.ok("no-repeats", len(np.unique(y)) >= M - 5, n=len(np.unique(y)), **info)
            pit = np.sort(np.expm1(g0 * np.log(y / lo)) / np.expm1(g0 * np.log(hi / lo)))
            R.ok("reaches-both-ends", pit[0] < 40 / M and pit[-1] > 1 - 40 / M and pit[0] > -1e-9 and pit[-1] < 1 + 1e-9,
                 least=pit[0], greatest=pit[-1], **info)
            R.ok("uniform-pit", np.max(np.abs(pit - (np.arange(M) + 0.5) / M)) * np.sqrt(M) < 3.3, **info)
            R.ok("tails", abs((pit < 1e-3).sum() - M * 1e-3) < 6 * np.sqrt(M * 1e-3) and
                 abs((pit > 1 - 1e-3).sum() - M * 1e-3) < 6 * np.sqrt(M * 1e-3), **info)
    N = 4000 if not R.thorough else 40000
    for c in R.cases("sampler", 60, 500):
        with c:
            r = c.rng
            n = [1, 7, N, N][c.index % 4]
            a, b, g = draw_params(r, n, narrow=c.index % 8 == 6, wide=c.index % 8 == 2)
            if c.index % 8 == 3:     # one law for all entries
                if c.index % 16 == 3:   # a steep one
                    g[0] = r.choice([-1, 1]) * r.uniform(4, 8)
                    b[0] = a[0] * 10 ** r.uniform(0.2, 1.4)
                a, b, g = np.full(n, a[0]), np.full(n, b[0]), np.full(n, g[0])
            key = jran.PRNGKey(int(r.integers(2**31)))
            y = R.call("powerlaw_rvs", rvs, key, gen.as_kind(r, a), gen.as_kind(r, b), gen.as_kind(r, g))
            tol = 1e-9
            R.ok("inside-bounds", y.shape == (n,) and np.all((y >= a * (1 - tol)) & (y <= b * (1 + tol))), a=a, b=b, g=g, y=y)
            y2 = R.call("powerlaw_rvs", rvs, key, a, b, g)
            R.eq("reproducible", y2, y, rtol=1e-12)
            pit = np.expm1(g * np.log(y / a)) / np.expm1(g * np.log(b / a))
            R.ok("pit-range", (pit >= -1e-6) & (pit <= 1 + 1e-6))
            if n >= 1000:
                s = np.sort(pit)
                D = np.max(np.abs(s - (np.arange(n) + 0.5) / n)) * np.sqrt(n)
                R.ok("uniform-pit", D < 3.3, D=D)
                R.stat("KS*sqrt(n)", D)
                corr = [np.corrcoef(pit[:-k], pit[k:])[0, 1] * np.sqrt(n) for k in (1, 2, 3)]
                R.ok("entries-independent", np.abs(corr) < 6, corr=corr)
                R.ok("entries-independent", len(np.unique(pit)) > 0.99 * n)
                for v in (a, b, g):
                    if v.std() > 0:
                        cc = np.corrcoef(pit, np.argsort(np.argsort(v)))[0, 1] * np.sqrt(n)
                        R.ok("entries-independent", abs(cc) < 6, cc=cc)
                y3 = R.call("powerlaw_rvs", rvs, jran.PRNGKey(int(r.integers(2**31))), a, b, g)
                pit3 = np.expm1(g * np.log(y3 / a)) / np.expm1(g * np.log(b / a))
                R.ok("keys-independent", abs(np.corrcoef(pit, pit3)[0, 1]) * np.sqrt(n) < 6)
            # same key: the draw of an entry is an increasing function of a common uniform,
            # whatever law the entry has
            a2, b2, g2 = draw_params(r, n)
            z = R.call("powerlaw_rvs", rvs, key, a2, b2, g2)
            pz = np.expm1(g2 * np.log(z / a2)) / np.expm1(g2 * np.log(b2 / a2))
            R.ok("joint-order", pz.shape == pit.shape and np.all((pz > -1e-6) & (pz < 1 + 1e-6)))
            edge = R.call("powerlaw_rvs", rvs, key, a, a * (1 + 1e-6), g)
            R.ok("inside-bounds", np.all((edge >= a * (1 - 1e-8)) & (edge <= a * (1 + 1.02e-6))), narrow=True)
    # a large draw: the ends of the support are reached, and nothing piles up there
    for c in R.cases("large-draw", 2, 6):
        with c:
            r = c.rng
            M = 400000
            a, b, g = float(10 ** r.uniform(-2, 2)), 0.0, float(r.choice([-1, 1]) * r.uniform(0.3, 3))
            b = a * 10 ** float(r.uniform(0.3, 1.5))
            y = R.call("powerlaw_rvs", rvs, jran.PRNGKey(int(r.integers(2**31))), np.full(M, a), np.full(M, b), np.full(M, g))
            pit = np.expm1(g * np.log(y / a)) / np.expm1(g * np.log(b / a))
            info = dict(a=a, b=b, g=g, lo=pit.min(), hi=1 - pit.max())
            R.ok("ends-reached", pit.min() < 30 / M and 1 - pit.max() < 30 / M, **info)
            for q in (1e-4, 1e-3, 1e-2):
                for k in ((pit < q).sum(), (pit > 1 - q).sum()):
                    R.ok("ends-reached", abs(k - M * q) < 7 * np.sqrt(M * q), q=q, k=k, **info)
    # whole-number bounds and indices
    for c in R.cases("integers", 20, 200):
        with c:
            r = c.rng
            n = 8
            a = r.integers(1, 5, n)
            b = a + r.integers(1, 9, n)
            g = r.choice([-4, -3, -2, -1, 1, 2, 3], n)
            x = np.clip(r.integers(1, 14, n), a, b)
            want = g * np.power(x * 1.0, g - 1.0) / (np.power(b * 1.0, g * 1.0) - np.power(a * 1.0, g * 1.0))
            R.eq("integer-density", R.call("powerlaw_pdf", pdf, x, a, b, g), want, rtol=1e-9, x=x, a=a, b=b, g=g)
            i = int(r.integers(n))
            R.eq("integer-density", R.call("powerlaw_pdf", pdf, int(x[i]), int(a[i]), int(b[i]), int(g[i])), want[i], rtol=1e-9)
            key = jran.PRNGKey(int(r.integers(2**31)))
            y = R.call("powerlaw_rvs", rvs, key, a, b, g)
            R.ok("inside-bounds", (y >= a * (1 - 1e-9)) & (y <= b * (1 + 1e-9)), a=a, b=b, g=g, y=y)
            R.eq("integer-sampler", y, R.call("powerlaw_rvs", rvs, key, a * 1.0, b * 1.0, g * 1.0), rtol=1e-9, a=a, b=b, g=g)
