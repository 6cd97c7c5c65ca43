"""C19 burst parameters and the pure-burst age distribution."""
import numpy as np

from .. import gen, ref
from ..core import opt

RULE = ("Unbounded burst parameters over +-10..+-1e6 with extreme corners, bounded parameters up to 1e-6 of an edge, "
        "age grids missing/partly covering/covering the support, ages exactly on the support edges and the peak.")
REQUIRED = {"inside-bounds": 100, "closed-form": 100, "roundtrip-u": 60, "roundtrip-p": 60, "burst-shape": 100,
            "burst-normalised": 100, "burst-support": 100, "burst-symmetric": 60}
ASSUMPTIONS = ["round trips are exact up to the conditioning of the sigmoid"]


def sig(z):
    z = np.float64(z)
    with np.errstate(over="ignore"):
        return 1 / (1 + np.exp(-z)) if z >= 0 else np.exp(z) / (1 + np.exp(z))


def bounded(u):
    fb = -8 + 7 * sig(0.1 * (u[0] + 2))
    pk = 5 + 3 * sig(0.1 * (u[1] - 6.5))
    lo = pk + 1
    mx = lo + (9 - lo) * sig(0.1 * (u[2] - 0.5 * (9 + lo)))
    return np.array([fb, pk, mx])


def edges(p):
    return [(-8, -1), (5, 8), (p[1] + 1, 9)]


def uerr(p):
    out = []
    for v, (lo, hi) in zip(p, edges(p)):
        d = min(v - lo, hi - v) / (hi - lo) * 1.0
        e = 64 * 2.3e-16 * 10 / max(hi - lo, 1e-300) / max(d, 1e-300) / 0.1
        out.append(e)
    return np.array(out)


def workload(R):
    from dsps.sfh import diffburst as db
    fwd = getattr(db, "_get_params_from_u_params")
    inv = getattr(db, "_get_u_params_from_params")
    pure = getattr(db, "_pureburst_age_weights_from_params")
    pureu = opt("dsps.sfh.diffburst", "_pureburst_age_weights_from_u_params")

    def B(u):
        p = R.call("get_params_from_u_params", fwd, db.BurstUParams(*u))
        R.ok("field-names", p._fields == ("lgfburst", "lgyr_peak", "lgyr_max"))
        return np.array([float(x) for x in p])

    def U(p):
        u = R.call("get_u_params_from_params", inv, db.BurstParams(*p))
        R.ok("field-names", u._fields == ("u_lgfburst", "u_lgyr_peak", "u_lgyr_max"))
        return np.array([float(x) for x in u])

    def consts():
        R.eq("defaults", db.DEFAULT_BURST_PARAMS, (-3.0, 5.5, 7.0), rtol=1e-12)
        R.eq("defaults", db.DEFAULT_LGFBURST, -3.0, rtol=1e-12)
        R.eq("defaults", B(db.DEFAULT_BURST_U_PARAMS), (-3.0, 5.5, 7.0), rtol=1e-9)
    for c, _ in R.each("constants", [0]):
        with c:
            consts()
    for c in R.cases("unbounded", 150, 2000):
        with c:
            r = c.rng
            w = [10, 60, 100, 1000, 1e6][c.index % 5]
            u = r.uniform(-w, w, 3)
            if c.index % 6 == 0:
                u[r.integers(3)] = r.choice([-1e9, 1e9, 0.0, -300, 300.])
            p = B(u)
            info = dict(u=u, p=p)
            R.finite("inside-bounds", p, **info)
            for v, (lo, hi) in zip(p, edges(p)):
                R.ok("inside-bounds", lo - 1e-12 <= v <= hi + 1e-12, lo=lo, hi=hi, **info)
            R.eq("closed-form", p, bounded(u), rtol=1e-11, **info)
            if w <= 100 and c.index % 6:
                e = uerr(p) + 1e-11 * np.abs(u)
                if e.max() < 1e-2:
                    R.eq("roundtrip-u", U(p), u, rtol=0, atol=e, **info)
                    R.stat("roundtrip error bound", e.max())
            # increasing, and independent of the others apart from lgyr_max on the peak
            i = int(r.integers(3))
            v = np.clip(u, -60, 60)
            v2 = v.copy()
            v2[i] += 10 ** r.uniform(-2, 1)
            q, q2 = B(v), B(v2)
            R.ok("monotonic", q2[i] > q[i], v=v, v2=v2)
            for j in range(3):
                if j != i and not (i == 1 and j == 2):
                    R.ok("independent", q2[j] == q[j], v=v, v2=v2, j=j)
    for c in R.cases("bounded", 100, 1500):
        with c:
            r = c.rng
            f = r.uniform(0.001, 0.999, 3)
            if c.index % 2:
                f[r.integers(3)] = r.choice([1e-6, 1 - 1e-6, 0.5])
            pk = 5 + 3 * f[1]
            p = np.array([-8 + 7 * f[0], pk, pk + 1 + (8 - pk) * f[2]])
            u = U(p)
            R.finite("roundtrip-p", u, p=p)
            R.eq("roundtrip-p", B(u), p, rtol=1e-10, p=p)
    for c in R.cases("pure-burst", 150, 2000):
        with c:
            r = c.rng
            k = c.index % 3
            pk = r.uniform(5, 8)
            mx = pk + r.uniform(1, max(9 - pk, 1.0))
            if k == 1:
                pk, mx = r.uniform(3, 9), None
                mx = pk + 10 ** r.uniform(-1, 0.6)
            kind = r.choice(["full", "grid", "miss", "edge", "sym", "partial", "skim"])
            h = mx - pk
            if kind == "full":
                x = np.linspace(pk - 1.5 * h, pk + 1.5 * h, int(r.integers(20, 400)))
            elif kind == "grid":
                x = np.arange(5.5, 10.35, 0.05)
            elif kind == "miss":
                x = np.linspace(mx + 1e-6, mx + 3, 50) if r.random() < 0.5 else np.linspace(pk - h - 4, pk - h - 1e-6, 50)
            elif kind == "edge":
                x = np.sort(np.concatenate([[pk - h - 1e-3, pk, mx + 1e-3], r.uniform(pk - h, mx, 20)]))
            elif kind == "skim":      # the support barely reaches the grid: tiny kernel sums still normalise to one
                e = 10 ** r.uniform(-2.3, -1) * h
                x = mx - e + np.concatenate([[0.0], np.sort(r.uniform(2 * e, 4 * h, 20))])
                if r.random() < 0.5:
                    x = np.sort(2 * pk - x)
            elif kind == "sym":
                d = np.sort(r.uniform(0, 1.2 * h, 30))
                x = np.sort(np.concatenate([pk - d, pk + d]))
            else:
                x = np.linspace(pk, pk + 2 * h, 60)
            X = gen.as_kind(r, x)
            a = R.call("pureburst_age_weights", pure, X, float(pk), float(mx))
            info = dict(pk=pk, mx=mx, kind=str(kind), n=len(x))
            R.finite("burst-shape", a, **info)
            w = ref.burst(x, pk, mx)
            if (ref.tw_pdf(x, pk, h / 3).sum() > 1e-8):   # rounding at the very support edge is not judged
                R.eq("burst-shape", a, w, rtol=1e-8, atol=1e-11, **info)
            R.ok("burst-non-negative", a >= -1e-12, **info)
            R.ok("burst-normalised", abs(a.sum() - 1) < 1e-9 or (a == 0).all(), total=a.sum(), **info)
            if kind == "miss":
                R.ok("burst-normalised", (a == 0).all(), **info)
            elif kind != "grid":
                R.ok("burst-normalised", abs(a.sum() - 1) < 1e-9, total=a.sum(), **info)
            out = (x > mx + 1e-9) | (x < pk - h - 1e-9)
            R.ok("burst-support", (a[out] == 0).all(), **info)
            ins = (x < mx - 0.02 * h) & (x > pk - h + 0.02 * h)
            R.ok("burst-support", (a[ins] > 0).all(), **info)
            if kind == "sym":
                R.eq("burst-symmetric", a, a[::-1], rtol=1e-6, atol=1e-10, **info)
                R.ok("burst-peaked", np.diff(a[x >= pk]) <= 1e-12, **info)
            else:
                sh = r.uniform(-2, 2)
                R.eq("burst-symmetric", R.call("pureburst_age_weights", pure, 2 * pk - x, float(pk), float(mx)), a, rtol=1e-6, atol=1e-9, **info)
                b = R.call("pureburst_age_weights", pure, x + sh, float(pk + sh), float(mx + sh))
                if ins.any():
                    R.eq("burst-shift", b, a, rtol=1e-6, atol=1e-9, sh=sh, **info)
            if pureu is not None and k != 1 and 0.05 < h - 1 < 9 - pk - 1.05:
                u = U((-3.0, pk, mx))
                b = R.call("pureburst_age_weights_from_u", pureu, X, float(u[1]), float(u[2]))
                R.eq("burst-from-u", b, a, rtol=1e-6, atol=1e-8, **info)
    for c, _ in R.each("constants-after", [0]):
        with c:
            consts()
