"""C18 MZR parameter transforms."""
import numpy as np

RULE = ("Unbounded vectors drawn over +-20, +-100, +-1000 and +-1e6 with single extreme entries, bounded vectors drawn "
        "inside the documented bounds up to 1e-9 of an edge, one-at-a-time perturbations, 400+ random keys.")
REQUIRED = {"inside-bounds": 100, "slope-hi-below-slope-lo": 100, "roundtrip-u": 30, "roundtrip-p": 60,
            "independent": 200, "monotonic": 200, "closed-form": 100, "random-params": 50, "reproducible": 30}
ASSUMPTIONS = ["round trips are exact up to the conditioning of the sigmoid (error bound eps/(k s(1-s)))"]

NAMES = ("mzr_t0_ytp", "mzr_t0_x0", "mzr_t0_k", "mzr_t0_slope_lo", "mzr_t0_slope_hi",
         "c0_y_at_tlook_c", "c1_y_at_tlook_c", "c0_early_time_slope", "c1_early_time_slope")
LO = np.array([-1.0, 10.25, 0.5, 0.1, 0.0, -2.0, 0.0, -1.5, 0.0])
HI = np.array([0.25, 10.75, 2.0, 1.0, 0.3, -1.0, 0.5, -0.5, 0.5])
K = 0.1
IHI, ILO = 4, 3


def sig(z):
    z = np.asarray(z, float)
    with np.errstate(over="ignore"):
        return np.where(z >= 0, 1 / (1 + np.exp(-np.abs(z))), np.exp(-np.abs(z)) / (1 + np.exp(-np.abs(z))))


def bounded(u):
    mid = 0.5 * (LO + HI)
    p = LO + (HI - LO) * sig(K * (u - mid))
    p[IHI] = p[ILO] * sig(K * u[IHI])
    return p


def unbounded(p):
    lo, hi, mid = LO.copy(), HI.copy(), 0.5 * (LO + HI)
    hi[IHI], mid[IHI] = p[ILO], 0.0
    s = (p - lo) / (hi - lo)
    return mid + np.log(s / (1 - s)) / K


def uerr(u):
    """Error of the unbounded value that rounding of the bounded one can cause."""
    mid = 0.5 * (LO + HI)
    mid[IHI] = 0.0
    s = sig(K * (u - mid))
    scale = (np.abs(LO) + np.abs(HI)) / (HI - LO) + 1
    scale[IHI] = 30.0
    return 64 * np.finfo(float).eps * scale / (K * s * (1 - s)) + 1e-12 * np.abs(u)


def workload(R):
    from jax import random as jran
    from dsps.metallicity import umzr

    def consts():
        b = umzr.MZR_PBOUNDS
        R.ok("documented-bounds", b._fields == NAMES)
        R.eq("documented-bounds", [x[0] for x in b], LO, rtol=1e-12)
        R.eq("documented-bounds", [x[1] for x in b], HI, rtol=1e-12)
        R.ok("documented-bounds", umzr.MZRUParams._fields == tuple("u_" + k for k in NAMES))
        d = np.array(umzr.DEFAULT_MZR_PARAMS, float)
        du = np.array(umzr.DEFAULT_MZR_U_PARAMS, float)
        R.eq("closed-form", du, unbounded(d), rtol=1e-9, atol=1e-9)
        R.eq("roundtrip-p", np.array(R.call("get_bounded_mzr_params", umzr.get_bounded_mzr_params,
                                            umzr.DEFAULT_MZR_U_PARAMS)), d, rtol=1e-10)
    for c, _ in R.each("constants", [0]):
        with c:
            consts()

    def B(u, kind=0):
        vals = [float(x) for x in u] if kind else list(u)
        p = R.call("get_bounded_mzr_params", umzr.get_bounded_mzr_params, umzr.MZRUParams(*vals))
        R.ok("field-names", type(p).__name__ == "MZRParams" and p._fields == NAMES, got=str(type(p)))
        return np.array([getattr(p, n) for n in NAMES], float)

    def U(p, kind=0):
        vals = [float(x) for x in p] if kind else list(p)
        u = R.call("get_unbounded_mzr_params", umzr.get_unbounded_mzr_params, umzr.MZRParams(*vals))
        R.ok("field-names", type(u).__name__ == "MZRUParams" and u._fields == tuple("u_" + k for k in NAMES), got=str(type(u)))
        return np.array([getattr(u, "u_" + n) for n in NAMES], float)

    for c in R.cases("unbounded", 120, 2000):
        with c:
            r = c.rng
            w = [20, 100, 1000, 1e6][c.index % 4]
            u = r.uniform(-w, w, 9)
            if c.index % 3 == 0:
                u = r.uniform(-10, 10, 9)
                u[r.integers(9)] = r.choice([-1e9, 1e9, -500.0, 500.0, 0.0])
            p = B(u, c.index % 2)
            info = dict(u=u, p=p)
            R.finite("inside-bounds", p, **info)
            hi = HI.copy()
            hi[IHI] = p[ILO]
            R.ok("inside-bounds", (p >= LO - 1e-12) & (p <= hi + 1e-12), **info)
            R.ok("slope-hi-below-slope-lo", 0.0 <= p[IHI] <= p[ILO] + 1e-12, **info)
            R.eq("closed-form", p, bounded(u), rtol=1e-10, atol=1e-12, **info)
            if w <= 100 and c.index % 3:
                e = uerr(u)
                R.eq("roundtrip-u", U(p, c.index % 2), u, rtol=0, atol=e, **info)
                R.stat("roundtrip-u error bound", e.max())
    for c in R.cases("bounded", 100, 1500):
        with c:
            r = c.rng
            f = r.uniform(0.001, 0.999, 9)
            if c.index % 2:
                i = r.integers(9)
                f[i] = r.choice([1e-6, 1 - 1e-6, 1e-3, 0.5, 10 ** r.uniform(-9, -3), 1 - 10 ** r.uniform(-9, -3)])
            p = LO + (HI - LO) * f
            p[IHI] = p[ILO] * f[IHI]
            u = U(p, c.index % 3 == 0)
            R.finite("roundtrip-p", u, p=p)
            R.eq("closed-form", u, unbounded(p), rtol=1e-7, atol=1e-6 + uerr(unbounded(p)), p=p)
            R.eq("roundtrip-p", B(u), p, rtol=1e-9, atol=1e-11, p=p)
    for c in R.cases("one-at-a-time", 40, 400):
        with c:
            r = c.rng
            u = r.uniform(-40, 40, 9)
            p = B(u)
            for i in range(9):
                v = u.copy()
                v[i] += r.choice([-1, 1]) * 10 ** r.uniform(-3, 1.3)
                q = B(v)
                info = dict(u=u, v=v, i=i, p=p, q=q)
                R.ok("monotonic", (q[i] - p[i]) * (v[i] - u[i]) > 0, **info)
                m = np.arange(9) != i
                if i == ILO:
                    m[IHI] = False
                    R.ok("monotonic", (q[IHI] - p[IHI]) * (v[i] - u[i]) > 0, what="slope_hi follows slope_lo", **info)
                R.ok("independent", p[m] == q[m], **info)
                # and the inverse: u_i depends on p_i only (u_slope_hi also on slope_lo)
                uu, vv = U(p), U(np.where(np.arange(9) == i, q, p) if i != ILO else q)
                R.ok("independent", uu[m] == vv[m], inverse=True, **info)
    for c in R.cases("random-t0", 60, 600):
        with c:
            r = c.rng
            key = jran.PRNGKey(int(r.integers(2**31)))
            if c.index % 2:
                bd = umzr.MZR_T0_PBDICT
                p = R.call("get_ran_t0_params", umzr.get_ran_t0_params, key)
            else:
                from collections import OrderedDict
                lo = r.uniform(-5, 5, 4)
                bd = OrderedDict((("a", (lo[0], lo[0] + 1)), ("b", (lo[1], lo[1] + 1e-3)), ("c", (lo[2], lo[2] + 50)), ("d", (0.0, 1.0))))
                p = R.call("get_ran_t0_params", umzr.get_ran_t0_params, key, bd)
            b = np.array(list(bd.values()))
            p = np.array(p, float)
            R.ok("random-params", p.shape == (len(b),) and np.all((p >= b[:, 0] - 1e-9) & (p <= b[:, 1] + 1e-9)), p=p, b=b)
            f = (p - b[:, 0]) / (b[:, 1] - b[:, 0])
            R.ok("random-distinct", len(set(np.round(f, 9))) == len(f), f=f)
            q = R.call("get_ran_t0_params", umzr.get_ran_t0_params, key, bd)
            R.same("reproducible", p, np.array(q, float))
            k2 = jran.PRNGKey(int(r.integers(2**31)))
            R.ok("random-distinct", not np.array_equal(p, np.array(R.call("get_ran_t0_params", umzr.get_ran_t0_params, k2, bd), float)))
    # draws fill each interval (deterministic keys: the statistic is a constant of the code)
    for c, n in R.each("random-spread", [400]):
        with c:
            P = np.array([np.array(R.call("get_ran_t0_params", umzr.get_ran_t0_params, jran.PRNGKey(i)), float) for i in range(n)])
            b = np.array(list(umzr.MZR_T0_PBDICT.values()), float)
            F = np.sort((P - b[:, 0]) / (b[:, 1] - b[:, 0]), axis=0)
            D = np.max(np.abs(F - (np.arange(n)[:, None] + 0.5) / n), axis=0) * np.sqrt(n)
            R.ok("random-spread", D < 2.5, D=D)
            cc = np.corrcoef(((P - b[:, 0]) / (b[:, 1] - b[:, 0])).T) - np.eye(5)
            R.ok("random-spread", np.abs(cc) < 0.25, c=np.abs(cc).max())
    for c, _ in R.each("constants-after", [0]):
        with c:
            consts()
