"""C20 bursty age weights."""
import numpy as np

from .. import gen, ref
from ..core import opt

RULE = ("Smooth age distributions: random, single-template, lognormal, from real SFHs, zero; bursts across, beyond and shorter than the "
        "documented bounds; parameters as namedtuple, tuple, list, unbounded.")
REQUIRED = {"mixture": 100, "mass-conserved": 60, "from-u": 60, "tuple-call": 60, "vanishing-burst": 40, "linear-in-smooth": 40}


def workload(R):
    from dsps.sfh import diffburst as db
    from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table as aw
    inv = getattr(db, "_get_u_params_from_params")
    k1 = opt("dsps.sfh.diffburst", "_compute_bursty_age_weights_from_params")
    k2 = opt("dsps.sfh.diffburst", "_compute_bursty_age_weights_from_u_params")
    for n in ([60, 94, 12, 3, 3000] if not R.thorough else [60, 94, 12, 3, 500, 3000, 30000]):
        for c in R.cases("mix%d" % n, 50 if 3 < n < 1000 else 12, 500 if 3 < n < 1000 else 60):
            with c:
                r = c.rng
                lga = gen.lg_ages(r, n) if c.index % 2 else np.linspace(-3.5, 1.15, n)
                if c.index % 8 == 2:        # libraries that start well below the youngest burst
                    lga = np.linspace(r.uniform(-8, -4.1), 1.15, n)
                elif c.index % 8 == 3:
                    lga = gen.lg_ages(r, n) - r.uniform(1, 4)
                kind = r.choice(["dirichlet", "delta", "gauss", "sfh", "zero", "old"])
                if kind == "dirichlet":
                    s = r.dirichlet(np.ones(n))
                elif kind == "delta":
                    s = np.zeros(n)
                    s[r.integers(n)] = 1.0
                elif kind == "gauss":
                    s = np.exp(-0.5 * ((lga - r.uniform(-2, 1)) / r.uniform(0.05, 1)) ** 2) + 1e-300
                    s /= s.sum()
                elif kind == "sfh":
                    t = np.linspace(0.1, 13.8, 100)
                    s = R.call("age_weights", aw, t, gen.sfh(r, t, "lognormal")[0], lga, float(r.uniform(3, 13.5)))
                elif kind == "zero":
                    s = np.zeros(n)
                else:
                    s = np.where(lga >= lga[3 * n // 4], 1.0, 0.0)
                    s /= s.sum()
                fb = float(r.choice([r.uniform(-8, -1), -1.0, -8.0, -3.0, r.uniform(-1, 0), 0.0]))
                pk = float(r.uniform(5.01, 7.9))
                mx = float(pk + 1 + (8 - pk) * r.uniform(0.01, 0.99))
                narrow = c.index % 6 == 4    # a burst much shorter than the documented prior allows
                if narrow:
                    mx = float(pk + 10 ** r.uniform(-1, 0))
                p = db.BurstParams(fb, pk, mx)
                S, A = gen.as_kind(r, s), gen.as_kind(r, lga)
                info = dict(p=tuple(p), kind=str(kind), n=n)
                a = R.call("calc_bursty_age_weights", db.calc_bursty_age_weights, p, S, A)
                pure = ref.burst(lga + 9.0, pk, mx)
                f = 10.0**fb
                edge = 0 < ref.tw_pdf(lga + 9.0, pk, (mx - pk) / 3).sum() < 1e-8
                if edge:
                    continue
                R.eq("mixture", a, f * pure + (1 - f) * s, rtol=1e-9, atol=1e-13, **info)
                R.ok("non-negative", a >= -1e-12, **info)
                if kind != "zero" and pure.sum() > 0:
                    R.eq("mass-conserved", a.sum(), 1.0, rtol=1e-9, **info)
                for q in (tuple(p), list(p)):
                    b = R.call("calc_bursty_age_weights", db.calc_bursty_age_weights, q, S, A)
                    R.eq("tuple-call", b, a, rtol=1e-12, atol=1e-300, **info)
                if -7.95 < fb < -1.05 and kind != "zero" and not narrow:
                    u = R.call("u_params", inv, p)
                    b = R.call("calc_bursty_age_weights_from_u_params", db.calc_bursty_age_weights_from_u_params, u, S, A)
                    R.eq("from-u", b, a, rtol=1e-7, atol=1e-12, **info)
                    b = R.call("calc_bursty_age_weights_from_u_params", db.calc_bursty_age_weights_from_u_params, tuple(float(x) for x in u), S, A)
                    R.eq("from-u", b, a, rtol=1e-7, atol=1e-12, **info)
                    if k2 is not None:
                        b = R.call("compute_bursty_age_weights_from_u", k2, lga + 9.0, s, u)
                        R.eq("from-u", b, a, rtol=1e-7, atol=1e-12, **info)
                else:
                    R.hit("from-u", 0)
                if k1 is not None:
                    R.eq("tuple-call", R.call("compute_bursty_age_weights", k1, lga + 9.0, s, p), a, rtol=1e-9, atol=1e-15, **info)
                z = R.call("calc_bursty_age_weights", db.calc_bursty_age_weights, (-30.0, pk, mx), S, A)
                R.eq("vanishing-burst", z, s, rtol=1e-12, atol=1e-29, **info)
                if pure.sum() > 0:
                    z = R.call("calc_bursty_age_weights", db.calc_bursty_age_weights, (0.0, pk, mx), S, A)
                    R.eq("pure-limit", z, pure, rtol=1e-9, atol=1e-13, **info)
                s2 = r.dirichlet(np.ones(n))
                l = float(r.uniform(0, 1))
                a2 = R.call("calc_bursty_age_weights", db.calc_bursty_age_weights, p, s2, A)
                a3 = R.call("calc_bursty_age_weights", db.calc_bursty_age_weights, p, l * s + (1 - l) * s2, A)
                R.eq("linear-in-smooth", a3, l * a + (1 - l) * a2, rtol=1e-9, atol=1e-14, **info)
                # more burst: never fewer stars where only the burst lives
                if pure.sum() > 0 and fb < -0.5:
                    b = R.call("calc_bursty_age_weights", db.calc_bursty_age_weights, (fb + 0.3, pk, mx), S, A)
                    only = (pure > 0) & (s == 0)
                    R.ok("more-burst-more-mass", (b[only] > a[only]).all(), **info)
                    R.eq("burst-mass", (b - 1.0 * a).sum(), 0.0 if kind != "zero" else 10 ** (fb + 0.3) - f, rtol=1e-9, atol=1e-9, **info)
    # whole-number parameters, as floats, integers and numpy integers
    for c in R.cases("integers", 20, 200):
        with c:
            r = c.rng
            lga = np.arange(-5, 2) if c.index % 2 else np.linspace(-3.5, 1.1, 40)
            s = r.dirichlet(np.ones(len(lga)))
            p = (-int(r.integers(1, 9)), int(r.integers(5, 8)), int(r.integers(8, 10)))
            want = 10.0 ** p[0] * ref.burst(lga + 9.0, float(p[1]), float(p[2])) + (1 - 10.0 ** p[0]) * s
            for kind in (float, int, np.int64, np.int32, np.asarray):
                q = [kind(v) for v in p]
                for a in (tuple(q), db.BurstParams(*q)):
                    R.eq("integer-parameters", R.call("calc_bursty_age_weights", db.calc_bursty_age_weights, a, s, lga), want,
                         rtol=1e-6 if kind is np.int32 else 1e-9, atol=1e-13, p=p, kind=str(kind))   # 32-bit integers divide in single precision
