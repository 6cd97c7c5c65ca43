"""C13 attenuation and transmission."""
import numpy as np

from .. import gen, ref
from ..core import opt
from .c12 import wl

RULE = ("Reddening values from -5 to 40 including 0, Av 0..20, floors 0..1 (each a number, one per wavelength, or a grid over both); every named attenuation curve over "
        "far-UV to infrared wavelengths; pairs of calls for monotonicity and composition.")
REQUIRED = {"att-equals-k-av": 100, "att-non-negative": 100, "no-dust": 30, "monotone-av": 50}
ASSUMPTIONS = ["Av >= 0, 0 <= floor <= 1"]


def workload(R):
    from dsps.dust import att_curves as a
    ft = opt("dsps.dust.att_curves", "_frac_transmission_from_k_lambda")
    at = opt("dsps.dust.att_curves", "_att_curve_from_k_lambda")
    for n in ([80, 1, 3000] if not R.thorough else [80, 1, 3000, 50000]):
        for c in R.cases("curves%d" % n, 40 if n < 1000 else 8, 500 if n < 1000 else 60):
            with c:
                r = c.rng
                w = wl(r, n)
                W = gen.as_kind(r, w)
                av = gen.special(r, 1e-4, 20, (0.0, 1.0))
                eb, d = float(r.uniform(-3, 6)), float(r.uniform(-1.5, 1))
                x0, g = float(r.uniform(0.15, 0.4)), float(10 ** r.uniform(-2, -0.5))
                info = dict(n=n, av=av, eb=eb, d=d)
                for nm, k, extra in (("calzetti00_att_curve", ref.calzetti(w), ()),
                                     ("leitherer02_att_curve", ref.leitherer(w), ()),
                                     ("noll09_k_att_curve", ref.noll(w, eb, d), (eb, d)),
                                     ("sbl18_k_att_curve", ref.salim(w, eb, d), (eb, d)),
                                     ("noll09_k_att_curve", ref.noll(w, eb, d, x0, g), (eb, d, x0, g)),
                                     ("sbl18_k_att_curve", ref.salim(w, eb, d, x0, g), (eb, d, x0, g))):
                    f = getattr(a, nm)
                    A = R.call(nm, f, W, av, *extra)
                    sc = 1e-10 * (1 + np.abs(k)) * (av + 1e-300) * 10
                    R.eq("att-equals-k-av", A, np.maximum(k * av / 4.05, 0), rtol=1e-9, atol=sc, nm=nm, **info)
                    R.ok("att-non-negative", A >= 0, nm=nm, **info)
                    R.eq("no-dust", R.call(nm, f, W, 0.0, *extra), np.zeros(n), rtol=0, atol=0, nm=nm)
                    A2 = R.call(nm, f, W, av * 1.5 + 0.01, *extra)
                    R.ok("monotone-av", A2 >= A - 1e-12, nm=nm, **info)
                    T = 10 ** (-0.4 * A)
                    R.ok("never-amplifies", (T <= 1 + 1e-12) & (T >= 0), nm=nm, **info)
    if ft is None:
        return
    for n in ([50, 1, 3000] if not R.thorough else [50, 1, 2, 500, 3000]):
        for c in R.cases("transmission%d" % n, 60 if n < 1000 else 10, 800 if n < 1000 else 60):
            with c:
                r = c.rng
                k = r.uniform(-5, 40, n) if r.random() < 0.5 else np.concatenate([[0.0, -0.0, -1e-300], r.normal(0, 5, n)])[:n]
                av, av2 = gen.special(r, 1e-4, 20, (0.0, 1.0)), float(r.uniform(0, 5))
                fl = gen.special(r, 0.0, 1.0, (0.0, 0.5, 1.0))
                info = dict(av=av, floor=fl, k=k)
                T = R.call("frac_transmission_from_k_lambda", ft, gen.as_kind(r, k), av, fl)
                A = np.maximum(k * av / 4.05, 0)
                R.eq("transmission-formula", T, fl + (1 - fl) * 10 ** (-0.4 * A), rtol=1e-9, atol=1e-300, **info)
                R.ok("transmission-bounds", (T >= fl * (1 - 1e-12)) & (T <= 1 + 1e-12), T=T, **info)
                T0 = R.call("frac_transmission_from_k_lambda", ft, k, av)
                R.eq("default-floor-zero", T0, 10 ** (-0.4 * A), rtol=1e-9, atol=1e-300, **info)
                R.eq("no-dust", R.call("frac_transmission_from_k_lambda", ft, k, 0.0, fl), np.ones(n), rtol=1e-15)
                Tm = R.call("frac_transmission_from_k_lambda", ft, k, av + av2, fl)
                R.ok("monotone-av", Tm <= T + 1e-12, **info)
                Tk = R.call("frac_transmission_from_k_lambda", ft, k + np.abs(r.normal(0, 1, n)), av, fl)
                R.ok("monotone-k", Tk <= T + 1e-12, **info)
                a2 = R.call("frac_transmission_from_k_lambda", ft, k, av2)
                a12 = R.call("frac_transmission_from_k_lambda", ft, k, av + av2)
                R.eq("screens-multiply", a12, T0 * a2, rtol=1e-9, atol=1e-300, **info)
                if c.index % 3 == 0:        # one normalisation and floor per entry, and many at once
                    avs, fls = np.where(r.random(n) < 0.2, 0.0, r.uniform(0, 5, n)), np.where(r.random(n) < 0.3, 0.0, r.random(n))
                    As = np.maximum(k * avs / 4.05, 0)
                    R.eq("transmission-formula", R.call("frac_transmission_from_k_lambda", ft, k, avs, fls), fls + (1 - fls) * 10 ** (-0.4 * As), rtol=1e-9, atol=1e-300, each=True, **info)
                    m = avs[:7, None]
                    R.eq("transmission-formula", R.call("frac_transmission_from_k_lambda", ft, k[None, :], m, fl), fl + (1 - fl) * 10 ** (-0.4 * np.maximum(k * m / 4.05, 0)), rtol=1e-9, atol=1e-300, grid=True, **info)
                if at is not None:
                    R.eq("att-formula", R.call("att_curve_from_k_lambda", at, k, av), A, rtol=1e-12, **info)
