"""C12 reddening curves."""
import numpy as np

from .. import gen, ref
from ..core import opt

RULE = ("Wavelengths 0.009..1000 micron, most 0.05..10 (log, linear, exactly at and one ulp around 0.15, 0.2175, 0.55, 0.63), bump "
        "strengths -5..10, slopes -2..1.5, bump centres and widths default and not; curves compared with "
        "published closed forms.")
REQUIRED = {"calzetti": 30, "leitherer": 30, "noll": 60, "salim": 60, "triweight": 30, "reduces": 20,
            "never-negative": 60, "power-law": 30}
ASSUMPTIONS = ["wavelength in micron, positive"]


def wl(r, n):
    k = int(r.integers(5))
    if k == 0:
        w = 10 ** r.uniform(np.log10(0.05), 1, n)
    elif k == 4:            # down to the first wavelengths of stellar libraries, up to dust-emission ones
        w = 10 ** r.uniform(np.log10(0.009), 3, n)
    elif k == 1:
        w = np.linspace(0.0912, 3, n)
    elif k == 2:
        c = np.array([0.15, 0.63, 0.55, 0.2175, 0.12, 2.2, 0.18])
        w = np.concatenate([c, np.nextafter(c, 0), np.nextafter(c, 9), c * 1.0001, c * 0.9999])
        w = np.resize(w, n)
    else:
        w = np.sort(r.uniform(0.09, 1.2, n))
    return w


def workload(R):
    from dsps.dust import att_curves as a
    R.ok("constants", (a.RV_C00, a.UV_BUMP_W0, a.UV_BUMP_DW) == (4.05, 0.2175, 0.0350))
    pieces, bump, ebd = (opt("dsps.dust.att_curves", k) for k in ("_l02_below_c00_above", "_drude_bump", "_get_eb_from_delta"))
    for n in ([60, 400, 1, 2, 5000] if not R.thorough else [60, 400, 1, 2, 5000, 100000]):
        for c in R.cases("sweep%d" % n, 40 if n < 1000 else 10, 500 if n < 1000 else 60):
            with c:
                r = c.rng
                w = wl(r, n)
                W = gen.as_kind(r, w)
                eb = gen.special(r, -5, 10, (0.0, 1.0, 3.5))
                d = gen.special(r, -2, 1.5, (0.0, -0.2, 0.4))
                kw, rk = {}, {}
                args = ()
                if r.random() < 0.5:
                    x0, g = float(r.uniform(0.15, 0.6)), float(10 ** r.uniform(-2.5, 0))
                    rk = dict(x0=x0, g=g)
                    if r.random() < 0.5:
                        kw = dict(uv_bump=x0, uv_bump_width=g)
                    else:
                        args = (x0, g)
                info = dict(n=n, eb=eb, delta=d, **rk)
                R.eq("calzetti", R.call("calzetti00_k_lambda", a.calzetti00_k_lambda, W), ref.calzetti(w), rtol=1e-9, atol=1e-10, **info)
                R.eq("leitherer", R.call("leitherer02_k_lambda", a.leitherer02_k_lambda, W), ref.leitherer(w), rtol=1e-9, atol=1e-10, **info)
                kn = R.call("noll09_k_lambda", a.noll09_k_lambda, W, eb, d, *args, **kw)
                ks = R.call("sbl18_k_lambda", a.sbl18_k_lambda, W, eb, d, *args, **kw)
                sc = 1e-10 * (np.abs(ref.l02c00(w)) + abs(eb)) * np.maximum(1, (w / 0.55) ** d)
                R.eq("noll", kn, ref.noll(w, eb, d, **rk), rtol=1e-9, atol=sc, **info)
                R.eq("salim", ks, ref.salim(w, eb, d, **rk), rtol=1e-9, atol=sc, **info)
                R.ok("never-negative", kn >= 0, **info)
                R.ok("never-negative", ks >= 0, **info)
                R.eq("power-law", R.call("power_law_vband_norm", a.power_law_vband_norm, W, d), (w / 0.55) ** d, rtol=1e-10, **info)
                vb = float(r.uniform(0.3, 1))
                R.eq("power-law", R.call("power_law_vband_norm", a.power_law_vband_norm, W, d, vb), (w / vb) ** d, rtol=1e-10, vb=vb, **info)
                base = np.maximum(np.where(w > 0.15, ref.calzetti(w), ref.leitherer(w)), 0)
                for nm in ("noll09_k_lambda", "sbl18_k_lambda"):
                    R.eq("reduces", R.call(nm, getattr(a, nm), W, 0.0, 0.0), base, rtol=1e-9, atol=1e-10, nm=nm)
                tk = R.call("triweight_k_lambda", a.triweight_k_lambda, W)
                R.eq("triweight", tk, ref.tw_k(w), rtol=1e-9, **info)
                p = dict(xtp=float(r.uniform(-1.5, 0)), ytp=float(r.uniform(0.5, 1.5)), x0=float(r.uniform(0, 1)),
                         tw_h=float(r.uniform(0.1, 1)), lo=float(r.uniform(-1, 0)), hi=float(r.uniform(-3, -1)))
                R.eq("triweight", R.call("triweight_k_lambda", a.triweight_k_lambda, W, **p),
                     ref.tw_k(w, p["xtp"], p["ytp"], p["x0"], p["tw_h"], p["lo"], p["hi"]), rtol=1e-8, **p)
                if pieces is not None:
                    xc = float(r.choice([0.15, r.uniform(0.1, 0.3)]))
                    R.eq("pieces", R.call("l02_below_c00_above", pieces, W, xc), ref.l02c00(w, xc), rtol=1e-9, atol=1e-10, xc=xc)
                if bump is not None:
                    R.eq("bump", R.call("drude_bump", bump, W, 0.3, 0.05, eb), ref.drude(w, 0.3, 0.05, eb), rtol=1e-9, atol=1e-12, **info)
                if ebd is not None:
                    dd = float(r.uniform(-10, 10))
                    R.eq("bump-slope", R.call("eb_from_delta", ebd, dd), 0.85 - 1.9 * dd, rtol=1e-12, atol=1e-12, delta=dd)
                    R.eq("bump-slope", R.call("eb_from_delta", ebd, d), 0.85 - 1.9 * d, rtol=1e-12, atol=1e-13, **info)
                # at its centre the bump adds exactly its amplitude
                x0 = rk.get("x0", 0.2175)
                hi = R.call("noll09_k_lambda", a.noll09_k_lambda, np.array([x0]), 3.0, 0.0, *args, **kw)
                lo = R.call("noll09_k_lambda", a.noll09_k_lambda, np.array([x0]), 0.0, 0.0, *args, **kw)
                R.eq("bump-centre", hi - lo, [3.0], rtol=1e-9, **info)
    for c in R.cases("scalars", 10, 60):
        with c:
            w = float(10 ** c.rng.uniform(-1, 0.5))
            for nm, f in (("calzetti00_k_lambda", ref.calzetti), ("leitherer02_k_lambda", ref.leitherer)):
                v = R.call(nm, getattr(a, nm), w)
                R.eq("scalar", v, f(w), rtol=1e-9, atol=1e-10, w=w)
            R.eq("scalar", R.call("noll09_k_lambda", a.noll09_k_lambda, w, 1.0, -0.3), ref.noll(w, 1.0, -0.3), rtol=1e-9, atol=1e-10)
            R.eq("scalar", R.call("sbl18_k_lambda", a.sbl18_k_lambda, w, 1.0, -0.3), ref.salim(w, 1.0, -0.3), rtol=1e-9, atol=1e-10)
