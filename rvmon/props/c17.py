"""C17 mass-metallicity relation."""
import numpy as np

from .. import gen, ref

RULE = ("log stellar mass 2..14, cosmic time 0.05..20 Gyr with the special times around 12.5 and 12.5-8.44, default "
        "and random parameters inside (and beyond) the documented bounds, scalar and array arguments.")
REQUIRED = {"present-day-law": 100, "evolution-law": 100, "evolution-non-positive": 100, "constant-late": 40,
            "model-is-sum": 100, "models-coincide": 40, "default-monotonic-mass": 20, "default-monotonic-time": 20,
            "maiolino": 40, "published-values": 10}
ASSUMPTIONS = ["masses and times as floating-point numbers or arrays"]

T0 = (0.05, 10.5, 1.0, 0.4, 0.1)
EV = (-1.455, 0.13, -0.959, 0.067242)
EVT = (-1.455, 0.13, 8.44, -0.959, 0.067242)
BOUNDS = dict(t0=[(-1.0, 0.25), (10.25, 10.75), (0.5, 2.0), (0.1, 1.0), (0.0, 0.3)],
              ev=[(-2.0, -1.0), (0.0, 0.5), (-1.5, -0.5), (0.0, 0.5)])
M08 = {0.07: (11.18, 9.04), 0.7: (11.57, 9.04), 2.2: (12.38, 8.99), 3.5: (12.76, 8.79), 3.51: (12.87, 8.90)}


def defaults(R):
    from dsps.metallicity import mzr, umzr, defaults as d
    R.eq("published-values", list(mzr.MZR_T0_PDICT.values()), T0, rtol=1e-12)
    R.ok("published-values", list(mzr.MZR_T0_PDICT) == ["mzr_t0_y0", "mzr_t0_x0", "mzr_t0_k", "mzr_t0_slope_lo", "mzr_t0_slope_hi"])
    R.eq("published-values", list(mzr.MZR_VS_T_PDICT.values()), EVT, rtol=1e-12)
    R.eq("published-values", mzr.DEFAULT_MET_PARAMS, T0 + EVT + (0.1,), rtol=1e-12)
    R.eq("published-values", d.DEFAULT_MET_PARAMS, T0 + EVT + (0.1,), rtol=1e-12)
    R.eq("published-values", umzr.DEFAULT_MZR_PARAMS, T0 + EV, rtol=1e-12)
    R.ok("published-values", umzr.DEFAULT_MZR_PARAMS._fields == (
        "mzr_t0_ytp", "mzr_t0_x0", "mzr_t0_k", "mzr_t0_slope_lo", "mzr_t0_slope_hi",
        "c0_y_at_tlook_c", "c1_y_at_tlook_c", "c0_early_time_slope", "c1_early_time_slope"))
    R.ok("published-values", {k: tuple(v) for k, v in mzr.MAIOLINO08_PARAMS.items()} == M08)
    R.eq("published-values", [mzr.LGMET_SOLAR, umzr.LGMET_SOLAR], [ref.LGZSUN] * 2, rtol=1e-12)


def pick(r, b, wide):
    lo, hi = b
    d = hi - lo
    return float(r.uniform(lo - wide * d, hi + wide * d))


def workload(R):
    from dsps.metallicity import mzr, umzr
    for c, _ in R.each("defaults", [0]):
        with c:
            defaults(R)
    for c in R.cases("laws", 150, 2000):
        with c:
            r = c.rng
            wide = (0.0, 0.0, 0.5)[c.index % 3]
            if c.index % 5 == 0:
                t0, ev, tc = T0, EV, 8.44
            else:
                t0 = tuple(pick(r, b, wide) for b in BOUNDS["t0"])
                ev = tuple(pick(r, b, wide) for b in BOUNDS["ev"])
                tc = float(r.choice([8.44, r.uniform(5, 11)]))
            n = int(r.choice([1, 5, 200])) if c.index % 25 != 12 else 4000
            m = np.sort(r.uniform(2, 14, n)) if c.index % 2 else np.linspace(7, 12, n)
            mode = c.index % 4
            special = [12.5, np.nextafter(12.5, 0), 12.5 - tc, 13.8, 0.05, 20.0, 1.0, 4.06]
            t = float(special[r.integers(8)] if r.random() < 0.5 else r.uniform(0.05, 14))
            if mode == 1:      # a time for each mass
                t = np.where(r.random(n) < 0.3, 12.5, r.uniform(0.05, 15, n))
            elif mode == 2:    # scalar mass, many times
                m, t = float(m[0]), np.sort(r.uniform(0.05, 15, n))
            M, T = (m if isinstance(m, float) else gen.as_kind(r, m)), (t if isinstance(t, float) else gen.as_kind(r, t))
            info = dict(t0=t0, ev=ev, tc=tc, m=m, t=t)
            evt = ev[:2] + (tc,) + ev[2:]
            # umzr: the pivot is fixed, the transition moves
            p0 = ref.mzr_t0(m, *t0)
            pe = ref.mzr_evol(m, t, *ev)
            g0 = R.call("umzr.mzr_model_t0", umzr.mzr_model_t0, M, *t0)
            ge = R.call("umzr.mzr_evolution_model", umzr.mzr_evolution_model, M, T, *ev)
            g = R.call("umzr.mzr_model", umzr.mzr_model, M, T, *t0, *ev)
            R.eq("present-day-law", g0, p0, rtol=1e-10, atol=1e-10, model="umzr", **info)
            R.eq("evolution-law", ge, pe, rtol=1e-10, atol=1e-10, model="umzr", **info)
            R.eq("model-is-sum", g, p0 + pe, rtol=1e-10, atol=1e-10, model="umzr", **info)
            R.ok("evolution-non-positive", np.asarray(ge) <= 0, model="umzr", **info)
            # mzr: the pivot follows the transition mass
            p0b = ref.mzr_t0(m, *t0, xtp=t0[1])
            peb = ref.mzr_evol(m, t, *ev, tc=tc)
            h0 = R.call("mzr.mzr_model_t0", mzr.mzr_model_t0, M, *t0)
            he = R.call("mzr.mzr_evolution_model", mzr.mzr_evolution_model, M, T, *evt)
            h = R.call("mzr.mzr_model", mzr.mzr_model, M, T, *t0, *evt)
            R.eq("present-day-law", h0, p0b, rtol=1e-10, atol=1e-10, model="mzr", **info)
            R.eq("evolution-law", he, peb, rtol=1e-10, atol=1e-10, model="mzr", **info)
            R.eq("model-is-sum", h, p0b + peb, rtol=1e-10, atol=1e-10, model="mzr", **info)
            R.ok("evolution-non-positive", np.asarray(he) <= 0, model="mzr", **info)
            R.stat("evolution", np.min(ge))
            # equal parameters: same curves
            q0 = (t0[0], 10.5) + t0[2:]
            a = R.call("umzr.mzr_model", umzr.mzr_model, M, T, *q0, *ev)
            b = R.call("mzr.mzr_model", mzr.mzr_model, M, T, *q0, *(ev[:2] + (8.44,) + ev[2:]))
            R.eq("models-coincide", a, b, rtol=1e-10, atol=1e-10, **info)
            # later than 12.5 Gyr: nothing changes any more
            if not isinstance(m, float):
                for mod, f, e in (("umzr", umzr.mzr_evolution_model, ev), ("mzr", mzr.mzr_evolution_model, evt)):
                    z = [R.call(mod + ".mzr_evolution_model", f, M, x, *e) for x in (12.5, 12.5 + 10 ** r.uniform(-6, 2), 13.787)]
                    R.eq("constant-late", z[1], z[0], rtol=0, atol=1e-12, model=mod, **info)
                    R.eq("constant-late", z[2], z[0], rtol=0, atol=1e-12, model=mod, **info)
                    zz = R.call(mod + ".mzr_evolution_model", f, M, 12.5 - 0.5, *e)
                    want = ref.mzr_evol(m, 12.0, *ev, tc=(8.44 if mod == "umzr" else tc))
                    R.eq("evolution-law", zz, want, rtol=1e-10, atol=1e-10, model=mod, **info)
    for c in R.cases("defaults-monotonic", 30, 300):
        with c:
            r = c.rng
            m = np.sort(r.uniform(7, 11.5, 300))
            t = np.sort(r.uniform(0.1, 14, 300))
            tt, mm = float(r.uniform(0.1, 14)), float(r.uniform(7, 11.0))
            for name, f, p in (("umzr", umzr.mzr_model, tuple(umzr.DEFAULT_MZR_PARAMS)),
                               ("mzr", mzr.mzr_model, tuple(mzr.DEFAULT_MET_PARAMS[:-1]))):
                a = R.call(name + ".mzr_model", f, m, tt, *p)
                R.ok("default-monotonic-mass", np.diff(a) >= -1e-9, model=name, t=tt, worst=np.diff(a).min())
                b = R.call(name + ".mzr_model", f, mm, t, *p)
                dip = np.max(np.maximum.accumulate(b) - b)
                R.ok("default-monotonic-time", dip <= 0.03, model=name, m=mm, dip=dip)
                R.stat("default-dip-with-time", dip)
    for c in R.cases("maiolino", 50, 300):
        with c:
            r = c.rng
            m = np.sort(r.uniform(6, 13, 50))
            p = list(M08.values())[c.index % 5] if c.index % 2 else (float(r.uniform(10, 14)), float(r.uniform(8, 10)))
            a = R.call("maiolino08_metallicity_evolution", mzr.maiolino08_metallicity_evolution, gen.as_kind(r, m), *p)
            R.eq("maiolino", a, -12.0 - 0.0864 * (m - p[0]) ** 2 + p[1], rtol=1e-12, p=p)
            s = R.call("maiolino08_metallicity_evolution", mzr.maiolino08_metallicity_evolution, float(m[3]), *p)
            R.eq("maiolino", s, a[3], rtol=1e-12)
    for c, _ in R.each("defaults-after", [0]):
        with c:
            defaults(R)
