"""C16 surviving and remnant mass."""
import numpy as np

from .. import gen, ref
from ..core import opt

RULE = ("log10 ages 4..11 yr, dense ordered grids and random points, scalar/array input, every named "
        "calibration and random parameters near them.")
REQUIRED = {"surviving-curve": 50, "remnant-curve": 50, "surviving-decreases": 20, "remnant-increases": 20,
            "remnant-below-surviving": 20, "calibrations": 5}
IMFS = ["DEFAULT", "SALPETER", "CHABRIER", "KROUPA", "VAN_DOKKUM"]
ASSUMPTIONS = ["ages from 1e4 to 1e11 yr"]


def workload(R):
    from dsps.imf import surviving_mstar as sm, remnant_mass as rm
    fret = opt("dsps.imf.surviving_mstar", "_returned_mass")

    def tables():
        for k in IMFS:
            R.ok("calibrations", dict(getattr(sm, k + "_PARAMS")) == ref.SURV[k], imf=k, got=dict(getattr(sm, k + "_PARAMS")))
            R.ok("calibrations", dict(getattr(rm, k + "_PARAMS")) == ref.REMN[k], imf=k, got=dict(getattr(rm, k + "_PARAMS")))
    tables()
    for n in ([400, 1, 7, 5000] if not R.thorough else [400, 1, 7, 5000, 100000]):
        for c in R.cases("sweep%d" % n, 40 if n < 1000 else 10, 400 if n < 1000 else 60):
            with c:
                r = c.rng
                imf = IMFS[c.index % 5]
                x = np.sort(r.uniform(4, 11, n)) if c.index % 3 else np.linspace(4, 11, n)
                if c.index % 4 == 1:
                    x = np.resize(np.concatenate([[6.5, 7.0, 8.0, 9.0, 10.1], x]), n)
                    x = np.sort(x)
                X = gen.as_kind(r, x)
                ps, pr = ref.SURV[imf], ref.REMN[imf]
                if imf == "DEFAULT":
                    s, m = R.call("surviving_mstar", sm.surviving_mstar, X), R.call("remnant_mass", rm.remnant_mass, X)
                elif c.index % 2:
                    s = R.call("surviving_mstar", sm.surviving_mstar, X, **getattr(sm, imf + "_PARAMS"))
                    m = R.call("remnant_mass", rm.remnant_mass, X, **getattr(rm, imf + "_PARAMS"))
                else:
                    s = R.call("surviving_mstar", sm.surviving_mstar, X, *getattr(sm, imf + "_PARAMS").values())
                    m = R.call("remnant_mass", rm.remnant_mass, X, *getattr(rm, imf + "_PARAMS").values())
                info = dict(imf=imf, n=n)
                R.eq("surviving-curve", s, 1 - ref.returned(x, **ps), rtol=1e-9, **info)
                R.eq("remnant-curve", m, ref.remnant(x, **pr), rtol=1e-9, **info)
                R.ok("surviving-in-0-1", (s > 0) & (s < 1), **info)
                old = x[1:] > 6
                R.ok("surviving-decreases", (np.diff(s) <= 1e-12)[(x[:-1] >= 6)], **info)
                R.ok("remnant-increases", np.diff(m) >= -1e-12, **info)
                R.ok("remnant-positive", m > 0, **info)
                R.ok("remnant-below-surviving", m <= s, **info)
                R.stat("surviving", s.min())
                R.stat("remnant", m.max())
                if fret is not None:
                    R.eq("complement", R.call("returned_mass", fret, x, *ps.values()), 1 - s, rtol=1e-9, atol=1e-12, **info)
                if n == 1:
                    R.eq("scalar", R.call("surviving_mstar", sm.surviving_mstar, float(x[0]), **ps), s[0], rtol=1e-12)
                    R.eq("scalar", R.call("remnant_mass", rm.remnant_mass, float(x[0]), **pr), m[0], rtol=1e-12)
                q = {k: v * (1 + 0.05 * r.normal()) for k, v in ps.items()}
                R.eq("surviving-curve", R.call("surviving_mstar", sm.surviving_mstar, x, **q), 1 - ref.returned(x, **q), rtol=1e-9, q=q)
                q = {k: v * (1 + 0.05 * r.normal()) for k, v in pr.items()}
                R.eq("remnant-curve", R.call("remnant_mass", rm.remnant_mass, x, **q), ref.remnant(x, **q), rtol=1e-9, q=q)
    # changing one calibration table leaves the others and the default behaviour alone
    for c, (mod, want, fn, rf, imf) in R.each("isolation", [(m, w, f, g, k) for m, w, f, g in (
            (sm, ref.SURV, "surviving_mstar", lambda p: 1 - ref.returned(9.0, **p)), (rm, ref.REMN, "remnant_mass", lambda p: ref.remnant(9.0, **p))) for k in IMFS]):
        with c:
            t = getattr(mod, imf + "_PARAMS")
            old = dict(t)
            for key in list(old):
                t[key] = old[key] + 0.5
            try:
                for k in IMFS:
                    if k != imf:
                        R.ok("isolated-tables", dict(getattr(mod, k + "_PARAMS")) == want[k], module=fn, changed=imf, other=k)
                if imf != "DEFAULT":
                    R.eq("isolated-tables", R.call(fn, getattr(mod, fn), 9.0), rf(want["DEFAULT"]), rtol=1e-9, changed=imf)
            finally:
                t.update(old)
    tables()
