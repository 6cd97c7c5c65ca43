"""C24 filter curves."""
import os
import pathlib
import random
import shutil

import numpy as np

from .. import boot, h5tools as h

RULE = ("Random transmission files in scratch directories; violations of the physical range of every size down to 1e-4 "
        "beyond the tolerance at the first, last and random pixels; one missing sample; patterns with one, no and several matches; "
        "fn/drn/DSPS_DRN precedence; directories with special characters; damaged files; random-curve keys, centres, "
        "ranges and widths.")
REQUIRED = {"wave-exact": 60, "clipped": 60, "too-negative": 60, "too-large": 60, "names-file": 60, "no-match": 20,
            "ambiguous": 20, "precedence": 30, "missing-variable": 5, "missing-file": 20, "handles-released": 100,
            "file-unchanged": 100, "random-peak": 60, "random-reproducible": 40}
ASSUMPTIONS = ["finite stored transmissions; random curves whose width is at least a tenth of the pixel spacing (narrower ones vanish on their own grid)"]


def workload(R):
    from dsps.data_loaders import load_transmission_curve as load, load_random_transmission_curve as rnd
    from jax import random as jran
    root = boot.scratch()
    os.environ.pop("DSPS_DRN", None)

    def watch(fn_, *a, **k):
        t0 = h.tree(root)
        try:
            return fn_(*a, **k)
        finally:
            R.ok("handles-released", h.open_objects() == 0 and not h.fds(root), fds=h.fds(root), objects=h.open_objects())
            R.ok("file-unchanged", h.tree(root) == t0)

    def L(*a, **k):
        return watch(R.call, "load_transmission_curve", load, *a, **k)

    def bad(monitor, exc, **k):
        return watch(R.raises, monitor, load, exc=exc, **k)

    def curve(r, n=None):
        n = n or int(r.integers(2, 60))
        w = np.sort(r.uniform(1000, 20000, n))
        t = r.uniform(0, 1, n)
        return w, t

    def put(fn, w, t):
        h.write(fn, dict(wave=w, transmission=t))

    def same(monitor, got, w, t, **info):
        R.hit(monitor)
        R.ok("type", type(got).__name__ == "TransmissionCurve" and got._fields == ("wave", "transmission"))
        R.ok("wave-exact", got.wave.dtype == w.dtype and got.wave.tobytes() == w.tobytes() and got.wave.shape == w.shape, got=got.wave, want=w, **info)
        R.eq("clipped", got.transmission, np.clip(t, 0, 1), rtol=0, atol=0, **info)
        if np.asarray(got.transmission).shape != np.asarray(t).shape or not np.array_equal(got.transmission, np.clip(t, 0, 1)):
            R.fail(monitor, dict(info))

    for c in R.cases("content", 70, 700):
        with c:
            r = c.rng
            w, t = curve(r, None if c.index % 10 != 6 else 30000)
            k = c.index % 6
            if k == 1:
                t[r.integers(t.size)] = -0.0099 * r.random()
            if k == 2:
                t[r.integers(t.size)] = 1 + 0.0099 * r.random()
            if k == 3:
                t = np.concatenate([[0.0, -0.005], t[1:-1], [1.005]])[:w.size]
                w = w[:t.size]
            if k == 4:
                t = np.zeros_like(t)
            if k == 5:
                w, t = w.astype(np.float32), t.astype(np.float32)
            if r.random() < 0.4:        # the faint wings of a passband count as they are
                j = r.random(t.size) < 0.5
                t[j] = 10.0 ** r.uniform(-300 if r.random() < 0.3 else -15, -1, int(j.sum())) if t.dtype == np.float64 else np.float32(1e-9)
            if c.index % 8 == 5:        # whole-number wavelengths
                w = np.sort(r.choice(60000, t.size, replace=False) + (0 if c.index % 16 == 5 else 2**26)).astype(r.choice(["i4", "i8", "u4"]))
            elif c.index % 8 == 6:
                w = w.astype(r.choice(["f2", "f4", ">f8", ">f4"]))
            if c.index % 7 == 0:
                w = w[::-1].copy()
            fn = os.path.join(root, "c%d.h5" % c.index)
            put(fn, w, t)
            got = L(fn=fn) if c.index % 2 else L(fn)
            same("content", got, w, t)
            np.asarray(got.wave)[...] = 0
            same("content", L(fn=fn), w, t, second=True)
            w2, t2 = curve(r)
            put(fn, w2, t2)
            same("fresh", L(fn=fn), w2, t2)
            os.remove(fn)
            bad("missing-file", Exception, fn=fn)

    for c in R.cases("unphysical", 70, 700):
        with c:
            r = c.rng
            w, t = curve(r, [None, None, None, 1500][c.index % 4])
            pos = [0, t.size - 1, int(r.integers(t.size))][c.index % 3]
            amp = 10 ** r.uniform(-7, 2)
            fn = os.path.join(root, "u%d.h5" % c.index)
            for mon, v in (("too-negative", -0.01 - amp), ("too-large", 1.01 + amp)):
                x = t.copy()
                x[pos] = v
                put(fn, w, x)
                e = bad(mon, ValueError, fn=fn)
                R.ok("names-file", e is None or fn in str(e), message=str(e))
            # whatever the size of the excess: percentages, counts, fill values
            for v in (1.5, 2.0, float(r.uniform(50, 100)), 100.0, 255.0, 10 ** r.uniform(2, 30), 9.969209968386869e36, np.inf):
                x = t.copy()
                if r.random() < 0.5:
                    x *= v
                x[pos] = v
                put(fn, w, x)
                bad("too-large", ValueError, fn=fn)
                x = t.copy()
                x[pos] = -v
                put(fn, w, x)
                bad("too-negative", ValueError, fn=fn)
            x = t.copy()
            x[:] = 1.01 + amp
            put(fn, w, x)
            bad("too-large", ValueError, fn=fn)
            x = -x
            put(fn, w, x)
            bad("too-negative", ValueError, fn=fn)
            x = t.copy()
            x[0], x[-1] = -0.01 - amp, 1.5
            put(fn, w, x)
            bad("too-negative", ValueError, fn=fn)
            x[0], x[-1] = -0.005, 1.01 + amp
            put(fn, w, x)
            bad("too-large", ValueError, fn=fn)
            # the same through a pattern
            e = bad("too-large", ValueError, drn=root, bn_pat="u%d*" % c.index)
            R.ok("names-file", e is None or "u%d.h5" % c.index in str(e), message=str(e))
            # a missing sample (NaN) does not hide another one beyond the range
            if t.size > 2:
                for mon, v in (("too-negative", -0.01 - amp), ("too-large", 1.01 + amp), ("too-large", np.inf), ("too-negative", -np.inf)):
                    x = t.copy()
                    x[(pos + 1) % t.size], x[pos] = np.nan, v
                    put(fn, w, x)
                    e = bad(mon, ValueError, fn=fn)
                    R.ok("names-file", e is None or fn in str(e), message=str(e))
            x = t.copy()        # on its own it stays a missing sample (or is refused)
            x[pos] = np.nan
            put(fn, w, x)
            try:
                got = watch(load, fn=fn)
            except ValueError:
                R.hit("missing-sample")
            else:
                R.ok("missing-sample", np.array_equal(np.asarray(got.transmission), np.clip(x, 0, 1), equal_nan=True) and got.wave.tobytes() == w.tobytes(), got=got.transmission, want=x)
            put(fn, w, t)
            same("after-failure", L(fn=fn), w, t)
            os.remove(fn)

    for c in R.cases("lookup", 25, 250):
        with c:
            r = c.rng
            base = os.path.join(root, ["l%d", "l %d", "l[%d]", "l*%d", "l?%d", "l-%d", "l$RVMON_X%d", "~l%d", "l{a}%d"][c.index % 9] % c.index)
            os.environ["RVMON_X"] = "elsewhere"
            env, drn = os.path.join(base, "env"), os.path.join(base, "drn")
            os.makedirs(os.path.join(env, "filters")), os.makedirs(drn)
            twin = os.path.join(base, "twin")
            os.makedirs(os.path.join(twin, "lsst_sub"))
            D = {}
            for tag, dr, bn in (("env-r", os.path.join(env, "filters"), "lsst_r_transmission.h5"),
                                ("env-g", os.path.join(env, "filters"), "lsst_g_transmission.h5"),
                                ("env-top", env, "lsst_i_transmission.h5"),
                                ("drn-r", drn, "lsst_r_transmission.h5"), ("drn-g", drn, "lsst_g_transmission.h5"),
                                ("drn-r2", drn, "sdss_r_transmission.h5"), ("fn", base, "f.h5"),
                                ("twin", os.path.join(base, "twin"), "lsst_r.h5"), ("twin-old", os.path.join(base, "twin"), "lsst_r_old.h5"),
                                ("twin-2", os.path.join(base, "twin"), "lsst_r2.h5"), ("twin-up", os.path.join(base, "twin"), "LSST_r.h5"),
                                ("twin-z", os.path.join(base, "twin"), "z.h5"), ("twin-sub", os.path.join(base, "twin", "lsst_sub"), "lsst_q.h5")):
                D[tag] = curve(r)
                put(os.path.join(dr, bn), *D[tag])
            f = os.path.join(base, "f.h5")
            try:
                os.environ["DSPS_DRN"] = env
                for kw, tag in ((dict(bn_pat="lsst_r*"), "env-r"), (dict(bn_pat="*_g_*"), "env-g"), (dict(drn=drn, bn_pat="lsst_r*"), "drn-r"),
                                (dict(drn=drn, bn_pat="sdss*"), "drn-r2"), (dict(drn=drn, bn_pat="lsst_g_transmission.h5"), "drn-g"),
                                (dict(fn=f), "fn"), (dict(fn=f, drn=drn, bn_pat="lsst_r*"), "fn"), (dict(fn=f, bn_pat="lsst_r*"), "fn"),
                                (dict(drn=drn, bn_pat="lsst_[g]*"), "drn-g"), (dict(drn=drn + os.sep, bn_pat="lsst?r*"), "drn-r"),
                                (dict(drn=pathlib.Path(drn), bn_pat="lsst_r*"), "drn-r"), (dict(fn=pathlib.Path(f)), "fn")):
                    same("precedence", L(**kw), *D[tag], kw=str(kw))
                cwd = os.getcwd()
                os.chdir(drn)
                try:
                    for kw, tag in ((dict(drn="", bn_pat="lsst_r*"), "drn-r"), (dict(drn=".", bn_pat="sdss*"), "drn-r2"),
                                    (dict(fn="lsst_g_transmission.h5"), "drn-g"), (dict(bn_pat="lsst_r*"), "env-r"),
                                    (dict(drn=os.path.join("..", "twin"), bn_pat="z*"), "twin-z")):
                        same("precedence", L(**kw), *D[tag], kw=str(kw), relative=True)
                        R.ok("directory-kept", os.path.realpath(os.getcwd()) == os.path.realpath(drn))
                    bad("no-match", Exception, drn="", bn_pat="nope*")
                    bad("ambiguous", Exception, drn="", bn_pat="*_r_*")
                    R.ok("directory-kept", os.path.realpath(os.getcwd()) == os.path.realpath(drn))
                finally:
                    os.chdir(cwd)
                for kw in (dict(bn_pat="lsst_i*"), dict(bn_pat="nope*"), dict(drn=drn, bn_pat="nope*"), dict(drn=drn, bn_pat="lsst_r"),
                           dict(drn=os.path.join(base, "nodir"), bn_pat="lsst_r*")):
                    bad("no-match", Exception, **kw)
                # whatever the other matching file is called
                for ext in (".txt", ".dat", ".fits", "", ".HDF5", ".h5.bak", ".md", ".tmp", "~"):
                    other = os.path.join(twin, "z_more" + ext)
                    (put(other, *curve(r)) if r.random() < 0.5 else open(other, "wb").close())
                    bad("ambiguous", Exception, drn=twin, bn_pat="z*")
                    same("precedence", L(drn=twin, bn_pat="z.h5"), *D["twin-z"], ext=ext)
                    os.remove(other)
                    put(other, *D["twin-z"])        # a curve stored under any name is found by its pattern
                    same("precedence", L(drn=twin, bn_pat="z_mor*"), *D["twin-z"], ext=ext)
                    os.remove(other)
                open(os.path.join(twin, "lsst_r.h5~"), "wb").write(b"not a curve")
                for pat, tag in (("lsst_r.h5", "twin"), ("lsst_r?.h5", "twin-2"), ("lsst_r_*", "twin-old"), ("LSST*", "twin-up"), ("z*", "twin-z")):
                    same("precedence", L(drn=twin, bn_pat=pat), *D[tag], pat=pat)
                for pat in ("lsst_r*", "lsst_r*.h5", "lsst_r[2_]*", "????_r.h5", "lsst_r.h5*", "*"):
                    bad("ambiguous", Exception, drn=twin, bn_pat=pat)
                for pat in ("lsst_q.h5", "lsst_q*", "lsst", "Z*"):
                    bad("no-match", Exception, drn=twin, bn_pat=pat)
                for kw in (dict(bn_pat="lsst*"), dict(drn=drn, bn_pat="*_r_*"), dict(drn=drn, bn_pat="*"), dict(bn_pat="*.h5")):
                    bad("ambiguous", Exception, **kw)
                os.symlink(f, os.path.join(drn, "hst_a.h5"))
                same("precedence", L(drn=drn, bn_pat="hst*"), *D["fn"], pat="link")
                (os.symlink if c.index % 2 else os.link)(f, os.path.join(drn, "hst_b.h5"))
                bad("ambiguous", Exception, drn=drn, bn_pat="hst*")       # two names, one content
                same("precedence", L(drn=drn, bn_pat="hst_b*"), *D["fn"], pat="link")
                os.remove(os.path.join(drn, "hst_a.h5")), os.remove(os.path.join(drn, "hst_b.h5"))
                bad("missing-file", Exception, fn=os.path.join(base, "nope.h5"))
                bad("missing-file", Exception, fn=os.path.join(base, "nope.h5"), drn=drn, bn_pat="lsst_r*")
                bad("missing-file", Exception, fn=drn)
                os.environ["DSPS_DRN"] = drn       # no filters folder there
                bad("missing-file", Exception, bn_pat="lsst_r*")
                del os.environ["DSPS_DRN"]
                bad("missing-variable", ValueError, bn_pat="lsst_r*")
                same("precedence", L(drn=drn, bn_pat="lsst_r*"), *D["drn-r"])
                raw = open(f, "rb").read()
                for frac in (0.0, 0.3, 0.97):
                    open(f, "wb").write(raw[:int(len(raw) * frac)])
                    bad("damaged", Exception, fn=f)
                w, t = curve(r)
                for miss in ("wave", "transmission"):
                    h.write(f, {k: v for k, v in dict(wave=w, transmission=t).items() if k != miss})
                    bad("damaged", Exception, fn=f)
            finally:
                os.environ.pop("DSPS_DRN", None)
            shutil.rmtree(base)

    centres = []
    for c in R.cases("random", 80, 800):
        with c:
            r = c.rng
            kw = {}
            lo, hi, sc = 1000.0, 10000.0, 300.0
            if c.index % 2:
                lo = float(r.uniform(100, 5000))
                hi = lo + float(r.uniform(500, 20000))
                sc = float((hi - lo) / (r.uniform(0.2, 5) if c.index % 8 in (3, 5) else r.uniform(5, 60) if c.index % 8 == 7 else 10 ** r.uniform(0.7, 2.8)))
                kw = dict(wave_range=(lo, hi), scale=sc)
            key = jran.PRNGKey(int(r.integers(2**31))) if c.index % 4 < 3 else jran.key(int(r.integers(2**31)))
            cen = None
            if c.index % 3 == 0:
                cen = float(r.uniform(lo, hi)) if r.random() < 0.8 else float(r.choice([lo + 1e-3, hi - 1e-3]))
                kw["tcurve_center"] = cen
            t = R.call("load_random_transmission_curve", rnd, ran_key=key, **kw)
            w, y = np.asarray(t.wave, float), np.asarray(t.transmission, float)
            info = dict(kw=str(kw))
            R.ok("random-shape", w.shape == y.shape and w.ndim == 1 and w.size >= 20 and np.all(np.diff(w) > 0), **info)
            R.eq("random-range", [w[0], w[-1]], [lo, hi], rtol=1e-12, **info)
            R.ok("random-peak", abs(y.max() - 1) < 1e-12 and y.min() >= 0, peak=y.max(), **info)
            step = (hi - lo) / (w.size - 1)
            # the log of the curve is a parabola: recover centre and width
            top = y > 1e-3
            if top.sum() >= 4:
                x0, s0 = w[top].mean(), sc
                q = np.polynomial.polynomial.polyfit((w[top] - x0) / s0, np.log(y[top]), 2)
                c_fit, s_fit = x0 - s0 * q[1] / (2 * q[2]), s0 * np.sqrt(-0.5 / q[2])
                R.eq("random-width", s_fit, sc, rtol=1e-5, **info)
                if cen is not None:
                    R.eq("random-centre", c_fit, cen, rtol=0, atol=1e-4 * sc, **info)
                else:
                    R.ok("random-centre", lo - 1e-3 * sc <= c_fit <= hi + 1e-3 * sc, c_fit=c_fit, lo=lo, hi=hi, sc=sc)
                    if hi - lo > 5 * sc:
                        R.ok("random-centre", lo + 2 * sc - 1e-3 * sc <= c_fit <= hi - 2 * sc + 1e-3 * sc, c_fit=c_fit, lo=lo, hi=hi, sc=sc)
                        centres.append((c_fit - lo - 2 * sc) / (hi - lo - 4 * sc))
            if cen is not None:
                R.ok("random-peak", abs(w[np.argmax(y)] - cen) <= step, **info)
            u = R.call("load_random_transmission_curve", rnd, ran_key=key, **kw)
            R.same("random-reproducible", tuple(t), tuple(u))
            for badc in (lo - 1.0, hi + 1.0):
                R.raises("random-rejects", rnd, ran_key=key, tcurve_center=badc, wave_range=(lo, hi), exc=Exception)
    if R.only is None and len(centres) > 20:
        R.ok("random-spread", np.std(centres) > 0.15 and len(set(np.round(centres, 8))) > 0.9 * len(centres), std=np.std(centres))
    for c in R.cases("random-nokey", 6):
        with c:
            st = random.getstate()
            a, b = (R.call("load_random_transmission_curve", rnd) for _ in range(2))
            R.ok("random-peak", abs(np.max(a.transmission) - 1) < 1e-12)
            R.ok("random-fresh", not np.array_equal(a.transmission, b.transmission))
            random.setstate(st)
            a2 = R.call("load_random_transmission_curve", rnd)
            R.finite("random-fresh", tuple(a2))
