"""C23 SSP template loading."""
import os
import pathlib
import shutil
import threading

import numpy as np

from .. import boot, h5tools as h
from ..core import CaseAbort

RULE = ("Random HDF5 template files (with/without lines, float32/float64, chunked/compressed) in scratch directories; all "
        "combinations of fn, drn, bn and DSPS_DRN with different contents at each place; missing/truncated/corrupt/"
        "overwritten files, each missing dataset; replaced files between loads; threads loading different files.")
REQUIRED = {"content": 60, "lines": 30, "no-lines": 15, "precedence": 40, "missing-variable": 5, "missing-file": 20,
            "truncated": 30, "missing-dataset": 20, "handles-released": 100, "file-unchanged": 100, "fresh": 20,
            "threads": 10}
ASSUMPTIONS = ["sandbox file system; handle monitor reads /proc/self/fd and the HDF5 object table"]
LSUN = 3.828e33
BN = "ssp_data_fsps_v3.2_lgmet_age.h5"
KEYS = ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux")


def workload(R):
    from dsps.data_loaders import load_ssp_templates as load, load_ssp_data as mod
    from dsps.data_loaders.defaults import SSPData, DEFAULT_SSP_BNAME
    R.ok("default-name", DEFAULT_SSP_BNAME == BN and mod.load_ssp_templates is load)
    root = boot.scratch()
    os.environ.pop("DSPS_DRN", None)

    def same(monitor, got, d, **info):
        R.hit(monitor)
        R.ok("field-order", type(got).__name__ == "SSPData" and tuple(got._fields) == KEYS + ("ssp_emline_wave", "ssp_emline_luminosity")
             and len(got) == 6, got=str(type(got)))
        for i, k in enumerate(KEYS):
            a, b = np.asarray(got[i]), d[k]
            if a.dtype != b.dtype or a.shape != b.shape or a.tobytes() != b.tobytes():
                R.fail(monitor, dict(key=k, got=R_short(a), want=R_short(b), **info))
                return False
        if "ssp_emline_name" in d:
            R.hit("lines")
            names = tuple(n.decode("utf-8") for n in d["ssp_emline_name"])
            lw, ll = got.ssp_emline_wave, got.ssp_emline_luminosity
            if lw is None or lw._fields != names:
                R.fail("lines", dict(got=str(lw)[:300], want=names))
                return False
            R.eq("line-waves", [getattr(lw, n) for n in names], d["ssp_emline_wave"], rtol=1e-15)
            R.ok("line-waves", all(isinstance(float(v), float) for v in lw))
            with np.errstate(over="ignore"):
                wl = d["ssp_emline_luminosity"].astype(float) * LSUN
            gone = np.isnan(wl)
            R.ok("line-luminosities", np.shape(ll) == wl.shape and np.array_equal(np.isnan(ll), gone))
            R.eq("line-luminosities", np.where(gone, 0.0, ll), np.where(gone, 0.0, wl), rtol=1e-12 if ll.dtype == np.float64 else 1e-5)
        else:
            R.ok("no-lines", got.ssp_emline_wave is None and got.ssp_emline_luminosity is None)
        return True

    def watch(fn_, *a, **k):
        """Handles, files and directory content are as before, whatever happens."""
        n0, t0 = h.open_objects(), h.tree(root)
        try:
            return fn_(*a, **k)
        finally:
            R.ok("handles-released", h.open_objects() == n0 and not h.fds(root), fds=h.fds(root), objects=h.open_objects())
            R.ok("file-unchanged", h.tree(root) == t0)

    def L(**k):
        return watch(R.call, "load_ssp_templates", load, **k)

    def bad(monitor, exc, **k):
        return watch(R.raises, monitor, load, exc=exc, **k)

    for c in R.cases("content", 60, 600):
        with c:
            r = c.rng
            d = h.ssp_content(r, nl=0 if c.index % 3 == 0 else None, f32=c.index % 5 == 1)
            if c.index % 12 == 7:       # libraries of full size, and of the least
                d = h.ssp_content(r, *((13, 107, 900), (1, 1, 1), (60, 5, 30), (2, 300, 40), (2, 3, 9000))[c.index // 12 % 5], f32=c.index % 5 == 1)
            if c.index % 9 == 4:        # a library that reaches age zero
                d["ssp_lg_age_gyr"][0] = r.choice([-np.inf, -9.0, -9.5, -12.0])
            if c.index % 7 in (2, 5):        # whatever numbers are stored come back, undefined and infinite ones too
                for k in r.permutation(KEYS + ("ssp_emline_luminosity",))[:int(r.integers(1, 6))]:
                    if k not in d:
                        continue
                    d[k] = d[k].copy()
                    at = np.concatenate([r.integers(0, d[k].size, 3), np.array([0, -1])[:int(r.integers(3))]])
                    with np.errstate(over="ignore"):
                        d[k].flat[at] = r.choice([np.nan, np.inf, -np.inf, -0.0, 5e-324, -1.0, 0.0, -9.0, -10.0, -99.0, 1e300, 99.0], at.size).astype(d[k].dtype)
            fn = os.path.join(root, "f %d.h5" % c.index)
            h.write(fn, d, **([dict(), dict(chunks=True, compression="gzip"), dict(chunks=True)][c.index % 3]))
            got = L(fn=fn)
            same("content", got, d)
            # values survive the file, and a second load is independent of what the caller did to the first
            for a in list(got[:4]) + ([got.ssp_emline_luminosity] if got.ssp_emline_luminosity is not None else []):
                try:
                    np.asarray(a)[...] = -1.0
                except (ValueError, TypeError):
                    pass
            again = L(fn=fn)
            same("content", again, d, second=True)
            # the file is replaced: the next load sees the new content
            d2 = h.ssp_content(r, nl=0 if c.index % 2 else None)
            h.write(fn, d2)
            same("fresh", L(fn=fn), d2)
            same("content", again, d, detached=True)
            d3 = dict(d, ssp_flux=d["ssp_flux"] * 2)
            h.write(fn, d3)
            os.utime(fn, (1e9, 1e9))
            same("fresh", L(fn=fn), d3)
            # the same file under another name
            ln = os.path.join(root, "link%d.h5" % c.index)
            (os.symlink if c.index % 2 else os.link)(fn, ln)
            same("content", L(fn=ln), d3, link=True)
            same("content", L(drn=root, bn="link%d.h5" % c.index), d3, link=True)
            os.remove(ln)
            # positional call; extra datasets in the file are ignored
            h.write(fn, dict(d, extra=np.arange(3)))
            same("content", L_pos(watch, R, load, fn), d)
            os.remove(fn)
            bad("missing-file", Exception, fn=fn)

    for c in R.cases("precedence", 25, 200):
        with c:
            r = c.rng
            base = os.path.join(root, ["p%d", "p$RVMON_X%d", "~p%d", "p %%41 %d", "p{a,b}[1]*%d", "p\u00e9%d", "p${RVMON_X}%d", "-p%d"][c.index % 8] % c.index)
            os.environ["RVMON_X"] = "elsewhere"
            env, drn = os.path.join(base, "env"), os.path.join(base, "drn")
            os.makedirs(env), os.makedirs(drn)
            D = {}
            for tag, dr, bn in (("env-default", env, BN), ("env-x", env, "x.h5"), ("drn-default", drn, BN), ("drn-x", drn, "x.h5"),
                                ("fn", base, "f.h5")):
                D[tag] = h.ssp_content(r)
                h.write(os.path.join(dr, bn), D[tag])
            f = os.path.join(base, "f.h5")
            try:
                os.environ["DSPS_DRN"] = env
                for kw, tag in ((dict(), "env-default"), (dict(bn="x.h5"), "env-x"), (dict(drn=drn), "drn-default"),
                                (dict(drn=drn, bn="x.h5"), "drn-x"), (dict(fn=f), "fn"), (dict(fn=f, drn=drn), "fn"),
                                (dict(fn=f, drn=drn, bn="x.h5"), "fn"), (dict(fn=f, bn="x.h5"), "fn"),
                                (dict(drn=drn + os.sep, bn="x.h5"), "drn-x"),
                                (dict(drn=pathlib.Path(drn), bn="x.h5"), "drn-x"), (dict(fn=pathlib.Path(f)), "fn")):
                    same("precedence", L(**kw), D[tag], kw=str(kw))
                # relative directories and names: relative to the working directory, which stays what it was
                cwd = os.getcwd()
                os.chdir(drn)
                try:
                    for kw, tag in ((dict(drn=""), "drn-default"), (dict(drn="", bn="x.h5"), "drn-x"), (dict(drn=".", bn="x.h5"), "drn-x"),
                                    (dict(fn="x.h5"), "drn-x"), (dict(drn=os.path.join("..", "env")), "env-default"), (dict(), "env-default"),
                                    (dict(fn=os.path.join("..", "f.h5")), "fn")):
                        same("precedence", L(**kw), D[tag], kw=str(kw), relative=True)
                        R.ok("directory-kept", os.path.realpath(os.getcwd()) == os.path.realpath(drn))
                    os.makedirs(os.path.join(drn, "sub"), exist_ok=True)
                    for rel, at in (("q.h5", drn), ("q.h5", env), (os.path.join("sub", "q.h5"), drn)):
                        D[rel, at] = h.ssp_content(r)
                        os.makedirs(os.path.join(env, "sub"), exist_ok=True)
                        h.write(os.path.join(at, rel), D[rel, at])
                    h.write(os.path.join(env, "sub", "q.h5"), D["q.h5", env])
                    # an explicit relative name is relative to the working directory whatever else is given
                    for rel in ("q.h5", os.path.join("sub", "q.h5")):
                        for kw in (dict(drn=env), dict(drn=os.path.join("..", "env")), dict(drn=env, bn="q.h5"), dict(bn="q.h5"), dict(drn="sub")):
                            same("precedence", L(fn=rel, **kw), D[rel, drn], kw=str(kw), fn=rel, relative=True)
                    bad("missing-file", Exception, drn="", bn="nope.h5")
                    bad("missing-file", Exception, drn="nodir", bn="x.h5")
                    bad("missing-file", Exception, fn="f.h5")
                finally:
                    os.chdir(cwd)
                bad("missing-file", Exception, fn=os.path.join(base, "nope.h5"))
                bad("missing-file", Exception, fn=os.path.join(base, "nope.h5"), drn=drn)
                bad("missing-file", Exception, drn=drn, bn="nope.h5")
                bad("missing-file", Exception, drn=drn, bn="X.h5")
                bad("missing-file", Exception, drn=drn, bn="x")
                bad("missing-file", Exception, drn=drn, bn="x.hdf5")
                bad("missing-file", Exception, drn=drn, bn=" x.h5")
                bad("missing-file", Exception, drn=drn, bn="sub" + os.sep + "x.h5")
                bad("missing-file", Exception, bn="X.H5")
                bad("missing-file", Exception, drn=drn, bn=BN.upper())
                bad("missing-file", Exception, fn=os.path.join(base, "F.h5"))
                bad("missing-file", Exception, fn=os.path.join(base, "f"))
                bad("missing-file", Exception, fn=os.path.join(base, "f.h5 "))
                bad("missing-file", Exception, drn=os.path.join(base, "DRN"))
                bad("missing-file", Exception, drn=os.path.join(base, "nodir"))
                bad("missing-file", Exception, bn="nope.h5")
                bad("missing-file", Exception, fn=env)
                os.environ["DSPS_DRN"] = drn    # read at call time
                same("precedence", L(), D["drn-default"], env="changed")
                os.environ["DSPS_DRN"] = os.path.join(base, "nodir")
                bad("missing-file", Exception)
                del os.environ["DSPS_DRN"]
                bad("missing-variable", ValueError)
                bad("missing-variable", ValueError, bn="x.h5")
                same("precedence", L(drn=drn), D["drn-default"])
                same("precedence", L(fn=f), D["fn"])
            finally:
                os.environ.pop("DSPS_DRN", None)
            shutil.rmtree(base)

    for c in R.cases("damaged", 25, 250):
        with c:
            r = c.rng
            d = h.ssp_content(r)
            fn = os.path.join(root, "d%d.h5" % c.index)
            h.write(fn, d, **(dict(chunks=True, compression="gzip", fletcher32=True) if c.index % 2 else {}))
            raw = open(fn, "rb").read()
            for frac in (0.0, 0.01, r.uniform(0.05, 0.9), 0.99):
                with open(fn, "wb") as f:
                    f.write(raw[:int(len(raw) * frac)])
                bad("truncated", Exception, fn=fn)
            with open(fn, "wb") as f:
                f.write(r.bytes(len(raw)))
            bad("truncated", Exception, fn=fn)
            with open(fn, "wb") as f:
                f.write(b"\0" * 8 + raw[8:])
            bad("truncated", Exception, fn=fn)
            if c.index % 2:     # flip bytes inside a checksummed chunk of the fluxes
                import h5py
                with open(fn, "wb") as f:
                    f.write(raw)
                with h5py.File(fn, "r") as f:
                    off = f["ssp_flux"].id.get_chunk_info(0)
                b = bytearray(raw)
                p = off.byte_offset + off.size // 2
                b[p] ^= 0x5A
                with open(fn, "wb") as f:
                    f.write(bytes(b))
                bad("truncated", Exception, fn=fn)
            for k in KEYS + ("ssp_emline_wave", "ssp_emline_luminosity"):
                h.write(fn, {a: v for a, v in d.items() if a != k})
                bad("missing-dataset", Exception, fn=fn)
            n = len(d["ssp_emline_name"])
            h.write(fn, dict(d, ssp_emline_wave=np.append(d["ssp_emline_wave"], 1.0)))
            bad("inconsistent-lines", Exception, fn=fn)
            if n > 1:
                h.write(fn, dict(d, ssp_emline_name=np.array([d["ssp_emline_name"][0]] * n)))
                bad("inconsistent-lines", Exception, fn=fn)
            # after all those failures a good file still loads
            h.write(fn, d)
            same("content", L(fn=fn), d, after="failures")
            os.remove(fn)

    for c in R.cases("threads", 6, 60):
        with c:
            r = c.rng
            items = []
            for i in range(12):
                fn = os.path.join(root, "t%d.h5" % i)
                d = h.ssp_content(r, nz=4, na=5, nw=30, nl=3 if i % 2 else 0)
                h.write(fn, d)
                items.append((fn, d))
            out, err = {}, []
            bar = threading.Barrier(8)

            def go(j):
                try:
                    bar.wait()
                    for i in range(12):
                        k = (i + j) % 12
                        out[(j, k)] = load(fn=items[k][0])
                except Exception as e:
                    err.append(repr(e))
            ts = [threading.Thread(target=go, args=(j,)) for j in range(8)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            R.ok("threads", not err, err=err)
            for (j, k), g in out.items():
                R.record("load_ssp_templates", [j, k], list(g[:4]))
                same("threads", g, items[k][1])
            R.ok("handles-released", h.open_objects() == 0 and not h.fds(root), fds=h.fds(root))
    for c in R.cases("dummy", 3):
        with c:
            a = L(dummy=True)
            b = L(fn=os.path.join(root, "nope.h5"), dummy=True)
            for x, y in zip(a[:4], b[:4]):
                R.same("dummy", x, y)
            R.ok("dummy", len(a.ssp_emline_wave) == 166 and np.asarray(a.ssp_emline_luminosity).shape[2] == 166)


def L_pos(watch, R, load, fn):
    return watch(R.call, "load_ssp_templates", load, fn)


def R_short(a):
    return dict(dtype=str(a.dtype), shape=list(a.shape), head=[float(x) for x in a.ravel()[:4]])
