"""C25 emission-line alignment, and the round trip generate -> write -> load."""
import keyword
import os
import re
import runpy
import subprocess
import sys
import types
from collections import namedtuple

import numpy as np

from .. import boot, h5tools as h
from ..core import opt

RULE = ("The packaged line list and random line lists; random template sets with random subsets and orders of lines; a "
        "recording stand-in for the stellar-population code (random grids, per-metallicity spectra, line lists in "
        "permuted order, with/without lines, options recorded) driven through retrieval, the writing script and loading.")
REQUIRED = {"line-list": 100, "name-states-wavelength": 100, "readers-agree": 20, "subset-aligned": 60, "subset-unchanged": 40, "unknown-line": 20,
            "retrieved": 40, "options-passed": 40, "round-trip": 20, "units-once": 10, "no-lines-round-trip": 5}
ASSUMPTIONS = ["python-fsps is not installed: a stand-in with its interface (StellarPopulation with zlegend, log_age, "
               "get_spectrum, emline_luminosity, emline_wavelengths) takes its place"]
LSUN = 3.828e33

STATE = dict(calls=[], cfg=None)


class StellarPopulation:
    def __init__(self, **kw):
        cfg = STATE["cfg"]
        STATE["calls"].append(dict(kw))
        self.kw = kw
        self.cfg = cfg
        self.zlegend = cfg["zlegend"].copy()
        self.log_age = cfg["log_age"].copy()
        self.iz = kw.get("zmet", 1) - 1
        if cfg["lines"]:
            self.emline_wavelengths = cfg["line_wave"].copy()
            self.emline_luminosity = cfg["line_lum"][self.iz].copy() * self.gas()

    def gas(self):
        return 1.0 + abs(self.kw.get("gas_logz", 0.0)) + 0.5 * abs(self.kw.get("gas_logu", -2.0))

    def get_spectrum(self, *a, **k):
        f = self.cfg["flux"][self.iz] * (self.gas() if self.kw.get("add_neb_emission", False) else 1.0)
        return self.cfg["wave"].copy(), f


def install():
    m = types.ModuleType("fsps")
    m.StellarPopulation = StellarPopulation
    sys.modules["fsps"] = m


install()    # before dsps is imported


def field(name):
    for a, b in (("-", "_"), (" ", "_"), (".", "p"), ("[", ""), ("]", "")):
        name = name.replace(a, b)
    return name


def parse(fn):
    rows = [l.strip().split(",") for l in open(fn)]
    return [(field(b), float(a), b) for a, b in rows]


def config(r, lines, ref_wave, nl=None, nz=None):
    nz, na, nw = nz or int(r.integers(2, 6)), int(r.integers(2, 7)), int(r.integers(5, 40))
    nl = nl or int(r.integers(1, 30))
    idx = r.permutation(len(ref_wave))[:nl]
    return dict(zlegend=np.sort(10 ** r.uniform(-4, -1, nz)), log_age=np.sort(r.uniform(5.5, 10.2, na)),
                wave=np.sort(r.uniform(91, 1e5, nw)), flux=10 ** r.uniform(-25, -5, (nz, na, nw)), lines=lines,
                idx=idx, line_wave=(ref_wave[idx] * (1 + r.uniform(-3e-7, 3e-7, nl))).astype("f4" if nl % 4 == 0 else "f8"), line_lum=10 ** r.uniform(-60, 2, (nz, na, nl)))


def workload(R):
    from dsps.data_loaders import load_ssp_templates
    from dsps.data_loaders import load_emline_info as le
    from dsps.data_loaders import retrieve_fsps_data as rf
    from dsps.data_loaders import retrieve_ssp_data_from_fsps as retrieve
    from dsps.data_loaders.defaults import SSPData
    root = boot.scratch()
    path = os.path.join(boot.REPO, "dsps", "data", "emlines_info.dat")
    want = parse(path)
    reader2 = opt("dsps.data_loaders.retrieve_fsps_data", "get_fsps_emline_info")
    tup = opt("dsps.data_loaders.retrieve_fsps_data", "_get_emline_wave_namedtuple")
    names = [w[0] for w in want]
    waves = np.array([w[1] for w in want])

    # ---- the packaged list and the two readers of it
    for c, _ in R.each("packaged-list", [0, 1]):
        with c:
            d = R.call("read_emlines_info_fsps", le.read_emlines_info_fsps, path)
            R.ok("line-list", len(d) == 166 and list(d) == names, n=len(d))
            d.clear()
            d = R.call("read_emlines_info_fsps", le.read_emlines_info_fsps, path)
            R.ok("line-list", list(d) == names, second=True)
            for k, (n, w, _) in zip(d, want):
                R.ok("line-list", k == n and d[k] == w and k.isidentifier() and not keyword.iskeyword(k), key=k, want=n)
            d2, arr = R.call("read_emlines_info_fsps", le.read_emlines_info_fsps, path, testmode=True)
            R.ok("line-list", list(d2.items()) == list(d.items()))
            R.eq("line-list", arr, waves, rtol=0)
            for k, w in d.items():     # every packaged name ends with its rounded wavelength
                q = re.search(r"(\d+(?:p\d+)?)(um|m|A)?$", k)
                v = float(q.group(1).replace("p", ".")) * (1e4 if q.group(2) in ("um", "m") else 1.0)
                R.ok("name-states-wavelength", abs(v / w - 1) < 4e-3, name=k, wave=w)
            namedtuple("X", list(d))
            if reader2 is not None:
                w2, n2 = R.call("get_fsps_emline_info", reader2)
                R.eq("readers-agree", w2, waves, rtol=0)
                R.ok("readers-agree", [field(str(n)) for n in n2] == names)
            if tup is not None:
                t = R.call("emline_wave_namedtuple", tup, waves)
                R.ok("readers-agree", list(t._fields) == names and list(t) == list(waves))
    for c in R.cases("random-list", 20, 200):
        with c:
            r = c.rng
            n = int(r.integers(1, 40))
            el = ["H", "He II", "[O III]", "C IV", "[N II]", "Fe", "Ly-alpha", "Ba-7", "[Ne IV]"]
            rows = ["%r,%s %s" % (round(float(w), 4), el[int(r.integers(len(el)))], ["%d", "%.2fA", "%d.5"][i % 3] % (i + 900))
                    for i, w in enumerate(np.cumsum(r.uniform(1, 500, n)) + 900)]
            if c.index % 2:
                rows = list(r.permutation(rows))
            fn = os.path.join(root, "lines%d.dat" % c.index)
            with open(fn, "w") as f:
                f.write("\n".join(rows) + ("\n" if c.index % 3 else ""))
            w = parse(fn)
            d = R.call("read_emlines_info_fsps", le.read_emlines_info_fsps, fn)
            R.ok("line-list", list(d.items()) == [(a, b) for a, b, _ in w], got=list(d.items())[:5], want=w[:5])
            R.ok("line-list", all(k.isidentifier() for k in d))
            d.clear()       # what the caller does with a list is the caller's business
            d["x"] = 1.0
            d = R.call("read_emlines_info_fsps", le.read_emlines_info_fsps, fn)
            R.ok("line-list", list(d.items()) == [(a, b) for a, b, _ in w], second=True, got=list(d.items())[:5], want=w[:5])
            if reader2 is not None:
                w2, n2 = R.call("get_fsps_emline_info", reader2, fn)
                R.eq("readers-agree", w2, [b for _, b, _ in w], rtol=0)
                R.ok("readers-agree", [field(str(x)) for x in n2] == list(d))
                w2[:] = -1.0
                w2, n2 = R.call("get_fsps_emline_info", reader2, fn)
                R.eq("readers-agree", w2, [b for _, b, _ in w], rtol=0, second=True)
            else:
                R.hit("readers-agree")
            # another list under the same name
            rows = rows[::-1][:max(1, n // 2)] + ["%r,Zz %d" % (31000.5 + c.index, 31000)]
            with open(fn, "w") as f:
                f.write("\n".join(rows))
            w = parse(fn)
            d = R.call("read_emlines_info_fsps", le.read_emlines_info_fsps, fn)
            R.ok("line-list", list(d.items()) == [(a, b) for a, b, _ in w], rewritten=True, got=list(d.items())[:5], want=w[:5])
            if reader2 is not None:
                w2, n2 = R.call("get_fsps_emline_info", reader2, fn)
                R.eq("readers-agree", w2, [b for _, b, _ in w], rtol=0, rewritten=True)
            os.remove(fn)

    # ---- subsets
    for c in R.cases("subset", 50, 500):
        with c:
            r = c.rng
            n = int(r.integers(1, 40)) if c.index % 10 != 7 else 166
            nz, na = int(r.integers(1, 5)), int(r.integers(1, 5))
            nm = [names[i] for i in r.permutation(166)[:n]]
            if c.index % 5 == 0:      # line count equal to an axis length
                nz = na = n = 3
                nm = nm[:3] if len(nm) >= 3 else names[:3]
            n = len(nm)
            E = namedtuple("EmLineWave", nm)
            w = r.uniform(900, 1e4, n)
            lum = 10 ** r.uniform(-5, 40, (nz, na, n))
            flux = r.uniform(0, 1, (nz, na, 7))
            d = SSPData(np.arange(nz) * 1.0, np.arange(na) * 1.0, np.arange(7) * 1.0, flux, E(*[float(x) for x in w]), lum)
            keep = (d, lum.copy(), tuple(d.ssp_emline_wave))
            k = int(r.integers(1, n + 1))
            sel = [nm[i] for i in r.permutation(n)[:k]]
            if c.index % 4 == 1:
                sel = sorted(sel)
            if c.index % 6 == 2:
                sel = nm[::-1]
            asked = list(sel)
            s = R.call("get_subset_emline_data", le.get_subset_emline_data, d, sel)
            info = dict(sel=asked, names=nm)
            R.ok("subset-request-unchanged", sel == asked, **info)
            sel = asked
            R.ok("subset-aligned", s.ssp_emline_wave._fields == tuple(sel), **info)
            R.ok("subset-shape", np.asarray(s.ssp_emline_luminosity).shape == (nz, na, len(sel)), **info)
            for j, q in enumerate(sel):
                i = nm.index(q)
                R.ok("subset-aligned", getattr(s.ssp_emline_wave, q) == w[i] and s.ssp_emline_wave[j] == w[i]
                     and np.array_equal(s.ssp_emline_luminosity[:, :, j], lum[:, :, i]), line=q, **info)
            for f in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux"):
                R.ok("subset-unchanged", np.array_equal(getattr(s, f), getattr(d, f)))
            R.ok("subset-unchanged", type(s).__name__ == "SSPData" and np.array_equal(keep[1], d.ssp_emline_luminosity)
                 and keep[2] == tuple(d.ssp_emline_wave) and d.ssp_emline_wave._fields == tuple(nm))
            # the same lines of the same library again, in other orders
            for o in (sel[::-1], list(r.permutation(sel)), sorted(sel), sel):
                o = [str(x) for x in o]
                q = R.call("get_subset_emline_data", le.get_subset_emline_data, d, o)
                ii = [nm.index(x) for x in o]
                R.ok("subset-aligned", q.ssp_emline_wave._fields == tuple(o) and list(q.ssp_emline_wave) == list(w[ii])
                     and np.array_equal(q.ssp_emline_luminosity, lum[:, :, ii]), order=o, **info)
            s2 = R.call("get_subset_emline_data", le.get_subset_emline_data, s, sel[::-1])
            R.ok("subset-aligned", np.array_equal(s2.ssp_emline_luminosity, np.asarray(s.ssp_emline_luminosity)[:, :, ::-1])
                 and tuple(s2.ssp_emline_wave) == tuple(s.ssp_emline_wave)[::-1], twice=True, **info)
            R.raises("unknown-line", le.get_subset_emline_data, d, sel + ["not_a_line"])
            R.raises("unknown-line", le.get_subset_emline_data, d, ["not_a_line"])
            un = [x for x in names if x not in nm][:1]
            if un:
                R.raises("unknown-line", le.get_subset_emline_data, d, un)

    # ---- retrieval, writing, loading
    script = os.path.join(boot.REPO, "scripts", "write_fsps_data_to_disk.py")

    def run_script(args):
        old = sys.argv
        sys.argv = [script] + args
        try:
            runpy.run_path(script, run_name="__main__")
        except SystemExit as e:
            if e.code not in (0, None):
                raise RuntimeError("script exited with %r" % (e.code,))
        finally:
            sys.argv = old

    devnull = open(os.devnull, "w")
    for c in R.cases("retrieve", 40, 300):
        with c:
            r = c.rng
            lines = c.index % 3 != 0
            cfg = config(r, lines, waves, nl=166 if c.index % 7 == 1 else None, nz=int(r.integers(13, 60)) if c.index % 8 == 5 else None)
            STATE["cfg"], STATE["calls"] = cfg, []
            kw = {}
            if c.index % 2:
                kw = dict(gas_logz=float(r.uniform(-2, 0.5)), gas_logu=float(r.uniform(-4, -1)))
                if c.index % 4 == 3:
                    kw["gas_logz" if c.index % 8 == 3 else "gas_logu"] = 0.0
            if c.index % 5 == 0:
                kw["imf_type"] = int(r.integers(0, 5))
            for o, v in (("add_neb_continuum", False), ("dust_type", 2), ("sfh", 0), ("logzsol", -0.3), ("compute_vega_mags", False), ("smooth_velocity", True),
                         ("add_dust_emission", False), ("zred", 0.0), ("cloudy_dust", True)):
                if r.random() < 0.2:
                    kw[o] = v
            if c.index % 4 < 2:
                neb = True
                s = R.call("retrieve_ssp_data_from_fsps", _quiet, devnull, retrieve, **kw)
            else:
                neb = bool(c.index % 4 == 2)
                s = R.call("retrieve_ssp_data_from_fsps", _quiet, devnull, retrieve, add_neb_emission=neb, **kw)
            info = dict(kw=str(kw), neb=neb, lines=lines)
            gas = 1.0 + abs(kw.get("gas_logz", 0.0)) + 0.5 * abs(kw.get("gas_logu", -2.0))
            R.eq("retrieved", s.ssp_lgmet, np.log10(cfg["zlegend"]), rtol=1e-12, **info)
            R.eq("retrieved", s.ssp_lg_age_gyr, cfg["log_age"] - 9, rtol=1e-12, atol=1e-12, **info)
            R.eq("retrieved", s.ssp_wave, cfg["wave"], rtol=0, **info)
            R.eq("retrieved", s.ssp_flux, cfg["flux"] * (gas if neb else 1.0), rtol=1e-12, **info)
            if lines:
                R.ok("retrieved-lines", list(s.ssp_emline_wave._fields) == [names[i] for i in cfg["idx"]], got=list(s.ssp_emline_wave._fields)[:5], **info)
                R.eq("retrieved-lines", np.array(s.ssp_emline_wave), cfg["line_wave"], rtol=2e-6, **info)
                R.eq("retrieved-lines", s.ssp_emline_luminosity, cfg["line_lum"] * gas, rtol=1e-12, **info)
            else:
                R.ok("retrieved-lines", s.ssp_emline_wave is None and s.ssp_emline_luminosity is None, **info)
            per = [k for k in STATE["calls"] if "zmet" in k]
            R.ok("options-passed", sorted(k["zmet"] for k in per) == list(range(1, len(cfg["zlegend"]) + 1)), calls=str(STATE["calls"])[:300])
            for k in per:
                R.ok("options-passed", all(k.get(a) == b for a, b in kw.items()) and k.get("add_neb_emission") is neb
                     and k.get("zcontinuous") == 0, call=str(k), **info)
    for c in R.cases("round-trip", 24, 150):
        with c:
            r = c.rng
            lines = c.index % 3 != 0
            cfg = config(r, lines, waves, nl=166 if c.index % 5 == 1 else None)
            STATE["cfg"], STATE["calls"] = cfg, []
            out = os.path.join(root, "rt%d.h5" % c.index)
            args, kw = [out], {}
            if c.index % 4 != 1:        # an older file of that name is replaced, whatever was in it
                h.write(out, h.ssp_content(r, nl=[0, 3][c.index % 2]))
            if c.index % 2:
                kw["gas_logz"] = float(r.uniform(-2, 0.5)) if c.index % 4 == 1 else 0.0
                args += ["--gas_logz", repr(kw["gas_logz"])]
            if c.index % 3 == 1:
                kw["gas_logu"] = float(r.uniform(-4, -1)) if c.index % 2 else 0.0
                args += ["--gas_logu=" + repr(kw["gas_logu"])]
            R.call("write_fsps_data_to_disk", _quiet, devnull, run_script, args)
            gas = 1.0 + abs(kw.get("gas_logz", 0.0)) + 0.5 * abs(kw.get("gas_logu", -2.0))
            per = [k for k in STATE["calls"] if "zmet" in k]
            R.ok("options-passed", len(per) == len(cfg["zlegend"]) and all(k.get(a) == b for k in per for a, b in kw.items())
                 and all(a in kw for k in per for a in ("gas_logz", "gas_logu") if a in k), calls=str(per)[:300], kw=str(kw))
            R.ok("handles-released", h.open_objects() == 0 and not h.fds(root))
            s = R.call("load_ssp_templates", load_ssp_templates, fn=out)
            info = dict(lines=lines, kw=str(kw))
            R.eq("round-trip", s.ssp_lgmet, np.log10(cfg["zlegend"]), rtol=1e-14, **info)
            R.eq("round-trip", s.ssp_lg_age_gyr, cfg["log_age"] - 9, rtol=1e-14, atol=1e-15, **info)
            R.eq("round-trip", s.ssp_wave, cfg["wave"], rtol=0, **info)
            R.eq("round-trip", s.ssp_flux, cfg["flux"] * gas, rtol=1e-14, **info)
            if lines:
                R.ok("round-trip", list(s.ssp_emline_wave._fields) == [names[i] for i in cfg["idx"]])
                R.eq("round-trip", np.array(s.ssp_emline_wave), cfg["line_wave"], rtol=2e-6, **info)
                R.eq("units-once", s.ssp_emline_luminosity, cfg["line_lum"] * gas * LSUN, rtol=1e-12, **info)
                sel = [s.ssp_emline_wave._fields[i] for i in r.permutation(len(cfg["idx"]))[:3]]
                sub = R.call("get_subset_emline_data", le.get_subset_emline_data, s, sel)
                for j, q in enumerate(sel):
                    i = names.index(q)
                    a = list(cfg["idx"]).index(i)
                    R.eq("units-once", np.asarray(sub.ssp_emline_luminosity)[:, :, j], cfg["line_lum"][:, :, a] * gas * LSUN, rtol=1e-12)
                    R.eq("subset-aligned", getattr(sub.ssp_emline_wave, q), waves[i], rtol=2e-6)
            else:
                R.ok("no-lines-round-trip", s.ssp_emline_wave is None and s.ssp_emline_luminosity is None, **info)
            os.remove(out)
    # a real process with the stand-in on the path
    for c, _ in R.each("subprocess", [0]):
        with c:
            d = os.path.join(root, "sub")
            os.makedirs(d)
            with open(os.path.join(d, "fsps.py"), "w") as f:
                f.write("import numpy as np\n"
                        "class StellarPopulation:\n"
                        "    def __init__(self, **kw):\n"
                        "        self.z = kw.get('zmet', 1)\n"
                        "        self.zlegend = np.array([1e-3, 1e-2])\n"
                        "        self.log_age = np.array([6.0, 7.0, 9.5])\n"
                        "        self.emline_wavelengths = np.array([%r, %r])\n"
                        "        self.emline_luminosity = np.arange(6.0).reshape(3, 2) + 10 * self.z\n"
                        "    def get_spectrum(self, *a, **k):\n"
                        "        return np.arange(1.0, 5.0), np.ones((3, 4)) * self.z\n" % (waves[20], waves[3]))
            env = dict(os.environ, PYTHONPATH=d + os.pathsep + boot.REPO)
            p = R.call("subprocess", subprocess.run, [sys.executable, "-B", script, os.path.join(d, "o.h5")],
                       env=env, capture_output=True, text=True, cwd=d, timeout=200)
            R.ok("round-trip", p.returncode == 0, err=p.stderr[-800:])
            s = R.call("load_ssp_templates", load_ssp_templates, drn=d, bn="o.h5")
            R.ok("round-trip", s.ssp_emline_wave._fields == (names[20], names[3]))
            R.eq("units-once", s.ssp_emline_luminosity, (np.arange(6.0).reshape(1, 3, 2) + np.array([10, 20]).reshape(2, 1, 1)) * LSUN, rtol=1e-12)
            R.eq("round-trip", s.ssp_flux, np.ones((2, 3, 4)) * np.array([1, 2]).reshape(2, 1, 1), rtol=0)


def _quiet(devnull, fn, *a, **k):
    import contextlib
    with contextlib.redirect_stdout(devnull):
        return fn(*a, **k)
