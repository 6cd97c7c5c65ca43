"""C29 imports: precision, order independence, side effects."""
import concurrent.futures
import json
import os
import subprocess
import sys

import numpy as np

from .. import boot, h5tools, ref

RULE = ("Every module of the package as the first import of a fresh interpreter; random orders of all modules; optional "
        "packages blocked; empty environment; 32-bit default forced; arithmetic already used before the import; an audit hook "
        "records file writes, environment changes and child processes while importing.")
REQUIRED = {"import-succeeds": 30, "x64-after-first": 30, "double-results": 100, "order-independent": 100, "advertised": 15,
            "no-writes": 3, "constants": 12, "double-constants": 60, "optional-missing": 2}
ASSUMPTIONS = ["third-party packages are imported beforehand where side effects are audited"]

CORE = """dsps dsps.constants dsps.cosmology dsps.cosmology.defaults dsps.cosmology.flat_wcdm dsps.data_loaders dsps.data_loaders.defaults
dsps.data_loaders.load_emline_info dsps.data_loaders.load_filter_data dsps.data_loaders.load_ssp_data dsps.data_loaders.retrieve_fake_fsps_data
dsps.data_loaders.retrieve_fsps_data dsps.dust dsps.dust.att_curves dsps.dust.blackbody dsps.dust.utils dsps.em_lines
dsps.em_lines.equivalent_width dsps.imf dsps.imf.remnant_mass dsps.imf.surviving_mstar dsps.metallicity
dsps.metallicity.defaults dsps.metallicity.diagnostics dsps.metallicity.diagnostics.plot_mzr dsps.metallicity.mzr dsps.metallicity.umzr
dsps.photometry dsps.photometry.photometry_kernels dsps.photometry.photpop dsps.photometry.utils dsps.sed dsps.sed.metallicity_weights
dsps.sed.ssp_weights dsps.sed.stellar_age_weights dsps.sed.stellar_sed dsps.sfh dsps.sfh.diffburst dsps.utils""".split()

PUBLIC = {
    "dsps": "SSPData load_ssp_templates load_transmission_curve calc_obs_mag calc_rest_mag calc_rest_sed_sfh_table_lognormal_mdf "
            "calc_rest_sed_sfh_table_met_table calc_ssp_weights_sfh_table_lognormal_mdf calc_ssp_weights_sfh_table_met_table "
            "calc_age_weights_from_sfh_table calc_lgmet_weights_from_lognormal_mdf calc_lgmet_weights_from_lgmet_table cumulative_mstar_formed",
    "dsps.cosmology": "comoving_distance_to_z luminosity_distance_to_z distance_modulus_to_z angular_diameter_distance_to_z lookback_to_z "
                      "age_at_z0 age_at_z rho_crit virial_dynamical_time CosmoParams PLANCK15 WMAP5 FSPS_COSMO DEFAULT_COSMOLOGY TODAY",
    "dsps.data_loaders": "SSPData load_random_transmission_curve load_transmission_curve load_ssp_templates retrieve_ssp_data_from_fsps DEFAULT_SSP_BNAME DEFAULT_SSP_KEYS",
    "dsps.dust": "blackbody_freq_density blackbody_wave_density",
    "dsps.photometry": "calc_obs_mag calc_rest_mag",
    "dsps.sed": "calc_rest_sed_sfh_table_lognormal_mdf calc_rest_sed_sfh_table_met_table calc_ssp_weights_sfh_table_lognormal_mdf "
                "calc_ssp_weights_sfh_table_met_table calc_age_weights_from_sfh_table calc_lgmet_weights_from_lognormal_mdf calc_lgmet_weights_from_lgmet_table",
    "dsps.metallicity.defaults": "DEFAULT_MET_PARAMS",
}

CONST = {("dsps.constants", "SFR_MIN"): 1e-14, ("dsps.constants", "T_BIRTH_MIN"): 0.001, ("dsps.constants", "T_TABLE_MIN"): 0.01,
         ("dsps.constants", "N_T_LGSM_INTEGRATION"): 100, ("dsps.constants", "LGMET_LO"): -10.0, ("dsps.constants", "LGMET_HI"): 10.0,
         ("dsps.constants", "L_SUN_CGS"): 3.828e33}
COSMO = {"PLANCK15": (0.3075, -1.0, 0.0, 0.6774), "WMAP5": (0.277, -1.0, 0.0, 0.702), "FSPS_COSMO": (0.27, -1.0, 0.0, 0.72)}


def num(c):
    if isinstance(c, list) and c and c[0] in ("int", "float", "float64"):
        return float.fromhex(c[1])
    if isinstance(c, list) and c and c[0].startswith("nt:"):
        return tuple(num(x) for x in c[2])
    if isinstance(c, list) and c and c[0] in ("tuple", "list"):
        return tuple(num(x) for x in c[1])
    if isinstance(c, list) and c and c[0] == "array":
        return tuple(np.frombuffer(bytes.fromhex(c[3]), c[1]))
    return None


def leaves(c):
    """All floats inside an encoded constant."""
    if isinstance(c, list):
        if len(c) > 1 and c[0] in ("float", "float64"):
            return [float.fromhex(c[1])]
        if c and c[0] == "array" and "f" in str(c[1]):
            a = np.frombuffer(bytes.fromhex(c[3]), c[1])
            return [np.nan] if a.dtype.itemsize < 8 else [float(x) for x in a.ravel()]
        return [y for x in c for y in leaves(x)]
    return []


def single(x):
    """A number that was rounded to single precision on its way (nan stands for a narrow array)."""
    if np.isnan(x):
        return True
    if x == 0 or not np.isfinite(x) or abs(x) > 1e38 or abs(x) < 1e-37:
        return False
    return float(np.float32(x)) == x and float("%.7g" % x) != x and x * 4096 != round(x * 4096)


def probe(spec, env=None, args=()):
    e = dict(os.environ)
    e.update(PYTHONPATH=boot.REPO, PYTHONDONTWRITEBYTECODE="1")
    if env is not None:
        e = dict(env, PYTHONPATH=boot.REPO, PYTHONDONTWRITEBYTECODE="1")
    spec = dict(spec, stub_version=not os.path.isfile(os.path.join(boot.REPO, "dsps", "_version.py")))
    wd = boot.scratch()
    p = subprocess.run([sys.executable, *args, os.path.join(boot.VERIF, "rvmon", "importprobe.py"), json.dumps(spec)], env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, cwd=wd)
    out = p.stdout.decode(errors="replace")
    if "\n@@" not in out:
        return dict(error="no report: rc=%s %s" % (p.returncode, p.stderr.decode(errors="replace")[-800:])), wd
    return json.loads(out.split("\n@@")[-1]), wd


def env_given(nm):
    return nm.startswith("bare")


def modules():
    """The package's own modules, found on disk."""
    out = []
    root = os.path.join(boot.REPO, "dsps")
    for d, sub, fs in os.walk(root):
        sub[:] = [s for s in sorted(sub) if s not in ("tests", "__pycache__", "data")]
        rel = os.path.relpath(d, boot.REPO).replace(os.sep, ".")
        if "__init__.py" not in fs:
            sub[:] = []
            continue
        out.append(rel)
        out += [rel + "." + f[:-3] for f in sorted(fs) if f.endswith(".py") and f not in ("__init__.py", "_version.py")]
    return out


def workload(R):
    found = modules()
    # dsps.experimental and the like are covered as first imports; modules that a refactoring
    # dropped are not demanded, their public names are (below)
    mods = [m for m in CORE if m in found] + [m for m in found if m not in CORE]
    R.ok("modules-found", len(mods) >= 30, n=len(mods))
    def tree():
        return {k: v for k, v in h5tools.tree(os.path.join(boot.REPO, "dsps")).items() if "__pycache__" not in k}
    before = tree()
    pool = concurrent.futures.ThreadPoolExecutor(8)
    jobs = []
    full = ["dsps"] + [m for m in mods if m != "dsps"]
    jobs.append(("baseline", dict(order=full), None, ()))
    for m in mods:
        r = R.rng("first", m)
        rest = [x for x in mods if x != m]
        rest = list(r.permutation(rest))
        compute = R.thorough or r.random() < 0.4 or m in ("dsps.cosmology.defaults", "dsps.sed", "dsps.dust.blackbody", "dsps.constants", "dsps.utils")
        jobs.append(("first " + m, dict(order=[m] + rest, compute=bool(compute)), None, ()))
    for k in range(R.n(4, 60)):
        r = R.rng("order", k)
        jobs.append(("order %d" % k, dict(order=list(r.permutation(mods))), None, ()))
    for k, blk in enumerate((["fsps", "matplotlib"], ["fsps", "matplotlib", "astropy", "scipy._nothing", "pandas", "tqdm", "pytest"])):
        jobs.append(("blocked %d" % k, dict(order=full, block=blk), None, ()))
    for k, err in enumerate(("RuntimeError('You need to have the SPS_HOME environment variable')", "ImportError('libfsps.so: cannot open')")):
        d = boot.scratch()          # the optional package is there but cannot be used
        with open(os.path.join(d, "fsps.py"), "w") as fh:
            fh.write("raise " + err + "\n")
        jobs.append(("unusable fsps %d" % k, dict(order=full, path=d, block=["nothing"]), None, ()))
    jobs.append(("bare environment", dict(order=full), dict(PATH=os.environ.get("PATH", "")), ()))
    jobs.append(("32-bit requested", dict(order=full), dict(os.environ, JAX_ENABLE_X64="0"), ()))
    jobs.append(("32-bit requested, part first", dict(order=["dsps.cosmology.defaults"] + [m for m in full if m != "dsps.cosmology.defaults"]),
                 dict(os.environ, JAX_ENABLE_X64="0"), ()))
    jobs.append(("data directory missing", dict(order=full), dict(os.environ, DSPS_DRN="/nonexistent"), ()))
    jobs.append(("optimised", dict(order=full), None, ("-O",)))
    jobs.append(("optimised, no docs", dict(order=list(R.rng("oo").permutation(mods))), None, ("-OO",)))
    libs = ["numpy", "jax", "jax.numpy", "jax.scipy.stats", "jax.example_libraries", "h5py", "matplotlib", "matplotlib.pyplot", "matplotlib.cm"]
    jobs.append(("warnings are errors", dict(order=full, pre=libs, strict=True), None, ()))
    for k in range(R.n(3, 12)):
        r = R.rng("audit", k)
        jobs.append(("audit %d" % k, dict(order=full if k == 0 else list(r.permutation(mods)), audit=True,
                                          pre=["numpy", "jax", "jax.numpy", "jax.scipy.stats", "jax.example_libraries", "h5py", "matplotlib", "matplotlib.pyplot", "matplotlib.cm"]), None, ()))
    plain = ("import json, jax, jax.numpy\njax.config.update('jax_enable_x64', True)\n"
             "print('\\n@@' + json.dumps({k: repr(v) for k, v in sorted(jax.config.values.items())}))")
    p = subprocess.run([sys.executable, "-c", plain], stdout=subprocess.PIPE, cwd=boot.scratch())
    options = json.loads(p.stdout.decode().split("\n@@")[-1])
    futs = [(nm, sp, pool.submit(probe, sp, env, args)) for nm, sp, env, args in jobs]
    base = None
    for (c, (nm, sp, fu)) in R.each("probe", futs):
        with c:
            rep, wd = fu.result()
            info = dict(scenario=nm, first=sp["order"][0])
            R.record("import " + sp["order"][0], [nm, sp["order"]], [rep.get("results", {}).get(k, [0, []])[1] and
                                                                    [float.fromhex(x) for x in rep["results"][k][1]] for k in rep.get("results", {})]
                     or [float(len(sp["order"])) + 0.5])
            if not R.ok("import-succeeds", rep.get("error") is None, error=str(rep.get("error"))[-900:], **info):
                continue
            R.ok("x64-after-first", rep["x64_after_first"] and rep["x64"], **info)
            got = rep["jax_options"]
            changed = {k: [options.get(k), got.get(k)] for k in options if got.get(k) != options[k]}
            R.ok("other-options-untouched", not changed or env_given(nm), changed=str(changed)[:300], **info)
            R.ok("no-stray-files", os.listdir(wd) == [], files=os.listdir(wd)[:5], **info)
            R.ok("environment-untouched", rep["env_changed"] == [] or not sp.get("audit"), changed=rep["env_changed"], **info)
            if sp.get("audit"):
                R.ok("no-writes", rep["writes"] == [], writes=rep["writes"][:5], **info)
                R.ok("no-writes", rep["spawned"] == [], spawned=rep["spawned"][:5], **info)
            st = rep["state"]
            res = rep.get("results")
            if base is None:
                base = rep
                for m, names in PUBLIC.items():
                    for n in names.split():
                        R.ok("advertised", n in st[m]["names"], module=m, name=n)
                for m in st:
                    R.ok("advertised", st[m]["missing"] == [], module=m, missing=st[m]["missing"])
                for (m, n), v in CONST.items():
                    R.eq("constants", num(st[m]["names"][n]), v, rtol=0, module=m, name=n)
                for m in st:
                    for n, v in st[m]["names"].items():
                        lv = leaves(v)
                        if lv:
                            R.ok("double-constants", not any(single(x) for x in lv), module=m, name=n, value=str(v)[:200])
                for m in ("dsps.metallicity.umzr", "dsps.metallicity.mzr"):
                    if "LGMET_SOLAR" in st[m]["names"]:
                        R.eq("constants", num(st[m]["names"]["LGMET_SOLAR"]), np.log10(0.012), rtol=1e-15, module=m)
                for n, v in COSMO.items():
                    R.eq("constants", num(st["dsps.cosmology"]["names"][n]), v, rtol=0, name=n)
                R.eq("constants", num(st["dsps.cosmology"]["names"]["DEFAULT_COSMOLOGY"]), COSMO["PLANCK15"], rtol=0)
                R.eq("constants", num(st["dsps.cosmology"]["names"]["TODAY"])[0], ref.age0(*COSMO["PLANCK15"]), rtol=2e-4)
                keys = st["dsps.data_loaders"]["names"]["DEFAULT_SSP_KEYS"]
                R.ok("constants", [k.strip("'") for k in keys[1]] == ["ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux"], keys=keys)
            for m in st:
                a, b = st[m]["names"], base["state"][m]["names"]
                if sp.get("block"):     # names of optional packages may be absent
                    opt = {k for k in set(a) ^ set(b)} | {"HAS_MATPLOTLIB", "HAS_FSPS", "cm", "mlines", "plt"}
                    R.ok("optional-missing", all(b.get(k) in ("foreign", None) or k.startswith("HAS") for k in set(b) - set(a)) and not set(a) - set(b),
                         module=m, differ=sorted(set(a) ^ set(b))[:6], **info)
                    a = {k: v for k, v in a.items() if k not in opt}
                    b = {k: v for k, v in b.items() if k not in opt}
                bad = [k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0)]
                R.ok("order-independent", not bad, module=m, differ=[[k, str(a.get(k))[:120], str(b.get(k))[:120]] for k in bad[:3]], **info)
            if res:
                for k, (dt, v) in res.items():
                    R.ok("double-results", dt == "float64", result=k, dtype=dt, **info)
                    R.eq("order-independent", [float.fromhex(x) for x in v], [float.fromhex(x) for x in base["results"][k][1]], rtol=1e-11, atol=1e-300, result=k, **info)
    pool.shutdown()
    R.ok("package-tree-untouched", tree() == before)
