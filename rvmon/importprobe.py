"""Runs in a fresh interpreter: import dsps modules in a given order and report what is observable.

Only the standard library is imported before the first module under test."""
import builtins
import json
import os
import sys


def main(spec):
    rep = dict(writes=[], spawned=[], error=None)
    if spec.get("stub_version"):
        import types
        m = types.ModuleType("dsps._version")
        m.__version__ = "0.0.0"
        sys.modules["dsps._version"] = m
    for name in spec.get("pre", []):
        __import__(name)
    if spec.get("path"):
        sys.path.insert(0, spec["path"])
    block = tuple(spec.get("block", []))
    if block:
        class Block:
            def find_spec(self, name, path=None, target=None):
                if name.split(".")[0] in block:
                    raise ImportError("blocked " + name)
        sys.meta_path.insert(0, Block())
    on = [False]

    def hook(ev, args):
        if not on[0]:
            return
        if ev == "open":
            path, mode, flags = args
            w = isinstance(mode, str) and any(c in mode for c in "wax+")
            w = w or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            if w and str(path) not in ("/dev/null",):
                rep["writes"].append(str(path))
        elif ev in ("os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.symlink", "os.link", "os.truncate", "shutil.copyfile", "os.chmod", "os.putenv", "os.chdir"):
            rep["writes"].append(ev + " " + repr(args)[:200])
        elif ev in ("subprocess.Popen", "os.system", "os.exec", "os.fork", "socket.connect"):
            rep["spawned"].append(ev + " " + repr(args)[:200])
    if spec.get("audit"):
        sys.addaudithook(hook)
    import importlib
    order = spec["order"]
    env0 = dict(os.environ)
    if spec.get("strict"):
        import warnings
        warnings.simplefilter("error")
    on[0] = True
    try:
        importlib.import_module(order[0])
    except BaseException as e:
        import traceback
        rep["error"] = "import %s: %r\n%s" % (order[0], e, traceback.format_exc()[-1200:])
        print("\n@@" + json.dumps(rep))
        return
    import jax
    rep["x64_after_first"] = bool(jax.config.jax_enable_x64)
    try:
        for m in order[1:]:
            importlib.import_module(m)
    except BaseException as e:
        import traceback
        rep["error"] = "import %s: %r\n%s" % (m, e, traceback.format_exc()[-1200:])
        print("\n@@" + json.dumps(rep))
        return
    on[0] = False
    rep["env_changed"] = sorted(k for k in set(env0) | set(os.environ) if env0.get(k) != os.environ.get(k))
    rep["x64"] = bool(jax.config.jax_enable_x64)
    rep["jax_options"] = {k: repr(v) for k, v in sorted(jax.config.values.items())}
    if len(order) > 1 or spec.get("single"):
        rep["state"] = state(order)
        if spec.get("compute", True):
            rep["results"] = compute()
    print("\n@@" + json.dumps(rep))


def const(v):
    import numpy as np
    if isinstance(v, bool) or v is None:
        return repr(v)
    if isinstance(v, (int, float)):
        return [type(v).__name__, float(v).hex() if abs(v) < 1e300 else repr(v)]
    if isinstance(v, (str, bytes)):
        return repr(v)
    if isinstance(v, dict):
        return ["dict", [[str(k), const(x)] for k, x in v.items()]]
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return ["nt:" + type(v).__name__, list(v._fields), [const(x) for x in v]]
    if isinstance(v, (tuple, list)):
        return [type(v).__name__, [const(x) for x in v]]
    if hasattr(v, "dtype") and hasattr(v, "shape"):
        a = np.asarray(v)
        return ["array", str(a.dtype), list(a.shape), a.tobytes().hex()[:4000]]
    return None


def state(order):
    import inspect
    out = {}
    for m in order:
        mod = sys.modules[m]
        d = {}
        for k, v in sorted(vars(mod).items()):
            if k.startswith("_") or inspect.ismodule(v):
                continue
            c = const(v) if not callable(v) else None
            if callable(v):
                try:
                    c = ["callable", [[n, const(p.default) if p.default is not p.empty else "-"] for n, p in inspect.signature(v).parameters.items()]] \
                        if str(getattr(v, "__module__", "")).startswith("dsps") else "foreign"
                except (TypeError, ValueError):
                    c = "callable"
            d[k] = c
        adv = getattr(mod, "__all__", None)
        out[m] = dict(names=d, missing=[n for n in adv if not hasattr(mod, n)] if adv else [])
    return out


def compute():
    """Double-precision inputs through one function of every part."""
    import numpy as np
    import dsps
    from dsps import cosmology as C, sed as S, utils as U
    from dsps.dust import att_curves as A, blackbody_freq_density as bn
    from dsps.imf.surviving_mstar import surviving_mstar
    from dsps.metallicity import mzr, umzr
    from dsps.sfh import diffburst as db
    t = np.linspace(0.1, 13.5, 23)
    s = np.exp(-t / 3)
    lg = np.linspace(-3, 1.1, 12)
    w = np.linspace(1000.0, 9000, 31)
    r = dict(
        age=C.age_at_z(np.array([0.5, 2.0]), *C.DEFAULT_COSMOLOGY), today=C.TODAY, dist=C.luminosity_distance_to_z(0.7, *C.PLANCK15),
        ageweights=S.calc_age_weights_from_sfh_table(t, s, lg, 11.0),
        met=S.calc_lgmet_weights_from_lognormal_mdf(-2.1, 0.2, np.linspace(-4, -1.5, 6)),
        mag=dsps.calc_rest_mag(w, w**-0.5, w[5:20], np.ones(15)), mstar=dsps.cumulative_mstar_formed(t, s), trapz=U.trapz(t, s),
        k=A.sbl18_k_lambda(w * 1e-4, 2.0, -0.3), bb=bn(np.logspace(12, 15, 4), 5000.0), surv=surviving_mstar(np.linspace(6, 10.0, 4)),
        mzr=umzr.mzr_model(np.linspace(8, 11.0, 4), 9.0, *umzr.DEFAULT_MZR_PARAMS), mzr0=mzr.mzr_model_t0(np.linspace(8, 11.0, 4), 0.05, 10.5, 1.0, 0.4, 0.1),
        burst=db.calc_bursty_age_weights(db.BurstParams(-2.0, 6.3, 7.7), np.ones(12) / 12, lg))
    import jax.numpy as jnp
    r["fresh"] = jnp.linspace(0, 1, 3)
    return {k: [str(np.asarray(v).dtype), [float(x).hex() for x in np.asarray(v).ravel()]] for k, v in r.items()}


if __name__ == "__main__":
    main(json.loads(sys.argv[1]))
