"""C28 purity, determinism, thread- and transform-independence."""
import concurrent.futures
import copy
import builtins
import decimal
import gc
import io
import locale
import logging
import os
import random
import resource
import signal
import subprocess
import sys
import threading
import time
import types
import warnings

import numpy as np

from .. import boot, catalog, intcalls
from ..core import digest, leaves, opt, to_np

RULE = ("A catalogue of about 60 public computations with random arguments, repeated in random order between failing "
        "calls, cache clearing and garbage collection, from 8 threads released together, from other processes with other hash seeds, "
        "compiled / uncompiled / batched / under the tracer-leak checker, and with every argument as another array kind.")
REQUIRED = {"repeat-identical": 300, "thread-identical": 300, "process-equal": 100, "uncompiled-agrees": 40, "batched-agrees": 40,
            "array-kind-agrees": 100, "integer-agrees": 200, "globals-untouched": 6, "alias-free": 40, "no-tracer-leak": 40, "inputs-untouched": 300,
            "hostile-repeatable": 80, "random-sequence-kept": 6, "settings-kept": 10}
ASSUMPTIONS = ["array kinds: contiguous, strided, reversed-view, read-only numpy arrays, device arrays, numpy scalars (most functions do not accept lists, "
               "the filter resampler does)"]


def module_state():
    """Digests of all plain data held by the modules of the package."""
    out = {}
    for mn, mod in sorted(sys.modules.items()):
        if not (mn == "dsps" or mn.startswith("dsps.")) or mod is None or ".tests" in mn:
            continue
        for k, v in list(vars(mod).items()):
            if k.startswith("_") or isinstance(v, (types.ModuleType, types.FunctionType, type)) or callable(v):
                continue
            try:
                out[mn, k] = (type(v).__name__, digest(to_np(list(v.items()) if isinstance(v, dict) else v)))
            except Exception:
                pass
        for k, v in list(vars(mod).items()):
            f = getattr(v, "__wrapped__", v)
            if not str(getattr(f, "__module__", "")).startswith("dsps"):
                continue
            if isinstance(f, types.FunctionType) and getattr(f, "__defaults__", None):
                out[mn, k, "defaults"] = digest(to_np(list(f.__defaults__)))
    return out


def process_state():
    import jax
    return dict(environment=str(sorted(os.environ.items())), directory=os.getcwd(), float_errors=str(np.geterr()), float_error_call=str(np.geterrcall()),
                x64=bool(jax.config.jax_enable_x64), jax_config=str(sorted((k, str(v)) for k, v in jax.config.values.items())),
                print_options=str(np.get_printoptions()), gc=(gc.isenabled(), gc.get_threshold()), warnings=[str(f) for f in warnings.filters],
                recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(), locale=locale.setlocale(locale.LC_ALL),
                signals=[str(signal.getsignal(s)) for s in sorted(signal.valid_signals())], timer=signal.getitimer(signal.ITIMER_REAL) != (0.0, 0.0),
                logging=(logging.getLogger().level, str(logging.getLogger().handlers), logging.root.manager.disable), path=list(sys.path),
                hooks=(str(sys.excepthook), str(sys.displayhook), str(threading.excepthook), sys.gettrace(), sys.getprofile()),
                streams=(id(sys.stdout), id(sys.stderr), id(sys.stdin)), umask=umask(), nice=os.nice(0), int_digits=sys.get_int_max_str_digits(),
                decimal=str(decimal.getcontext()), limits=str([resource.getrlimit(v) for v in (resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_STACK)]),
                threads=sorted(t.name for t in threading.enumerate() if not t.daemon), builtins=len(vars(builtins)))


def umask():
    with open("/proc/self/status") as f:
        return [v for v in f if v.startswith("Umask")]


class kept:
    """The settings of the process are the same after the block as before it."""

    def __init__(self, R, where):
        self.R, self.where = R, where

    def __enter__(self):
        self.p = process_state()

    def __exit__(self, et, *a):
        if et is None:
            q = process_state()
            self.R.ok("settings-kept", q == self.p, where=self.where, changed=[(k, str(self.p[k])[:200], str(q[k])[:200]) for k in q if q[k] != self.p[k]][:4])


def rng_state():
    s = np.random.get_state()
    return digest([s[1], s[2]]), hash(random.getstate())


def close(R, mon, got, want, rtol, **w):
    lg, lw = list(leaves(got)), list(leaves(want))
    if not R.ok(mon, len(lg) == len(lw), reason="number of results", **w):
        return
    for a, b in zip(lg, lw):
        a, b = np.asarray(a), np.asarray(b)
        if b.dtype.kind != "f":
            R.ok(mon, np.array_equal(a, b), **w)
            continue
        sc = float(np.nanmax(np.abs(b), initial=0.0))
        # rounding of a sum of the array's entries
        R.eq(mon, a, b, rtol=rtol, atol=rtol * 1e-2 * sc, **w)


def workload(R):
    import jax
    import jax.numpy as jnp
    import dsps
    from dsps.data_loaders import load_ssp_templates
    from dsps.dust import att_curves, blackbody  # noqa: F401
    from dsps.metallicity import mzr, umzr  # noqa: F401
    try:
        from dsps.metallicity.diagnostics import plot_mzr  # noqa: F401
    except ImportError:
        pass
    import dsps.data_loaders.load_emline_info  # noqa: F401
    import dsps.data_loaders.retrieve_fake_fsps_data  # noqa: F401

    def run(e):
        return to_np(e[1](*e[2]))

    def fails(r):
        """Calls that must raise, between the others."""
        from dsps import sed as S, photometry as P, utils as U
        k = int(r.integers(9))
        fs = [lambda: S.calc_age_weights_from_sfh_table(np.ones(5), np.ones(4), np.ones(6), 1.0),
              lambda: P.calc_rest_mag(np.ones((2, 3)), np.ones(4), np.ones(3), np.ones(3)),
              lambda: U.trapz(np.ones(3), np.ones(4)),
              lambda: load_ssp_templates(fn="/nonexistent/file.h5"),
              lambda: dsps.load_transmission_curve(fn="/nonexistent/file.h5"),
              lambda: dsps.calc_rest_mag("a", "b", "c", "d"),
              lambda: dsps.load_transmission_curve(drn=boot.scratch(), bn_pat="nope*"),
              lambda: load_ssp_templates(drn=boot.scratch(), bn="nope.h5"),
              lambda: dsps.load_transmission_curve(fn=boot.scratch())]
        try:
            fs[k]()
            R.fail("bad-call-raises", dict(k=k))
        except Exception:
            R.hit("bad-call-raises")

    # ---- histories
    for c in R.cases("history", 2, 40):
        with c:
            r = c.rng
            es = catalog.entries(int(r.integers(10000)))
            # in between, other numbers in the same shapes and in other shapes
            fs = catalog.entries(int(r.integers(10000)))
            hs = catalog.entries(int(r.integers(10000)), nt=26, nz=4, na=13, nw=29, nf=17)
            g0, p0 = module_state(), process_state()
            ins = [digest(e[2]) for e in es]
            base = []
            for e in es:
                s0 = rng_state()
                base.append(R.call(e[0], e[1], *e[2]))
                if e[0] != "load_ssp_templates(dummy)":     # draws its made-up line luminosities
                    R.ok("random-state-untouched", rng_state() == s0, name=e[0])
            d0 = [digest(b) for b in base]
            for e, b in zip(es, base):
                R.finite("finite", b, name=e[0])
            for rep in range(3):
                for i in r.permutation(len(es)):
                    e = es[i]
                    if r.random() < 0.15:
                        fails(r)
                    if r.random() < 0.05:
                        gc.collect()
                    if r.random() < 0.4:
                        o = (fs if r.random() < 0.7 else hs)[i]
                        R.call(o[0], o[1], *o[2])
                    elif rep == 0 and r.random() < 0.5:     # other values through the same argument objects' shapes
                        fails(r)
                    out = R.call(e[0], e[1], *e[2])
                    R.ok("repeat-identical", digest(out) == d0[i], name=e[0], rep=rep, first=base[i], now=out)
                if rep == 0:
                    jax.clear_caches()       # a fresh compilation gives the same bits
            for e, d in zip(es, ins):
                R.ok("inputs-untouched", digest(e[2]) == d, name=e[0])
            g1, p1 = module_state(), process_state()
            R.ok("globals-untouched", g0 == g1, changed=[str(k) for k in set(g0) | set(g1) if g0.get(k) != g1.get(k)][:6])
            R.ok("settings-kept", p0 == p1, where="history", changed=[(k, str(p0[k])[:200], str(p1[k])[:200]) for k in p0 if p0[k] != p1[k]][:4])
            R.ok("globals-untouched", len(g0) > 40, n=len(g0))
            # results do not alias inputs or library state
            for e, b, d in zip(es, base, d0):
                out = e[1](*copy.deepcopy(e[2]))
                arrs = [a for a in leaves(to_np(out)) if isinstance(a, np.ndarray)]
                for a in arrs:
                    if a.flags.writeable and a.dtype.kind == "f":
                        a[...] = np.nan
                R.ok("alias-free", digest(run(e)) == d, name=e[0], why="overwriting a result changed the next one")
                if e[0] == "get_subset_emline_data":     # hands on the grids it was given
                    continue
                cp = copy.deepcopy(e[2])
                out = e[1](*cp)
                jax.block_until_ready([v for v in leaves(out) if hasattr(v, "block_until_ready")])
                for a in leaves(cp):
                    if isinstance(a, np.ndarray) and a.dtype.kind == "f":
                        a[...] = np.nan
                R.ok("alias-free", digest(to_np(out)) == d, name=e[0], why="overwriting the inputs changed the result")
    # ---- damaged numbers: the outcome may be anything, but it is the same each time and the arguments stay as they are
    for c in R.cases("hostile", 1, 16):
        with c:
            r = c.rng
            es = catalog.entries(int(r.integers(10000)))
            bad = [np.nan, np.inf, -np.inf, -0.0, 0.0, -1e-3, -1.0, 1e-310, 1e300]
            for e in es:
                def hurt(a):
                    if isinstance(a, list):
                        return [hurt(v) for v in a]
                    if not isinstance(a, np.ndarray) or a.dtype.kind != "f" or not a.size:
                        return a
                    b = a.copy()
                    b.flat[r.integers(0, a.size, 1 + a.size // 8)] = r.choice(bad[which])
                    return b
                for which in (slice(0, 3), slice(3, None)):
                    aa = [hurt(v) for v in e[2]]
                    d0 = digest(aa)

                    def once():
                        with np.errstate(all="ignore"):
                            try:
                                return digest(run((e[0], e[1], aa)))
                            except Exception as x:
                                return "refused " + type(x).__name__
                    a, b = once(), once()
                    R.ok("hostile-repeatable", a == b, name=e[0])
                    R.ok("inputs-untouched", digest(aa) == d0, name=e[0], why="damaged numbers in the arguments")
    # ---- functions that draw must continue the caller's random sequence, not restart it
    from dsps.data_loaders import load_random_transmission_curve
    draws = dict(dummy=lambda: load_ssp_templates(dummy=True), curve=load_random_transmission_curve)
    for c in R.cases("drawing", 4, 16):
        with c, kept(R, "drawing"):
            r = c.rng
            keep = random.getstate(), np.random.get_state()
            for name, f in draws.items():
                after = []
                for sd in (int(r.integers(1000)), int(r.integers(1000, 2000))):
                    random.seed(sd), np.random.seed(sd)
                    for _ in range(c.index % 3):
                        f()
                    R.call(name, f)
                    after.append((digest(list(random.getstate()[1])), digest([np.random.get_state()[1], np.random.get_state()[2]])))
                R.ok("random-sequence-kept", after[0][0] != after[1][0] and after[0][1] != after[1][1], name=name)
            for f, mk in ((random.seed, random.random), (np.random.seed, np.random.random)):
                # a key leaves the process-wide sequences alone
                f(int(r.integers(1000)))
                s0 = rng_state()
                key = jax.random.PRNGKey(int(r.integers(2**31)))
                R.call("load_random_transmission_curve", load_random_transmission_curve, ran_key=key)
                R.call("load_random_transmission_curve", load_random_transmission_curve, ran_key=key, tcurve_center=4000.0)
                R.ok("random-state-untouched", rng_state() == s0, name="load_random_transmission_curve(key)")
            random.setstate(keep[0]), np.random.set_state(keep[1])
    # ---- what a reader returns belongs to the caller: spoiling it does not change what the next call returns
    from .. import h5tools
    from dsps.data_loaders import load_emline_info as le, load_transmission_curve, load_random_transmission_curve as lr
    lines = os.path.join(boot.REPO, "dsps", "data", "emlines_info.dat")
    tab = opt("dsps.data_loaders.retrieve_fsps_data", "get_fsps_emline_info")

    def spoil(v):
        if isinstance(v, dict):
            v.clear()
        elif isinstance(v, list):
            del v[:]
        elif isinstance(v, tuple):
            for q in v:
                spoil(q)
        elif isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind in "fiu":
            v[...] = 0

    def plain(v):
        return list(v.items()) if isinstance(v, dict) else [plain(q) for q in v] if isinstance(v, (tuple, list)) else v
    for c in R.cases("readers", 3, 20):
        with c, kept(R, "readers"):
            r = c.rng
            d = os.path.join(boot.scratch(), "readers%d" % c.index)
            os.makedirs(os.path.join(d, "filters"))
            h5tools.write(os.path.join(d, "ssp.h5"), h5tools.ssp_content(r, nl=[0, 4][c.index % 2]))
            tc = dict(wave=np.sort(r.uniform(1e3, 1e4, 30)), transmission=r.uniform(0, 1, 30))
            for fn in (os.path.join(d, "t_a.h5"), os.path.join(d, "filters", "t_a.h5")):
                h5tools.write(fn, tc)
            key = jax.random.PRNGKey(int(r.integers(1000)))
            fs = dict(read_emlines=lambda: le.read_emlines_info_fsps(lines), read_emlines_test=lambda: le.read_emlines_info_fsps(lines, testmode=True),
                      load_fn=lambda: load_ssp_templates(fn=os.path.join(d, "ssp.h5")), load_drn=lambda: load_ssp_templates(drn=d, bn="ssp.h5"),
                      curve_fn=lambda: load_transmission_curve(fn=os.path.join(d, "t_a.h5")), curve_drn=lambda: load_transmission_curve(drn=d, bn_pat="t_a*"),
                      curve_random=lambda: lr(ran_key=key))
            if tab is not None:
                fs["fsps_lines"] = tab
            for name, f in fs.items():
                a = R.call("reader " + name, f)
                d0 = digest(to_np(plain(a)))
                for _ in range(2):
                    spoil(a)
                    a = f()
                    R.ok("alias-free", digest(to_np(plain(a))) == d0, name=name, why="spoiling a result changed the next one")
            import shutil
            shutil.rmtree(d)
    # ---- schedules
    old = sys.getswitchinterval()
    for c in R.cases("threads", 2, 16):
        with c:
            r = c.rng
            shape = dict(nt=int(r.integers(20, 40)), na=int(r.integers(10, 20)), nw=int(r.integers(20, 50)))
            # two sets of arguments of the same shapes, so that concurrent calls differ in their numbers only
            sets = [catalog.entries(int(r.integers(10000)), **shape) for _ in range(2)]
            es = sets[0] + sets[1]
            m = len(sets[0])
            cold = c.index % 2 == 0
            if cold:
                jax.clear_caches()
            else:
                base = [digest(R.call(e[0], e[1], *e[2])) for e in es]
            nth = 8
            bar = threading.Barrier(nth)
            res = [dict() for _ in range(nth)]
            errs = []
            # in lock step on the same function (half of the threads on each set), or each in its own order
            orders = [r.permutation(len(es)) if k % 4 == 3 else (np.arange(len(es)) + m * (k % 2)) % len(es) for k in range(nth)]
            g0 = module_state()
            stop = time.time() + (60 if not R.thorough else 240)     # a loaded machine: fewer repetitions, not a verdict
            cut = []

            def work(k):
                try:
                    bar.wait(60)
                    for rep in range(2):
                        for i in orders[k]:
                            if time.time() > stop:
                                cut.append(k)
                                return
                            res[k].setdefault(int(i), []).append(digest(run(es[i])))
                except Exception as e:      # judged below
                    errs.append(repr(e)[:400])
            sys.setswitchinterval(1e-5)
            ths = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(nth)]
            for th in ths:
                th.start()
            for th in ths:
                th.join(280)
            # host-side functions, hammered: short calls with other numbers in every thread
            host = [[e for e in s if e[0] in catalog.NO_JIT] for s in sets]
            if host[0]:
                bar2 = threading.Barrier(nth)
                got2 = [dict() for _ in range(nth)]

                def hammer(k):
                    try:
                        bar2.wait(60)
                        for rep in range(12):
                            for j, e in enumerate(host[k % 2]):
                                if rep and ("dummy" in e[0] or time.time() > stop + 30):       # slow to build
                                    continue
                                got2[k].setdefault(j, set()).add(digest(run(e)))
                    except Exception as e:
                        errs.append(repr(e)[:400])
                ths2 = [threading.Thread(target=hammer, args=(k,), daemon=True) for k in range(nth)]
                for th in ths2:
                    th.start()
                for th in ths2:
                    th.join(280)
                ths = ths + ths2
            sys.setswitchinterval(old)
            if host[0]:
                for s in range(2):
                    for j, e in enumerate(host[s]):
                        d = digest(run(e))
                        seen = set().union(*[got2[k].get(j, set()) for k in range(nth) if k % 2 == s])
                        R.ok("thread-identical", seen == {d}, name=e[0], distinct=len(seen), hammered=True)
            R.ok("threads-succeed", not errs and not any(th.is_alive() for th in ths), errs=errs[:2])
            if cold:
                base = [digest(R.call(e[0], e[1], *e[2])) for e in es]
            for i, e in enumerate(es):
                got = [d for k in range(nth) for d in res[k].get(i, [])]
                R.events += len(got)
                R.hit("thread-identical", max(len(got) - 1, 0))
                R.ok("thread-identical", (len(got) > 0 or cut) and all(d == base[i] for d in got), name=e[0], n=len(got), distinct=len(set(got)), cold=cold)
            R.ok("globals-untouched", module_state() == g0)
    # ---- other processes
    for c in R.cases("process", 1, 6):
        with c:
            r = c.rng
            seeds = [int(v) for v in r.integers(0, 10000, 2)]
            env = dict(os.environ, PYTHONHASHSEED=str(int(r.integers(1, 4000))), XLA_FLAGS="", OMP_NUM_THREADS=str(int(r.choice([1, 4]))))
            code = ("import sys; sys.dont_write_bytecode=True; sys.path[:0]=[%r,%r]\nfrom rvmon import boot; boot.prepare_env.__call__\n"
                    "boot.import_dsps()\nfrom rvmon import catalog; catalog.main(%r, %%s)" % (boot.REPO, boot.VERIF, seeds))
            # two processes that make the calls in opposite orders: no call may depend on those before it
            ps = [subprocess.Popen([sys.executable, "-c", code % back], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=boot.scratch())
                  for back in ("False", "True")]
            outs = []
            with concurrent.futures.ThreadPoolExecutor(2) as ex:
                outs = list(ex.map(lambda q: q.communicate(timeout=300), ps))
            others = []
            for q, (o, e) in zip(ps, outs):
                if R.ok("process-ran", q.returncode == 0, err=e[-800:].decode(errors="replace")):
                    others.append(np.load(io.BytesIO(o)))
            for sd in seeds:
                for i, e in enumerate(catalog.entries(sd)):
                    mine = list(leaves(R.call(e[0], e[1], *e[2])))
                    for other in others:
                        for j, v in enumerate(mine):
                            o = other["%d|%d|%d" % (sd, i, j)]
                            v = np.asarray(v)
                            if not R.ok("process-equal", v.dtype == o.dtype and v.shape == o.shape, name=e[0], a=str((v.dtype, v.shape)), b=str((o.dtype, o.shape))):
                                continue
                            if v.dtype.kind == "f":
                                R.eq("process-equal", o, v, rtol=1e-11, atol=1e-13 * np.max(np.abs(v), initial=0), name=e[0])
                            else:
                                R.ok("process-equal", np.array_equal(v, o), name=e[0])
    # ---- evaluation modes
    for c in R.cases("modes", 1, 12):
        with c, kept(R, "modes"):
            r = c.rng
            es = [e for e in catalog.entries(int(r.integers(10000))) if e[0] not in catalog.NO_JIT]
            base = [R.call(e[0], e[1], *e[2]) for e in es]
            with jax.disable_jit():
                for e, b in zip(es, base):
                    close(R, "uncompiled-agrees", R.call("uncompiled " + e[0], e[1], *e[2]), b, 1e-9, name=e[0])
            for e, b in zip(es, base):
                with jax.checking_leaks():
                    def leak_checked(*a, f=e[1]):
                        return f(*a)
                    try:
                        out = to_np(jax.jit(leak_checked)(*e[2]))
                        R.ok("no-tracer-leak", True)
                    except Exception as x:
                        R.fail("no-tracer-leak", dict(name=e[0], error=repr(x)[:400]))
                        continue
                close(R, "outer-jit-agrees", out, b, 1e-9, name=e[0])
            for e, b in zip(es, base):
                n, f, a, batch = e
                for pos in batch if R.thorough else [int(r.choice(batch))] if batch else []:
                    v0 = float(a[pos])
                    vs = v0 * (1 + 0.03 * r.normal(0, 1, 4)) + (0.01 * np.abs(r.normal(0, 1, 4)) if v0 == 0 else 0)
                    vs[0] = v0
                    axes = [None] * len(a)
                    axes[pos] = 0
                    aa = list(a)
                    aa[pos] = vs
                    got = R.call("vmap " + n, lambda *q, f=f, axes=axes: jax.vmap(f, in_axes=axes)(*q), *aa)
                    for j, v in enumerate(vs):
                        aa[pos] = float(v)
                        one = R.call(n, f, *aa)
                        close(R, "batched-agrees", jax.tree_util.tree_map(lambda q: q[j], got), one, 1e-9, name=n, pos=pos, j=j)
                    if r.random() < 0.5 or R.thorough:
                        outer = R.call("vmap of array axis " + n, lambda *q, f=f, a=a: jax.vmap(lambda k: f(*[k * v if i == pos else v for i, v in enumerate(a)]))(jnp.ones(2)))
                        close(R, "batched-agrees", jax.tree_util.tree_map(lambda q: q[1], outer), b, 1e-9, name=n, pos=pos)
    # whole numbers as integers
    for c in R.cases("integers", 2, 30):
        with c, kept(R, "integers"):
            for n, f, a in intcalls.entries(c.rng):
                b = R.call(n, f, *[intcalls.as_float(x) for x in a])
                for sel in intcalls.selections(a):
                    aa = [x if i in sel else intcalls.as_float(x) for i, x in enumerate(a)]
                    out = R.call("integer " + n, f, *aa)
                    close(R, "integer-agrees", out, b, 1e-9, name=n, integers=str(sel), args=str(aa)[:400])
    for c in R.cases("kinds", 1, 12):
        with c, kept(R, "kinds"):
            r = c.rng
            es = [e for e in catalog.entries(int(r.integers(10000))) if e[0] not in catalog.NO_JIT]

            def strided(a):
                q = np.full(2 * a.size, 7.5)
                q[::2] = a.ravel()
                return q[::2].reshape(a.shape) if a.ndim == 1 else np.asfortranarray(a)

            def readonly(a):
                q = a.copy()
                q.flags.writeable = False
                return q
            kinds = dict(device=jnp.asarray, strided=strided, reversed_view=lambda a: a[::-1].copy()[::-1], readonly=readonly)
            for e in es:
                n, f, a, batch = e
                b = R.call(n, f, *a)
                for kn, k in kinds.items():
                    conv = [k(v) if isinstance(v, np.ndarray) and v.dtype.kind == "f" else v for v in a]
                    dg = [np.asarray(v).tobytes() for v in conv if hasattr(v, "dtype")]
                    out = R.call("%s %s" % (kn, n), f, *conv)
                    close(R, "array-kind-agrees", out, b, 1e-11, name=n, kind=kn)
                    R.ok("inputs-untouched", dg == [np.asarray(v).tobytes() for v in conv if hasattr(v, "dtype")], name=n, kind=kn)
                for kn, k in (("np.float64", np.float64), ("0-d array", np.asarray), ("0-d device", jnp.asarray)):
                    conv = [k(v) if isinstance(v, float) else v for v in a]
                    out = R.call("%s %s" % (kn, n), f, *conv)
                    close(R, "array-kind-agrees", out, b, 1e-11, name=n, kind=kn)
                    R.ok("array-kind-dtype", [np.asarray(v).dtype for v in leaves(out)] == [np.asarray(v).dtype for v in leaves(b)], name=n, kind=kn)
            # float32 inputs must not silently lower the precision of the double-precision arguments' results
