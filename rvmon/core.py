"""Event recording, monitors and verdicts.

A check drives the real code through `Run.call`, which records every call and
return at the API boundary (function, digests of arguments and result).  The
monitors (`ok`, `eq`, `finite`, `same`, ...) are the oracles: each evaluation is
counted under the monitor's name, and a failing one is kept with the witness and
the (seed, family, case) triple that regenerates it.  The verdict has three
values: 0 held on what was observed, 1 violated, 3 inconclusive (a monitor that
decides the property was not reached often enough, or the watchdog fired).
"""
import hashlib
import json
import os
import sys
import time
import traceback
import zlib

import numpy as np

from . import boot

VERIF = boot.VERIF
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
MAX_LINES = 6


class CaseAbort(Exception):
    """The code under test failed in this case: go on with the next one."""


class HarnessError(Exception):
    pass


def load_findings(pid):
    out = {}
    if os.path.isfile(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("finding: "):
                w = line.split(None, 3)
                if w[1] == "property=%s" % pid and w[2].startswith("key="):
                    out[w[2][4:]] = w[3]
    return out


def to_np(x):
    """Result trees as numpy, keeping the tree shape."""
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[to_np(v) for v in x])
    if isinstance(x, (tuple, list)):
        return type(x)(to_np(v) for v in x)
    if isinstance(x, dict):
        return {k: to_np(v) for k, v in x.items()}
    if x is None or isinstance(x, (str, bytes, bool, int, float)):
        return x
    if hasattr(x, "__array__"):
        try:
            return np.asarray(x)
        except Exception:
            return x
    return x


def leaves(x):
    if isinstance(x, (tuple, list)):
        for v in x:
            yield from leaves(v)
    elif isinstance(x, dict):
        for v in x.values():
            yield from leaves(v)
    else:
        yield x


def digest(x):
    h = hashlib.blake2b(digest_size=8)
    for v in leaves(x):
        try:
            a = np.asarray(v)
            if a.dtype == object:
                h.update(repr(v).encode())
            else:
                h.update(str((a.dtype, a.shape)).encode())
                h.update(np.ascontiguousarray(a).tobytes())
        except Exception:
            h.update(type(v).__name__.encode())
    return h.hexdigest()


def nontrivial(x):
    """A result counts as non-trivial when it holds a finite number other than 0/1."""
    for v in leaves(x):
        try:
            a = np.asarray(v)
            if a.dtype.kind in "fiu" and a.size:
                m = np.isfinite(a) & (a != 0) & (a != 1)
                if m.any():
                    return True
        except Exception:
            pass
    return False


def short(x, n=6):
    if isinstance(x, dict):
        return {k: short(v, n) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return [short(v, n) for v in list(x)[:12]]
    if x is None or isinstance(x, (bool, int, str)):
        return x if not isinstance(x, str) else x[:400]
    if isinstance(x, float):
        return float(x)
    try:
        a = np.asarray(x)
        if a.dtype.kind in "fiub":
            if a.ndim == 0:
                return a.item()
            f = a.ravel()
            s = [v.item() for v in f[:n]]
            return {"shape": list(a.shape), "dtype": str(a.dtype), "head": s,
                    "tail": [v.item() for v in f[-2:]]}
    except Exception:
        pass
    return repr(x)[:300]


class Case:
    """One case; `with case:` keeps a failure in it from ending the run."""

    def __init__(self, family, index, rng, run=None):
        self.family, self.index, self.rng, self.run = family, index, rng, run

    def __enter__(self):
        self.start = time.time()
        return self

    def __exit__(self, et, e, tb):
        if self.run is not None:
            self.run.seconds[self.family] = self.run.seconds.get(self.family, 0.0) + time.time() - self.start
        if et is None or et is CaseAbort:
            return True
        if issubclass(et, (HarnessError, KeyboardInterrupt, MemoryError, SystemExit)):
            return False
        # the oracle could not digest what the code returned (wrong type or shape)
        self.run.fail("unusable-result", dict(
            error="%s: %s" % (et.__name__, str(e)[:300]),
            where=[l.strip() for l in "".join(traceback.format_exception(et, e, tb)).splitlines()[-8:]]))
        return True


class Run:
    def __init__(self, pid, tier, seed, only=None):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.soft = float(os.environ.get("RVMON_SOFT", 2400 if self.thorough else 400))
        self.monitors = {}
        self.events = 0
        self.fn_events = {}
        self.seen = set()
        self.fam = {}
        self.seconds = {}
        self.samples = []
        self.violations = []
        self.vkeys = {}
        self.findings = load_findings(pid)
        self.found = {}
        self.stats = {}
        self.case = Case("-", 0, np.random.default_rng(seed))
        self.truncated = False
        self.failfast = bool(os.environ.get("RVMON_FAILFAST"))     # the mutation campaign only

    # ------------------------------------------------------------- workload
    def rng(self, *key):
        k = [self.seed & 0xFFFFFFFF] + [zlib.crc32(str(s).encode()) for s in (self.pid,) + key]
        return np.random.default_rng(k)

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else 8 * quick) if self.thorough else quick

    def cases(self, family, quick, thorough=None):
        """Cases of one workload family.  `with c:`-less: body errors are handled by run_case."""
        n = self.n(quick, thorough)
        for i in range(n):
            if self.only is not None and self.only != (family, i):
                continue
            if time.time() - self.t0 > self.soft or (self.failfast and self.violations):
                self.truncated = True
                return
            c = Case(family, i, self.rng(family, i), self)
            self.case = c
            self.fam[family] = self.fam.get(family, 0) + 1
            yield c

    def each(self, family, items):
        """Deterministic (seed-independent) scenario list."""
        for i, it in enumerate(items):
            if self.failfast and self.violations:
                return
            if self.only is not None and self.only != (family, i):
                continue
            c = Case(family, i, self.rng(family, i), self)
            self.case = c
            self.fam[family] = self.fam.get(family, 0) + 1
            yield c, it

    # ------------------------------------------------------------ recording
    def record(self, name, args, res):
        self.events += 1
        self.fn_events[name] = self.fn_events.get(name, 0) + 1
        if nontrivial(res):
            d = digest([name, args, res])
            if d not in self.seen:
                self.seen.add(d)
                k = self.fn_events[name]
                if len(self.samples) < 6 and (k in (1, 2)):
                    self.samples.append({"call": name, "family": self.case.family,
                                         "case": self.case.index,
                                         "args": short(list(args), 4), "result": short(res, 4)})

    def call(self, name, fn, /, *args, **kw):
        """Call the code under test; an exception on in-domain input is a violation."""
        before = [(a, a.copy()) for a in leaves(list(args) + list(kw.values()))
                  if isinstance(a, np.ndarray)]
        try:
            res = fn(*args, **kw)
            res = to_np(res)
        except CaseAbort:
            raise
        except Exception as e:
            self.fail("raised:" + name, dict(
                call=name, args=short(list(args)), kwargs=short(kw),
                error="%s: %s" % (type(e).__name__, str(e)[:500]),
                where=[l.strip() for l in traceback.format_exc().splitlines()[-6:]]))
            raise CaseAbort()
        self.hit("returned")
        for a, b in before:
            if a.dtype != b.dtype or a.shape != b.shape or a.tobytes() != b.tobytes():
                self.fail("input-mutated:" + name, dict(call=name, before=short(b), after=short(a)))
        self.record(name, list(args) + list(kw.values()), res)
        return res

    def raises(self, monitor, fn_, /, *args, exc=Exception, **kw):
        """The call must raise `exc`; returns the exception (or None after a violation)."""
        self.hit(monitor)
        self.events += 1
        self.fn_events[monitor] = self.fn_events.get(monitor, 0) + 1
        try:
            res = fn_(*args, **kw)
        except exc as e:
            self.seen.add(digest([monitor, list(args), sorted(kw.items(), key=str), type(e).__name__, str(e)]))
            return e
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError, HarnessError)):
                raise
            self.fail(monitor, dict(expected=str(exc), got=repr(e)[:300], args=short(list(args)),
                                    kwargs=short(kw)))
            return None
        self.fail(monitor, dict(expected=str(exc), returned=short(to_np(res)), args=short(list(args)),
                                kwargs=short(kw)))
        return None

    # ------------------------------------------------------------- monitors
    def hit(self, monitor, k=1):
        self.monitors[monitor] = self.monitors.get(monitor, 0) + k

    def fail(self, monitor, witness, key=None):
        if key is not None and key in self.findings:
            self.found[key] = self.found.get(key, 0) + 1
            return
        k = monitor
        self.vkeys[k] = self.vkeys.get(k, 0) + 1
        if self.vkeys[k] <= 2:
            self.violations.append(dict(
                property=self.pid, monitor=monitor, seed=self.seed, tier=self.tier,
                family=self.case.family, case=self.case.index, witness=witness))

    def ok(self, monitor, cond, key=None, **witness):
        self.hit(monitor)
        good = bool(np.all(cond))
        if not good:
            self.fail(monitor, short(witness), key)
        return good

    def eq(self, monitor, got, want, rtol=1e-7, atol=0.0, key=None, **witness):
        """Element-wise agreement; NaN never agrees; shapes must match."""
        self.hit(monitor)
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            self.fail(monitor, short(dict(witness, reason="shape", got_shape=list(g.shape),
                                          want_shape=list(w.shape))), key)
            return False
        if g.size == 0:
            return True
        g = g.astype(np.float64)
        w = w.astype(np.float64)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(g - w) <= atol + rtol * np.abs(w))
            bad &= ~((g == w))
        if bad.any():
            j = int(np.argmax(np.where(np.isnan(g - w), np.inf, np.abs(g - w)) * bad))
            self.fail(monitor, short(dict(
                witness, reason="value", at=list(map(int, np.unravel_index(j, g.shape))),
                got=float(g.ravel()[j]), want=float(w.ravel()[j]), n_bad=int(bad.sum()),
                n=int(g.size), rtol=rtol, atol=float(np.max(atol)))), key)
            return False
        return True

    def same(self, monitor, a, b, **witness):
        """Bit-for-bit identical trees (dtype, shape, bytes)."""
        self.hit(monitor)
        if digest(a) != digest(b):
            self.fail(monitor, short(dict(witness, a=short(a), b=short(b))))
            return False
        return True

    def finite(self, monitor, x, key=None, **witness):
        self.hit(monitor)
        for v in leaves(x):
            if v is None:
                continue
            a = np.asarray(v)
            if a.dtype.kind == "f" and not np.isfinite(a).all():
                self.fail(monitor, short(dict(witness, nonfinite=int((~np.isfinite(a)).sum()),
                                              value=short(a))), key)
                return False
        return True

    def stat(self, name, value):
        """Extreme values the monitors observed, for the evidence file."""
        v = float(value)
        if not np.isfinite(v):
            return
        lo, hi, k = self.stats.get(name, (v, v, 0))
        self.stats[name] = (min(lo, v), max(hi, v), k + 1)

    # -------------------------------------------------------------- verdict
    def finish(self, prop, harness_error=None):
        req = getattr(prop, "REQUIRED", {})
        missing = {}
        if self.only is None:
            for k, v in req.items():
                if self.monitors.get(k, 0) < v:
                    missing[k] = [self.monitors.get(k, 0), v]
        rep_dir = os.path.join(VERIF, "replays", self.pid)
        lines = []
        if self.violations:
            os.makedirs(rep_dir, exist_ok=True)
            for i, v in enumerate(self.violations):
                v["count"] = self.vkeys[v["monitor"]]
                path = os.path.join(rep_dir, "%s_s%d_%d.json" % (self.tier, self.seed, i))
                with open(path, "w") as f:
                    json.dump(v, f, indent=1, default=repr)
                if i < MAX_LINES:
                    lines.append("VIOLATION property=%s replay=%s" % (self.pid, path))
                    print("  monitor=%s family=%s case=%s x%d witness=%s" % (
                        v["monitor"], v["family"], v["case"], v["count"],
                        json.dumps(v["witness"], default=repr)[:900]))
        wall = time.time() - self.t0
        if self.only is None:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            ev = dict(
                property=self.pid, tier=self.tier, seed=self.seed, level="exploration",
                coverage=dict(
                    evaluations=self.events, distinct_nontrivial=len(self.seen),
                    rule=getattr(prop, "RULE", "") + " One evaluation is one call of the code under "
                    "test recorded at the API boundary; distinct and non-trivial: distinct digest of "
                    "(function, arguments, result) whose result holds a finite number other than 0 or 1, "
                    "or a distinct expected error.",
                    samples=self.samples,
                    calls_by_function=self.fn_events, monitor_evaluations=self.monitors,
                    cases_by_family=self.fam, seconds_by_family={k: round(v, 1) for k, v in self.seconds.items()},
                    observed_ranges={k: dict(min=a, max=b, n=n) for k, (a, b, n) in self.stats.items()},
                    known_findings_seen=self.found, stopped_early=self.truncated,
                    inconclusive_monitors=missing),
                wall_s=round(wall, 2), violations=sum(self.vkeys.values()),
                assumptions=getattr(prop, "ASSUMPTIONS", []))
            p = os.path.join(VERIF, "evidence", self.pid + ".json")
            with open(p + ".tmp", "w") as f:
                json.dump(ev, f, indent=1, default=repr)
            os.replace(p + ".tmp", p)
        for k, cnt in sorted(self.found.items()):
            print("KNOWN-FINDING: property=%s %s (key=%s, seen %d times)" % (
                self.pid, self.findings[k], k, cnt))
        print("%s %s seed=%d: %d calls, %d distinct, %d monitor evaluations, %d violations, %.1fs" % (
            self.pid, self.tier, self.seed, self.events, len(self.seen),
            sum(self.monitors.values()), sum(self.vkeys.values()), wall))
        for l in lines:
            print(l)
        if self.violations:
            return 1
        if harness_error is not None:
            print("HARNESS ERROR\n" + harness_error)
            return 2
        if missing and self.truncated and not self.failfast:
            # a loaded machine: what was explored held, and the evidence says what was cut
            print("NOTE: time budget reached; monitors below their target: %s" % missing)
            return 0
        if missing:
            print("INCONCLUSIVE: monitors not reached often enough: %s" % missing)
            return 3
        return 0


def opt(modname, name):
    """A private helper, or None if a refactoring moved it (its monitors are then skipped)."""
    import importlib
    try:
        return getattr(importlib.import_module(modname), name, None)
    except ImportError:
        return None
