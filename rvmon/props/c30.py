"""C30 the mass-metallicity diagnostic figure."""
import os
import pathlib
import re
import warnings

import numpy as np

from .. import boot, ref, h5tools

RULE = ("Random pairs of parameter sets (bounded-space samples, equal pairs, one parameter changed), open figures of the caller, labels and output "
        "names/formats; the returned figure's artists are read back and compared with the models re-derived here.")
REQUIRED = {"solid-is-first": 20, "dashed-is-second": 20, "colours": 20, "literature": 30, "legend": 20, "file-written": 4, "no-file": 3}
ASSUMPTIONS = ["matplotlib with the Agg backend; the cosmic times are the five between 2 and 14 Gyr"]
DATA = {"maiolino_etal18_mzr.dat": "*", "kirby_etal13_mzr.dat": "v", "galazzi_etal05_mzr.dat": "d"}


def model(m, t, p):
    return ref.mzr_t0(m, *p[:5]) + ref.mzr_evol(m, t, *p[5:])


def workload(R):
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt, colors as mc, cm
    from dsps.metallicity import umzr
    from dsps.metallicity.diagnostics.plot_mzr import make_mzr_comparison_plot as mk
    D = np.array([float(x) for x in umzr.DEFAULT_MZR_PARAMS])
    root = os.path.join(boot.REPO, "dsps", "metallicity", "tests", "testing_data")
    tabs = {b: np.loadtxt(os.path.join(root, b), delimiter=",") for b in DATA}
    srcs = h5tools.tree(root)
    scratch = boot.scratch()
    k0 = len(plt.get_fignums())
    for c in R.cases("figure", 15, 80):
        with c:
            r = c.rng
            p1 = D + r.normal(0, 1, 9) * np.array([.1, .1, .1, .05, .03, .1, .01, .1, .01])
            p2 = [None, D, D + r.normal(0, 1, 9) * 0.03, p1.copy()][int(r.integers(4))]
            lab1, lab2 = [(None, None), ("alpha %d" % c.index, "beta %d" % c.index), ("same", "same "), ("only first", None)][int(r.integers(4))]
            ext = ["png", "pdf", "svg", None, None][c.index % 5]
            fn = None if ext is None else os.path.join(scratch, "fig_%d.%s" % (c.index, ext))
            if fn and c.index % 2 == 0:         # an older file of that name is replaced
                with open(fn, "wb") as f:
                    f.write(b"old" * (1 if r.random() < 0.5 else 200000))
            params = umzr.MZRParams(*p1)
            kw = {}
            params2 = None
            if p2 is not None:
                params2 = kw["params2"] = umzr.MZRParams(*p2)
            if lab1:
                kw["label1"] = lab1
            if lab2:
                kw["label2"] = lab2
            if fn:
                kw["fname"] = fn
            want2 = D if p2 is None else p2
            before = (set(os.listdir(scratch)) | {"."}) - ({os.path.basename(fn)} if fn else set())
            cwd = set(os.listdir("."))
            bare = fn is not None and c.index % 3 == 1
            if bare:                            # a name without a folder: the current one
                kw["fname"] = os.path.basename(fn) if r.random() < 0.7 else os.path.join(".", os.path.basename(fn))
            if fn and c.index % 4 == 3:
                kw["fname"] = pathlib.Path(kw["fname"])
            rc0 = str(sorted(matplotlib.rcParams.items())), plt.isinteractive(), matplotlib.get_backend(), str(np.geterr()), str(warnings.filters)
            home = os.getcwd()
            mine, myax = plt.subplots()         # a figure of the caller's
            myax.plot([0, 1], [2, 3], label="mine")
            if bare:
                os.chdir(scratch)
            try:
                other = R.call("make_mzr_comparison_plot", mk, umzr.MZRParams(*(p1 + 0.01)), label1="other") if c.index % 4 == 0 else None
                fig = R.call("make_mzr_comparison_plot", mk, params, **kw)
            finally:
                os.chdir(home)
            left = plt.fignum_exists(mine.number) and plt.figure(mine.number) is mine, [l.get_label() for l in myax.get_lines()], len(mine.axes)
            plt.close(mine)
            try:
                R.ok("figures-separate", left == (True, ["mine"], 1) and fig is not mine, left=str(left))
                rc1 = str(sorted(matplotlib.rcParams.items())), plt.isinteractive(), matplotlib.get_backend(), str(np.geterr()), str(warnings.filters)
                R.ok("settings-kept", rc0 == rc1, changed=[(x[:200], y[:200]) for x, y in zip(rc0, rc1) if x != y])
                R.ok("figures-separate", other is None or other is not fig and len(other.axes) == 1 and other.axes[0] is not fig.axes[0])
                if not R.ok("returns-figure", hasattr(fig, "axes"), got=repr(fig)[:100]):
                    continue
                R.same("parameters-untouched", [np.array(params, float), np.array(umzr.DEFAULT_MZR_PARAMS, float)], [p1, D])
                if params2 is not None:
                    R.same("parameters-untouched", np.array(params2, float), np.asarray(p2, float))
                now = set(os.listdir(scratch)) | {"."}
                if fn:
                    R.ok("file-written", now - before == {os.path.basename(fn)} and os.path.getsize(fn) > 1000, new=sorted(now - before))
                    head = open(fn, "rb").read(200)
                    R.ok("file-format", head[:8] == b"\x89PNG\r\n\x1a\n" if ext == "png" else head[:4] == b"%PDF" if ext == "pdf" else b"<?xml" in head, ext=ext)
                    os.remove(fn)
                else:
                    R.ok("no-file", now == before and set(os.listdir(".")) == cwd, new=sorted(now - before))
                ax = fig.axes[0]
                R.ok("one-axes", len(fig.axes) == 1, n=len(fig.axes))
                lines = [l for l in ax.get_lines() if len(l.get_xdata()) > 0]
                cur = [l for l in lines if l.get_linestyle() not in ("None", "", " ")]
                pts = [l for l in lines if l.get_linestyle() in ("None", "", " ")]
                sol = [l for l in cur if l.get_linestyle() == "-"]
                das = [l for l in cur if l.get_linestyle() == "--"]
                if not R.ok("one-curve-per-time", len(sol) == 5 and len(das) == 5 and len(cur) == 10, solid=len(sol), dashed=len(das), all=len(cur)):
                    continue
                times = np.linspace(2, 14, 5)
                used = []
                for ls, p, mon in ((sol, p1, "solid-is-first"), (das, want2, "dashed-is-second")):
                    seq = []
                    for l in ls:
                        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
                        R.ok("curve-covers-axes", x.min() <= ax.get_xlim()[0] and x.max() >= ax.get_xlim()[1] and len(x) > 200 and np.all(np.diff(x) > 0), x=x)
                        err = [np.max(np.abs(y - model(x, t, p))) for t in times]
                        i = int(np.argmin(err))
                        R.ok(mon, err[i] < 1e-8, err=err[i], params=p)
                        seq.append((i, mc.to_hex(l.get_color())))
                    used.append(seq)
                    idx = [i for i, _ in seq]
                    R.ok(mon, len(set(np.round([model(10.0, times[i], p) for i in idx], 9))) <= 5 and sorted(set(idx)) == sorted(idx) or
                         len(set(idx)) < 5 and np.ptp([model(np.linspace(6, 12, 5), t, p) for t in times], axis=0).max() < 1e-6, idx=idx)
                cs = [dict(u) for u in used]
                R.ok("colours", cs[0] == cs[1], solid=cs[0], dashed=cs[1])
                early = [i for i, _ in sorted(used[0])]
                rgb = np.array([mc.to_rgb(cs[0][i]) for i in early])
                red = rgb[:, 0] - rgb[:, 2]
                R.ok("colours", np.all(np.diff(red) < 0) and red[0] > 0.3 and red[-1] < -0.3, red_minus_blue=red)
                R.eq("colours", rgb, cm.coolwarm(np.linspace(1, 0, 5))[:, :3], rtol=0, atol=0.01)
                # literature
                R.ok("literature", len(pts) == 3, n=len(pts))
                for b, mk_ in DATA.items():
                    tab = tabs[b]
                    l = [q for q in pts if q.get_marker() == mk_]
                    if R.ok("literature", len(l) == 1, marker=mk_):
                        R.eq("literature", np.asarray(l[0].get_xdata(), float), tab[::2, 0], rtol=1e-12, table=b)
                        R.eq("literature", np.asarray(l[0].get_ydata(), float), tab[::2, 1] + ref.LGZSUN, rtol=0, atol=2e-5 + abs(float(umzr.LGMET_SOLAR) - ref.LGZSUN), table=b)
                R.eq("solar", float(umzr.LGMET_SOLAR), ref.LGZSUN, rtol=1e-6)
                # legends
                from matplotlib.legend import Legend
                legs = [a for a in ax.get_children() if isinstance(a, Legend)]
                ent = {}
                for lg in legs:
                    hs = getattr(lg, "legend_handles", None) or lg.legendHandles
                    for h, tx in zip(hs, lg.get_texts()):
                        ent.setdefault(tx.get_text(), []).append(h)
                w1 = lab1 or r"${\rm new\ model}$"
                w2 = lab2 or r"${\rm default\ model}$"
                for w, st in ((w1, "-"), (w2, "--")):
                    h = ent.get(w, [])
                    R.ok("legend", len(h) == 1 and h[0].get_linestyle() == st, label=w, styles=[x.get_linestyle() for x in h], entries=sorted(ent))
                R.ok("legend", len(ent) == 7, entries=sorted(ent))
                zs = {tx: hs[0] for tx, hs in ent.items() if "z=3" in tx or re.search(r"\bz=0\}?\$$", tx)}
                col = {tx: np.array(mc.to_rgb(h.get_color())) for tx, h in zs.items()}
                hot = [tx for tx in col if "z=3" in tx]
                cold = [tx for tx in col if "z=0}" in tx and "3" not in tx]
                if R.ok("legend-times", len(hot) == 1 and len(cold) == 1, entries=sorted(ent)):
                    R.eq("legend-times", col[hot[0]], rgb[0], rtol=0, atol=0.01)
                    R.eq("legend-times", col[cold[0]], rgb[-1], rtol=0, atol=0.01)
                for name, mk_ in (("Maiolino", "*"), ("Kirby", "v"), ("Gallazzi", "d")):
                    hs = [h for tx, h in ent.items() if name in tx]
                    if R.ok("legend", len(hs) == 1 and hs[0][0].get_marker() == mk_, name=name):
                        l = [q for q in pts if q.get_marker() == mk_]
                        R.ok("legend", mc.to_hex(hs[0][0].get_color()) == mc.to_hex(l[0].get_color()), name=name)
                lo, hi = ax.get_ylim()
                R.ok("axes-show-data", lo < tabs["maiolino_etal18_mzr.dat"][0, 1] + ref.LGZSUN < hi)
                R.record("figure", [p1, want2], np.array([l.get_ydata() for l in cur], float))
            finally:
                if hasattr(fig, "axes"):
                    plt.close(fig)
                if other is not None:
                    plt.close(other)
    R.ok("data-untouched", h5tools.tree(root) == srcs)
    R.ok("no-figure-left", len(plt.get_fignums()) == k0)
