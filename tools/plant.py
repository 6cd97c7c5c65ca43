"""Author, validate and try planted bugs.

  plant.py make FILE [ids...]   write seeded/<id>/ for each spec of tools/bugs/FILE.py, after validating it in a scratch copy
  plant.py try [ids...]         run the property's check against a scratch copy with the patch; update tools/seeded_results.json
A spec is dict(id, prop, file, edits=[(old, new), ...], needs, breaks, demo).  edits may name another file as a third item.
"""
import concurrent.futures
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg")
ENV.pop("DSPS_DRN", None)


def scratch():
    d = tempfile.mkdtemp(prefix="plant_")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    r = d + "/repo"
    subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
    return d, r


def tests(r, d):
    x = d + "/junit.xml"
    subprocess.run([PY, "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
                    "-o", "junit_family=xunit2", "--junitxml=" + x, "dsps"], cwd=r, env=dict(ENV, PYTHONPATH=r),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(["python3", "/opt/vp/results.py", d + "/o.json", "junit:" + x], check=True, stdout=subprocess.DEVNULL)
    return sorted(STABLE - set(json.load(open(d + "/o.json"))["passed"]))


def demo(folder, r, d):
    t = d + "/demo"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(folder, t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    p = subprocess.run(["bash", t + "/demo.sh"], cwd=r, env=dict(ENV, PYTHONPATH=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode(errors="replace")[-600:]


def make(spec):
    d, r = scratch()
    try:
        for e in spec["edits"]:
            old, new = e[:2]
            f = os.path.join(r, (e[2] if len(e) > 2 else None) or spec["file"])
            s = open(f).read()
            nth = e[3] if len(e) > 3 else 0         # 1-based occurrence, where the text appears several times
            if s.count(old) != 1 and not 0 < nth <= s.count(old):
                return spec["id"], "EDIT matches %d times: %r" % (s.count(old), old[:60])
            k = -1
            for _ in range(max(nth, 1)):
                k = s.index(old, k + 1)
            open(f, "w").write(s[:k] + new + s[k + len(old):])
        diff = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE).stdout.decode()
        out = os.path.join(V, "seeded", spec["id"])
        new = tempfile.mkdtemp(prefix="seed_", dir=d)
        open(new + "/patch.diff", "w").write(diff)
        open(new + "/demo.sh", "w").write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                          'unset DSPS_DRN\nexport PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"\nexec /opt/venv/bin/python "$d/demo.py"\n')
        open(new + "/demo.py", "w").write(spec["demo"].lstrip("\n"))
        json.dump(dict(property=spec["prop"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(new + "/meta.json", "w"), indent=1)
        rc, o = demo(new, r, d)
        if rc == 0:
            return spec["id"], "DEMO passes with the patch: " + o
        lost = tests(r, d)
        if lost:
            return spec["id"], "TESTS notice: %s" % lost[:4]
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
        rc2, o2 = demo(new, r, d)
        if rc2 != 0:
            return spec["id"], "DEMO fails unpatched: " + o2
        shutil.rmtree(out, ignore_errors=True)
        os.chmod(new, 0o755)
        shutil.copytree(new, out)
        return spec["id"], "kept; demo: " + (o.strip().splitlines() or [""])[-1][:100]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def attempt(i, thorough=False):
    d, r = scratch()
    try:
        f = os.path.join(V, "seeded", i)
        subprocess.run(["git", "-C", r, "apply", f + "/patch.diff"], check=True)
        prop = json.load(open(f + "/meta.json"))["property"]
        v = d + "/verif"
        subprocess.run(["cp", "-a", V, v], check=True)
        p = subprocess.run([PY, "run.py", prop] + (["--thorough"] if thorough else []), cwd=v, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(ENV, RVMON_REPO=r, VERIF_SEED="1", VERIF_TIER="quick"))
        o = p.stdout.decode(errors="replace")
        mon = sorted({w.split("monitor=")[1].split()[0] for w in o.splitlines() if w.startswith("  monitor=")})
        return i, p.returncode, prop, mon, o[-300:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    cmd = sys.argv[1]
    res = os.path.join(V, "tools", "seeded_results.json")
    if cmd == "make":
        spec = importlib.util.spec_from_file_location("bugs", os.path.join(V, "tools", "bugs", sys.argv[2] + ".py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        sel = [s for s in m.BUGS if not sys.argv[3:] or s["id"] in sys.argv[3:]]
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for i, msg in ex.map(make, sel):
                print("%-34s %s" % (i, msg), flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))
        table = json.load(open(res)) if os.path.isfile(res) else {}
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for i, rc, prop, mon, o in ex.map(attempt, ids):
                ok = rc == 1 and mon
                table[i] = "%s: %s" % (prop, ", ".join(mon)) if ok else "missed (exit %d)" % rc
                print("%-34s %s %s" % (i, table[i], "" if ok else o), flush=True)
        json.dump(dict(sorted(table.items())), open(res, "w"), indent=1)


main()
