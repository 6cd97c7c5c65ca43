"""Run quick checks at several seeds from a scratch copy of /verif: sweep.py SEEDS(a-b) [--thorough] [ids...]"""
import concurrent.futures, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
th = "--thorough" in a
a = [x for x in a if x != "--thorough"]
lo, hi = map(int, a[0].split("-"))
ids = a[1:] or ["C%02d" % i for i in range(1, 40) if os.path.exists("%s/rvmon/props/c%02d.py" % (V, i))]
J = int(os.environ.get("J", 4))


def one(j):
    s, i = j
    d = tempfile.mkdtemp(prefix="sweep_")
    try:
        subprocess.run("cp -a %s/rvmon %s/run.py %s/KNOWN_FINDINGS.txt %s/tools %s/" % (V, V, V, V, d), shell=True, check=True)
        t = time.time()
        p = subprocess.run(["/opt/venv/bin/python", "run.py", i] + (["--thorough"] if th else []), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, VERIF_SEED=str(s), VERIF_TIER="quick"))
        return i, s, p.returncode, time.time() - t, p.stdout.decode(errors="replace")
    finally:
        shutil.rmtree(d)


with concurrent.futures.ThreadPoolExecutor(J) as ex:
    for i, s, rc, t, o in ex.map(one, [(s, i) for i in ids for s in range(lo, hi + 1)]):
        print(i, s, rc, "%.0fs" % t, flush=True)
        if rc:
            print(o[-3000:], flush=True)
