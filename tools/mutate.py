"""Mutation campaign: AST mutants of /repo's sources against the checks; survivors are then run through the repository's own tests.

  mutate.py list FILE...           count mutants
  mutate.py run OUT.jsonl FILE...  (J workers; results appended, already-done mutants skipped)
"""
import ast
import concurrent.futures
import hashlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
J = int(os.environ.get("J", 7))
MAP = {
    "dsps/__init__.py": "C29", "dsps/constants.py": "C01 C02 C06 C29", "dsps/cosmology/__init__.py": "C29", "dsps/cosmology/defaults.py": "C11 C10",
    "dsps/cosmology/flat_wcdm.py": "C10 C11 C27", "dsps/data_loaders/__init__.py": "C29", "dsps/data_loaders/defaults.py": "C23 C24 C25 C26 C29",
    "dsps/data_loaders/load_emline_info.py": "C25 C29", "dsps/data_loaders/load_filter_data.py": "C24 C26", "dsps/data_loaders/load_ssp_data.py": "C23 C25",
    "dsps/data_loaders/retrieve_fake_fsps_data.py": "C26 C24 C28", "dsps/data_loaders/retrieve_fsps_data.py": "C25 C29", "dsps/dust/__init__.py": "C29",
    "dsps/dust/att_curves.py": "C12 C13 C27", "dsps/dust/blackbody.py": "C14 C27", "dsps/dust/utils.py": "C31 C13 C12 C26", "dsps/em_lines/equivalent_width.py": "C15 C27",
    "dsps/imf/remnant_mass.py": "C16 C27", "dsps/imf/surviving_mstar.py": "C16 C27", "dsps/metallicity/defaults.py": "C17 C18", "dsps/metallicity/diagnostics/plot_mzr.py": "C30",
    "dsps/metallicity/mzr.py": "C17 C18 C27", "dsps/metallicity/umzr.py": "C18 C17 C27", "dsps/photometry/__init__.py": "C29",
    "dsps/photometry/photometry_kernels.py": "C07 C08 C09 C27", "dsps/photometry/photpop.py": "C08 C09 C27", "dsps/photometry/utils.py": "C31",
    "dsps/sed/__init__.py": "C29", "dsps/sed/metallicity_weights.py": "C02 C03 C04 C27", "dsps/sed/ssp_weights.py": "C04 C05 C27", "dsps/sed/stellar_age_weights.py": "C01 C04 C05 C27",
    "dsps/sed/stellar_sed.py": "C05 C09 C27", "dsps/sfh/diffburst.py": "C19 C20 C27", "dsps/utils.py": "C21 C22 C06 C02 C18 C27"}


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, z = span(n)
        return b[a:z].decode()

    out = []

    def rep(n, new, what):
        a, z = span(n)
        out.append((n.lineno, what, (b[:a] + new.encode() + b[z:]).decode()))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
    BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.Mod: ["*"], ast.FloorDiv: ["*"]}
    CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"]}
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp):
            for op in BIN.get(type(n.op), []):
                rep(n, "((%s) %s (%s))" % (seg(n.left), op, seg(n.right)), "binop " + op)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                rep(n, "(%s) %s (%s)" % (seg(n.left), op, seg(n.comparators[0])), "cmp " + op)
        elif isinstance(n, ast.BoolOp):
            rep(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % seg(v) for v in n.values) + ")", "boolop")
        elif isinstance(n, ast.Constant) and n not in docs:
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), "bool")
            elif isinstance(v, int):
                rep(n, str(v + 1), "int+1")
                if v > 1:
                    rep(n, str(v - 1), "int-1")
            elif isinstance(v, float):
                rep(n, repr(v * 1.01 if v else 0.01), "float*1.01")
                if v:
                    rep(n, repr(v * 0.9), "float*0.9")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(n, seg(n.operand), "drop -")
        elif isinstance(n, ast.Call):
            f = seg(n.func)
            for i in range(len(n.args) - 1):
                a1, a2 = n.args[i], n.args[i + 1]
                if isinstance(a1, ast.Starred) or isinstance(a2, ast.Starred) or seg(a1) == seg(a2):
                    continue
                a, m1 = span(a1)
                m2, z = span(a2)
                out.append((n.lineno, "swap args %d of %s" % (i, f), (b[:a] + seg(a2).encode() + b[m1:m2] + seg(a1).encode() + b[z:]).decode()))
            for k in n.keywords:
                if k.arg:
                    a, z = span(k)
                    t = b[z:].decode()
                    s = len(t) - len(t.lstrip(" \n"))
                    z2 = z + s + 1 if t[s:s + 1] == "," else z
                    out.append((n.lineno, "drop kw %s of %s" % (k.arg, f), (b[:a] + b[z2:]).decode()))
            for x, y in (("jnp.log10", "jnp.log"), ("jnp.maximum", "jnp.minimum"), ("jnp.minimum", "jnp.maximum"), ("jnp.log", "jnp.log10"), ("jnp.exp", "jnp.expm1"),
                         ("np.sort", "list"), ("jnp.sum", "jnp.mean"), ("jnp.abs", "jnp.array"), ("sorted", "list"), ("min", "max"), ("max", "min"),
                         ("np.max", "np.min"), ("np.min", "np.max"), ("jnp.cumsum", "jnp.array"), ("np.any", "np.all"), ("np.all", "np.any")):
                if f == x:
                    rep(n.func, y, "%s->%s" % (x, y))
            if f in ("jnp.clip", "np.clip", "jnp.array", "jnp.asarray", "np.array", "np.asarray", "jnp.float64", "np.sort", "jnp.atleast_1d", "jnp.maximum", "jnp.sqrt", "jnp.abs") and n.args and not isinstance(n.args[0], ast.Starred):
                rep(n, "(%s)" % seg(n.args[0]), "unwrap " + f)
        elif isinstance(n, ast.Slice):
            s = seg(n) if hasattr(n, "lineno") else ""
            if n.lower is not None:
                a, z = span(n.lower)
                out.append((n.lineno, "drop slice lower", (b[:a] + b[z:]).decode()))
            if n.upper is not None:
                a, z = span(n.upper)
                out.append((n.lineno, "drop slice upper", (b[:a] + b[z:]).decode()))
        elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and 1 < len(n.elts) < 12:
            for i in range(len(n.elts) - 1):
                if seg(n.elts[i]) != seg(n.elts[i + 1]):
                    a, m1 = span(n.elts[i])
                    m2, z = span(n.elts[i + 1])
                    out.append((n.lineno, "swap tuple %d" % i, (b[:a] + seg(n.elts[i + 1]).encode() + b[m1:m2] + seg(n.elts[i]).encode() + b[z:]).decode()))
        elif isinstance(n, ast.If):
            rep(n.test, "not (%s)" % seg(n.test), "negate if")
        if isinstance(n, (ast.FunctionDef, ast.With, ast.If, ast.For, ast.Try)):
            for body in (n.body, getattr(n, "orelse", [])):
                bound = set()
                for s in body:
                    if isinstance(s, ast.Raise) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)) or isinstance(s, ast.AugAssign):
                        rep(s, "pass", "delete statement")
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                        nm = s.targets[0].id
                        if nm in bound:
                            rep(s, "pass", "delete assignment")
                        bound.add(nm)
                    if isinstance(n, ast.FunctionDef) and s is body[0]:
                        bound |= {a.arg for a in n.args.args}
        # within an argument list: use a sibling parameter instead
        if isinstance(n, ast.FunctionDef):
            ps = [a.arg for a in n.args.args]
            for m in ast.walk(n):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load) and m.id in ps:
                    q = ps[(ps.index(m.id) + 1) % len(ps)]
                    if q != m.id:
                        rep(m, q, "param %s->%s" % (m.id, q))
    good, seen = [], set()
    for ln, w, s in out:
        if s == src or s in seen:
            continue
        seen.add(s)
        try:
            ast.parse(s)
        except SyntaxError:
            continue
        good.append((ln, w, s))
    return good


def key(f, s):
    return hashlib.sha1((f + s).encode()).hexdigest()[:16]


def worker_dirs():
    d = tempfile.mkdtemp(prefix="mut_")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    os.mkdir(d + "/verif")
    subprocess.run("cp -a %s/rvmon %s/run.py %s/KNOWN_FINDINGS.txt %s/tools %s/verif/" % (V, V, V, V, d), shell=True, check=True)
    return d


def env(r):
    e = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", RVMON_REPO=r, RVMON_FAILFAST="1", VERIF_SEED="1",
             VERIF_TIER="quick", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.pop("DSPS_DRN", None)
    return e


def run_one(d, f, ln, what, src):
    r = d + "/repo"
    p = os.path.join(r, f)
    orig = open(p).read()
    res = dict(file=f, line=ln, what=what, was=orig.splitlines()[ln - 1].strip(), key=key(f, src), checks={})
    try:
        open(p, "w").write(src)
        e = env(r)
        for c in MAP[f].split():
            try:
                q = subprocess.run([PY, "run.py", c], cwd=d + "/verif", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                rc = q.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            res["checks"][c] = rc
            if rc == 1:
                res["killed"] = c
                return res
        x = d + "/junit.xml"
        try:
            subprocess.run([PY, "-m", "pytest", "-q", "-n", "2", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
                            "-o", "junit_family=xunit2", "--junitxml=" + x, "dsps"], cwd=r, env=dict(e, PYTHONPATH=r),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
            subprocess.run(["python3", "/opt/vp/results.py", d + "/o.json", "junit:" + x], check=True, stdout=subprocess.DEVNULL)
            res["tests_lost"] = sorted(STABLE - set(json.load(open(d + "/o.json"))["passed"]))[:3]
        except Exception as ex:
            res["tests_lost"] = [repr(ex)[:80]]
        res["killed"] = None
        dl = [(a, z) for a, z in zip(orig.splitlines(), src.splitlines()) if a != z]
        res["diff"] = dl[:2]
        return res
    finally:
        open(p, "w").write(orig)
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."])


def main():
    cmd = sys.argv[1]
    files = sys.argv[2:] if cmd == "list" else sys.argv[3:]
    files = files or list(MAP)
    todo = []
    for f in files:
        ms = mutants(open("/repo/" + f).read())
        print(f, len(ms))
        todo += [(f,) + m for m in ms]
    print(len(todo))
    if cmd == "list":
        return
    done = set()
    if os.path.isfile(sys.argv[2]):
        done = {json.loads(l)["key"] for l in open(sys.argv[2])}
    todo = [t for t in todo if key(t[0], t[3]) not in done]
    step = int(os.environ.get("STEP", 1))
    todo = todo[::step]
    print("to run", len(todo), flush=True)
    q = queue.Queue()
    dirs = [worker_dirs() for _ in range(J)]
    for d in dirs:
        q.put(d)

    def go(t):
        d = q.get()
        try:
            return run_one(d, *t)
        finally:
            q.put(d)
    try:
        with concurrent.futures.ThreadPoolExecutor(J) as ex, open(sys.argv[2], "a") as o:
            for res in ex.map(go, todo):
                o.write(json.dumps(res) + "\n")
                o.flush()
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)


main()
