"""Mutation campaign: which small edits of copt do the checks miss?

usage: mutate.py list FILE            print all mutants of copt/FILE
       mutate.py run OUT WORKERS JOBS FILE[:stride[:offset]]...   try them in scratch copies under /tmp/mut
For the development of the checks only; no registered command uses it.
"""
import ast, copy, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue

REPO = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "constraint.py": "C02 C03",
    "penalty.py": "C01 C06",
    "tv_prox.py": "C01",
    "loss.py": "C04 C05",
    "frank_wolfe.py": "C15 C07 C08 C24 C16",
    "proximal_gradient.py": "C15 C16 C09 C24",
    "splitting.py": "C15 C16 C11 C10",
    "randomized.py": "C15 C12 C13 C14",
    "utils.py": "C20 C23 C05 C22",
    "datasets.py": "C21",
}
SKIP_CALLS = {"warn", "print", "ValueError", "RuntimeError", "NotImplementedError"}


def mutants(src):
    tree = ast.parse(src)
    out = []
    sites = []

    def visit(node, path, infn):
        for field, val in ast.iter_fields(node):
            if isinstance(val, list):
                for i, c in enumerate(val):
                    if isinstance(c, ast.AST):
                        visit_one(c, path + [(field, i)], infn)
            elif isinstance(val, ast.AST):
                visit_one(val, path + [(field, None)], infn)

    def visit_one(c, path, infn):
        if isinstance(c, (ast.Raise, ast.Assert)):
            return
        if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
            return
        if isinstance(c, ast.Call):
            n = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
            if n in SKIP_CALLS:
                return
        sites.append((path, c, infn))
        visit(c, path, infn or isinstance(c, ast.FunctionDef))

    visit(tree, [], False)

    def at(t, path):
        for f, i in path:
            t = getattr(t, f)
            if i is not None:
                t = t[i]
        return t

    def put(t, path, new):
        p = at(t, path[:-1])
        f, i = path[-1]
        if i is None:
            setattr(p, f, new)
        else:
            getattr(p, f)[i] = new

    def emit(path, node, new, what):
        t = copy.deepcopy(tree)
        put(t, path, new)
        ast.fix_missing_locations(t)
        out.append((getattr(node, "lineno", 0), what, ast.unparse(t)))

    for path, c, infn in sites:
        if not infn and not isinstance(c, ast.Assign):
            continue
        u = ast.unparse(c).split("\n")[0][:90]
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            o = type(c.ops[0])
            for new in {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
                        ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}.get(o, []):
                n = copy.deepcopy(c); n.ops = [new()]
                emit(path, c, n, "%s -> %s" % (u, ast.unparse(n)))
        if isinstance(c, ast.BinOp):
            for new in {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div]}.get(type(c.op), []):
                n = copy.deepcopy(c); n.op = new()
                emit(path, c, n, "%s -> %s" % (u, ast.unparse(n)))
            if isinstance(c.op, (ast.Add, ast.Sub)):
                emit(path, c, copy.deepcopy(c.left), "%s -> %s" % (u, ast.unparse(c.left)))
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.USub, ast.Invert, ast.Not)):
            emit(path, c, copy.deepcopy(c.operand), "%s -> %s" % (u, ast.unparse(c.operand)))
        if isinstance(c, ast.Constant) and path[-1][0] not in ("slice",) and not isinstance(c.value, (str, bytes, type(None), type(Ellipsis))):
            v = c.value
            news = [not v] if isinstance(v, bool) else [v + 1, v - 1] if isinstance(v, int) else [v * 2, v / 2] if v else [1.0]
            for nv in news:
                emit(path, c, ast.Constant(nv), "%r -> %r in line" % (v, nv))
        if isinstance(c, ast.Constant) and path[-1][0] == "slice" and isinstance(c.value, int):
            emit(path, c, ast.Constant(c.value + 1), "[%r] -> [%r]" % (c.value, c.value + 1))
        if isinstance(c, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete, ast.Break, ast.Continue)) and infn:
            emit(path, c, ast.Pass(), "delete: " + u)
        if isinstance(c, ast.AugAssign) and isinstance(c.op, (ast.Add, ast.Sub)):
            n = copy.deepcopy(c); n.op = ast.Sub() if isinstance(c.op, ast.Add) else ast.Add()
            emit(path, c, n, "%s -> %s" % (u, ast.unparse(n)))
            if isinstance(c.target, (ast.Name, ast.Subscript)):
                n = ast.Assign(targets=[copy.deepcopy(c.target)], value=copy.deepcopy(c.value))
                emit(path, c, n, "%s -> plain assignment" % u)
        if isinstance(c, ast.If):
            n = copy.deepcopy(c); n.test = ast.UnaryOp(ast.Not(), n.test)
            emit(path, c, n, "negate: " + u)
            n = copy.deepcopy(c); n.test = ast.Constant(False)
            emit(path, c, n, "never: " + u)
            n = copy.deepcopy(c); n.test = ast.Constant(True)
            emit(path, c, n, "always: " + u)
        if isinstance(c, ast.BoolOp):
            n = copy.deepcopy(c); n.op = ast.Or() if isinstance(c.op, ast.And) else ast.And()
            emit(path, c, n, "%s -> %s" % (u, ast.unparse(n)))
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute):
            if c.func.attr in ("copy", "ravel", "flatten", "astype", "toarray"):
                emit(path, c, copy.deepcopy(c.func.value), "%s -> %s" % (u, ast.unparse(c.func.value)))
            if c.func.attr in ("abs", "fmax", "sqrt", "array", "ascontiguousarray", "fabs") and c.args:
                emit(path, c, copy.deepcopy(c.args[0]), "%s -> %s" % (u, ast.unparse(c.args[0])))
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("min", "max", "abs") and c.args:
            for a in c.args:
                emit(path, c, copy.deepcopy(a), "%s -> %s" % (u, ast.unparse(a)))
    seen, res = set(), []
    base = ast.unparse(tree)
    for l, w, s in out:
        if s != base and s not in seen:
            seen.add(s)
            res.append((l, w, s))
    res.sort(key=lambda r: r[0])
    return res


def trial(fn, line, what, src, d, jobs):
    open(os.path.join(d, "copt", fn), "w").write(src)
    env = dict(os.environ, COPT_REPO=d)
    t0 = time.time()
    for c in CHECKS[fn].split():
        try:
            r = subprocess.run([os.path.join(V, "check.sh"), c, "quick", "--no-evidence", "--jobs", str(jobs)],
                               env=env, capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return "TIMEOUT " + c
        if r.returncode == 1 and "VIOLATION" in r.stdout:
            msg = [l for l in r.stdout.splitlines() if l.startswith("  ")]
            return "caught %s (%.0f s): %s" % (c, time.time() - t0, (msg or [""])[0].strip()[:150])
        if r.returncode:
            return "ERROR %s rc %d %s" % (c, r.returncode, r.stderr[-300:].replace("\n", " | "))
    # missed by all: does the test suite see it?
    tenv = dict(os.environ, PYTHONPATH=d + ":/opt/vp", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1")
    for f in "loss matmul_speedup penalties proximal_gradient splitting frank_wolfe randomized stochastic_fw".split():
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "-p", "seed_numpy", "tests/test_%s.py" % f],
                               cwd=d, env=tenv, capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            return "missed; tests time out (%s)" % f
        if r.returncode:
            return "missed; but tests fail (%s)" % f
    return "MISSED (tests pass)"


def main():
    if sys.argv[1] == "list":
        for l, w, s in mutants(open(os.path.join(REPO, "copt", sys.argv[2])).read()):
            print(l, w)
        return
    out, workers, jobs = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    todo = []
    for spec in sys.argv[5:]:
        fn, stride, off = (spec.split(":") + ["1", "0"])[:3] if spec.count(":") < 2 else spec.split(":")
        ms = mutants(open(os.path.join(REPO, "copt", fn)).read())
        todo += [(fn,) + m for m in ms[int(off)::int(stride)]]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["what"]))
    todo = [t for t in todo if t[:3] not in done]
    print(len(todo), "mutants", flush=True)
    dirs = queue.Queue()
    for k in range(workers):
        d = "/tmp/mut/%s-%d" % (os.path.basename(out), k)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "doc"))
        dirs.put(d)

    def work(t):
        fn, line, what, src = t
        d = dirs.get()
        try:
            res = trial(fn, line, what, src, d, jobs)
        finally:
            shutil.copy(os.path.join(REPO, "copt", fn), os.path.join(d, "copt", fn))
            dirs.put(d)
        with open(out, "a") as f:
            f.write(json.dumps(dict(file=fn, line=line, what=what, result=res)) + "\n")

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(work, todo))


main()
