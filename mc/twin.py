"""The same jobs in compiled and in interpreted execution: `perform(job)` is run once in this process (interpreted) and once in a
child process that can see the just-in-time compiler."""
import itertools
import os
import pickle
import subprocess
import sys
import tempfile
import warnings
import numpy as np
from scipy import sparse

COMPILER = os.environ.get("MC_NUMBA", "/opt/numba-extra")


def available():
    return os.path.isdir(os.path.join(COMPILER, "numba"))


# ------------------------------------------------------------ jobs
def perform(job):
    """-> list of (label, array)"""
    return globals()["job_" + job[0]](*job[1:])


def expose_draws():
    """draws made inside compiled code cannot be answered: such functions are interpreted (they are judged by the job `batches`)"""
    n = 0
    for name, m in list(sys.modules.items()):
        if name == "copt" or name.startswith("copt."):
            for k, v in list(vars(m).items()):
                py = getattr(v, "py_func", None)
                if py is not None and "random" in py.__code__.co_names:
                    setattr(m, k, py)
                    n += 1
    return n


def compiled_batches():
    """the batch sampler as it is"""
    import copt as cp
    return cp.utils.sample_batches


def job_op(i, name, reps):
    from mc.world import OPS, Heap, values
    o = OPS[name]
    r = o.run(Heap(i, *reps), **({"max_iter": 4} if o.random else {}))
    return sorted(values(r).items())


def job_config(name, lim):
    from mc.catalog import CONFIGS
    c = CONFIGS[name]
    its = []

    def cb(d):
        if c.exposes and len(its) < 200:
            its.append(np.array(d["x"], dtype=float))
    res = c.run(callback=cb, max_iter=lim)
    return [("iterate %d" % k, x) for k, x in enumerate(its)] + [("result", np.array(res.x)), ("nit", np.array(res.nit))]


TV_LETTERS = (-2.0, -0.5, 0.0, 0.3, 1.0)


def job_tv1d(n, k):
    from copt import tv_prox
    out = []
    for t, v in enumerate(itertools.product(TV_LETTERS, repeat=n)):
        if t % 4 != k:
            continue
        for s in (0.0, 0.1, 0.35, 2.0):
            out.append((str((v, s)), np.array(tv_prox.prox_tv1d(np.array(v), s))))
    return out


def job_tv2d(rows, cols, k):
    from copt import tv_prox
    out = []
    for t, v in enumerate(itertools.product((-1.0, 0.25, 2.0), repeat=rows * cols)):
        if t % 4 != k:
            continue
        for s in (0.1, 0.6):
            x = np.array(v)
            a, b = x.copy(), x.copy()
            a2 = tv_prox.prox_tv1d_rows(s, a, rows, cols)
            b2 = tv_prox.prox_tv1d_cols(s, b, rows, cols)
            for nm, u, w in (("rows", a, a2), ("cols", b, b2)):
                out.append(("%s %s %s" % (nm, v, s), np.array(u)))
                if w is not None:
                    out.append(("%s %s %s returned" % (nm, v, s), np.array(w)))
            if t % 16 == k:
                out.append(("2d %s %s" % (v, s), np.array(tv_prox.prox_tv2d(x, s, rows, cols))))
    return out


VAL = np.array([[1.5, -2.0, 0.25], [-0.75, 1.0, 4.0], [2.0, 0.5, -3.0]])


def job_csr(k):
    import copt as cp
    out = []
    x = np.array([1.0, -0.5, 2.0])
    w = np.array([0.5, -1.0, 3.0])
    seqs = [s for m in range(0, 4) for s in itertools.product(range(3), repeat=m)]
    for bits in range(k, 512, 8):
        M = sparse.csr_matrix(VAL * np.array([(bits >> i) & 1 for i in range(9)]).reshape(3, 3))
        for s in seqs:
            idx = np.array(s, dtype=np.int64)
            out.append(("mv %d %s" % (bits, s), np.array(cp.utils.fast_csr_mv(M.data, M.indptr, M.indices, x, idx))))
            out.append(("vm %d %s" % (bits, s), np.array(cp.utils.fast_csr_vm(w[:len(s)], M.data, M.indptr, M.indices, 3, idx))))
    return out


def job_deriv(which):
    import copt as cp
    A = np.eye(3)
    loss = {"log": cp.loss.LogLoss, "square": cp.loss.SquareLoss}[which](A, np.zeros(3))
    d = loss.partial_deriv
    grid = [-1e4, -750.0, -710.0, -50.0, -1.5, -1e-9, -0.0, 0.0, 1e-300, 1e-9, 0.7, 18.0, 37.0, 709.0, 745.0, 1e4]
    ys = [0.0, 0.25, 1.0]
    out = []
    for m in (1, 2, 3):
        for p in itertools.product(grid, repeat=m):
            if m == 3 and int(sum(abs(v) * 7 for v in p)) % 5:
                continue
            for y in itertools.product(ys, repeat=m) if m < 3 else [(0.0, 0.25, 1.0), (1.0, 1.0, 0.0)]:
                out.append(("%s %s" % (p, y), np.array(d(np.array(p), np.array(y)))))
    big = np.linspace(-40, 40, 5000)
    out.append(("5000 margins", np.array(d(big, (big > 3).astype(float)))))
    return out


def job_block(which, n):
    """block-wise operators on every support of n blocks at most"""
    import copt as cp
    P = cp.penalty
    from mc.vr import partitions
    if which == "group":
        made = [P.GroupL1(0.4, b).prox_factory(n) for b in partitions(n)]
    else:
        made = [{"l1": lambda: P.L1Norm(0.4).prox_factory(n), "f1": lambda: P.FusedLasso(0.4).prox_1_factory(n), "f2": lambda: P.FusedLasso(0.4).prox_2_factory(n)}[which]()]
    out = []
    for t, (op, B) in enumerate(made):
        nb = B.shape[0]
        out.append(("blocks %d" % t, B.toarray()))
        for sup in itertools.chain.from_iterable(itertools.combinations(range(nb), k) for k in range(nb + 1)):
            ind = np.array(list(sup) + list(sup)[::-1], dtype=np.int64)
            ptr = np.array([0, len(sup), 2 * len(sup)], dtype=np.int64)
            for v in itertools.product((-1.2, 0.0, 0.3, 2.0), repeat=n):
                x = np.array(v)
                op(x, 0, ind, ptr, np.linspace(0.5, 2.0, nb), 0.5)
                op(x, 1, ind, ptr, np.linspace(2.0, 0.5, nb), 0.25)
                out.append(("%d %s %s" % (t, sup, v), x))
    return out


def job_batches(n, size, nb):
    """the values depend on the generator; the form of the answer does not"""
    f = compiled_batches()
    out = []
    for k in range(20):
        r = np.asarray(f(n, nb, size))
        ok = all(len(set(r[j * size:(j + 1) * size].tolist())) == size for j in range(nb)) and (r.size == 0 or (r.min() >= 0 and r.max() < n))
        out.append(("draw %d" % k, np.array([r.size, r.ndim, int(ok), int(r.dtype.kind in "iu")])))
    return out


PATTERNS = [
    [[1.0, 0, 0.5], [0, -2.0, 1.0], [1.5, 1.0, 0]],
    [[0, 0, 1.0], [1.0, 2.0, 0], [0, 0, 0]],
    [[1.0, -1.0, 2.0], [0.5, 0, 0], [0, 0, -1.0]],
]


def job_vr(solver, which, pen, alpha, start):
    """all orders of three samples in turn, two data sets of indices"""
    import copt as cp
    from mc.draws import Draws, answering
    A0 = np.array(PATTERNS[which])
    b = np.array([1.0, 0.0, 1.0])
    loss = cp.loss.LogLoss(A0, b) if which % 2 else cp.loss.SquareLoss(A0, b)
    x0 = np.array([[0.0, 0, 0], [0.4, -1.0, 2.0]][start])
    perms = itertools.cycle(itertools.permutations(range(3)))
    draws = Draws(order=lambda n: list(next(perms)), index=lambda n, k: [(3 * j * j + j) % n for j in range(k)], batch=lambda n, k: list(range(k)))
    P = cp.penalty
    op = {None: None, "l1": lambda: P.L1Norm(0.2).prox_factory(3), "group": lambda: P.GroupL1(0.2, [[0, 1], [2]]).prox_factory(3),
          "f1": lambda: P.FusedLasso(0.2).prox_1_factory(3), "f2": lambda: P.FusedLasso(0.2).prox_2_factory(3)}
    its = []

    def cb(d):
        if "x" in d:
            its.append(np.array(d["x"], dtype=float))
    kw = dict(max_iter=13, tol=0.0, callback=cb)
    A = sparse.csr_matrix(A0)
    with answering(draws):
        if solver == "vrtos":
            p1, p2 = pen
            p1, p2 = op[p1], op[p2]
            res = cp.minimize_vrtos(loss.partial_deriv, A, b, x0, 0.05, prox_1=p1 and p1(), prox_2=p2 and p2(), alpha=alpha, **kw)
        else:
            p = op[pen]
            res = getattr(cp, "minimize_" + solver)(loss.partial_deriv, A, b, x0, 0.05, prox=p and p(), alpha=alpha, **kw)
    out = [("iterate %d" % k, x) for k, x in enumerate(its)] + [("result", np.array(res.x))]
    if "certificate" in res:
        out.append(("certificate", np.array(res.certificate)))
    return out


# ------------------------------------------------------------ the two executions
def guarded(job):
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return ("ok", perform(job))
    except Exception as e:
        return ("error", "%s: %s" % (type(e).__name__, str(e)[:400]))


def compiled(jobs, limit):
    """runs the jobs in a child process with the compiler"""
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with tempfile.TemporaryDirectory(prefix="twin_") as d:
        a, b = os.path.join(d, "jobs"), os.path.join(d, "answers")
        with open(a, "wb") as f:
            pickle.dump(jobs, f)
        env = dict(os.environ)
        env["PYTHONPATH"] = os.pathsep.join([root, COMPILER])
        env.update(NUMBA_NUM_THREADS="2", NUMBA_CACHE_DIR=os.path.join(d, "cache"), PYTHONDONTWRITEBYTECODE="1", NUMBA_DISABLE_PERFORMANCE_WARNINGS="1")
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "mc.twin", a, b], env=env, cwd=root, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit)
        if not os.path.exists(b):
            return None, p.stderr.decode(errors="replace")[-1500:]
        with open(b, "rb") as f:
            return pickle.load(f), ""


def main():
    import numba
    from mc.core import import_copt
    cp = import_copt()
    probe = cp.utils.fast_csr_mv
    has = hasattr(probe, "py_func")
    with open(sys.argv[1], "rb") as f:
        jobs = pickle.load(f)
    if not any(j[0] == "batches" for j in jobs):
        expose_draws()
    out = [guarded(j) for j in jobs]
    with open(sys.argv[2] + ".tmp", "wb") as f:
        pickle.dump(dict(numba=numba.__version__, compiled=has, answers=out), f)
    os.replace(sys.argv[2] + ".tmp", sys.argv[2])


if __name__ == "__main__":
    main()
