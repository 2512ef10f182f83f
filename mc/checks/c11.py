"""C11: primal-dual splitting."""
import numpy as np
from scipy import sparse
from scipy.sparse.linalg import LinearOperator
from mc.core import import_copt, show
from mc import ref, probs
from mc.checks.c10 import plist

cp = import_copt()
PROPERTY = "C11"
LEVEL = "exploration"
TECHNIQUE = ("bounded-exhaustive exploration: every problem over a grid x pair of terms x linear operator (matrix and "
             "representation) x step configuration is run on the real solver and judged against a certified reference minimiser")
RULE = ("smooth parts: quadratics, logistic/squared/Huber fits; first term out of 5, second out of 7; operators: absent, scaled "
        "identities, square, tall, wide, with kernel, zero, repeated rows, differences; given dense, sparse or matrix-free "
        "(also one whose matvec returns its argument); line search from 3 starting steps and several primal/dual ratios; fixed "
        "steps satisfying the step-size condition. Non-trivial: the start is not the solution. Oracle: own primal-dual solver with certified residual")
BOUNDS = {"quick": "n=1,2,3; one linear term per curvature; operators of norm 0.3..6; objective units 1, 1e3, 1e-3",
          "thorough": "n=1..3, all linear terms of the grid"}
ASSUMPTIONS = ["moderate scaling (smoothness 0.05..40, operator norm 0.3..6): the primal/dual step ratio is fixed by the caller and "
               "ill-scaled problems converge slowly by design",
               "the stopping test measures the last move: success judged up to 50 tol / smallest step"]


def ops(n):
    D = np.diff(np.eye(n), axis=0)
    out = [("none", None), ("id", np.eye(n)), ("id3", 3 * np.eye(n)), ("id.3", 0.3 * np.eye(n)),
           ("tall", np.vstack([np.eye(n), np.ones((1, n))])),
           ("wide", np.ones((1, n)) * np.array([1.0, -2.0, 0.5][:n])),
           ("zero", np.zeros((2, n))), ("repeat", np.vstack([np.eye(n)[:1], np.eye(n)[:1], 2 * np.eye(n)[-1:]]))]
    if n > 1:
        sq = np.eye(n) + np.eye(n, k=1) * 2
        out += [("diff", D), ("square", sq)]
    return out


class Alias(LinearOperator):
    def __init__(self, n):
        super().__init__(float, (n, n))

    def _matvec(self, x):
        return x

    def _rmatvec(self, x):
        return x


def represent(kind, K):
    n = K.shape[1]
    if kind == "dense":
        return K
    if kind == "csr":
        return sparse.csr_matrix(K)
    if kind == "csc_array":
        return sparse.csc_array(K)
    if kind == "alias":
        return Alias(n)
    return LinearOperator(K.shape, matvec=lambda v: K @ v.ravel(), rmatvec=lambda v: K.T @ v.ravel(), dtype=float)


G = lambda n: [None, ["l1", 0.3], ["box", 0.0, 1e9], ["box", -0.5, 0.25], ["simplex", 1.0]]


def H(m):
    out = [None, ["l1", 0.3], ["box", -0.75, 0.5], ["box", -1e9, 0.5], ["l2b", 0.7], ["l1b", 1.0]]
    if m > 1:
        out += [["group", 0.4, [list(range(m))]], ["fused", 0.3]]
    return out


CONFIGS = [("ls", 1.0, None), ("ls", 0.1, None), ("ls", 5.0, None), ("ls", 1.0, 1.0), ("ls", 0.5, 2.0), ("fixed", 0.9, 0.5), ("fixed", 0.5, 3.0)]


# the same problem in other units of the objective: primal steps shrink by the factor, dual ones grow
# (the dual start is L x0: for small units the start is scaled too, otherwise it is out of reach of their small dual steps)
UNITS = {1e3: [("ls", 1.0, 1.0), ("fixed", 0.9, 0.5)], 1e-3: [("ls", 1.0, 1.0), ("fixed", 0.9, 0.5)]}


def cases(tier, seed):
    th = tier == "thorough"
    for n in (1, 2, 3):
        fs = plist(n, th)
        if not th:
            per = {}
            for f in fs:
                per.setdefault(repr(f[1]) if f[0] == "quad" else f[0], f)
            fs = list(per.values())
            fs = {1: fs[:2], 2: fs[1:3] + fs[-2:], 3: fs[2:3]}[n]
        for f in fs:
            for o, _ in ops(n):
                for g in range(5):
                    yield [n, f, o, g]
    yield ["tiny"]


def compatible(gs, hs, K, n):
    """keep the pairs whose domains certainly meet in their relative interiors"""
    if gs == ["simplex", 1.0] and hs is not None and hs[0] in ("box", "l2b", "l1b"):
        c = np.full(n, 1.0 / n)
        v = c if K is None else K @ c
        return ref.term(hs).dist(v * 1.05) == 0
    return True


def run(case, ctx):
    if case[0] == "tiny":
        return tiny(ctx)
    n, fspec, oname, gi = case
    f = ref.smooth(fspec)
    K = dict(ops(n))[oname]
    m = n if K is None else K.shape[0]
    Km = np.eye(n) if K is None else K
    nk = np.linalg.norm(Km, 2)
    reps = ["absent"] if K is None else ["dense", "csr", "csc_array", "matfree"] + (["alias"] if oname == "id" else [])
    for gs in G(n)[gi:gi + 1]:
        for hs in H(m):
            if not (probs.bounded(fspec, gs)):
                continue
            if not compatible(gs, hs, K, n):
                ctx.count("incompatible_pairs_skipped")
                continue
            g, h = ref.term(gs), ref.term(hs)
            xs, res = ref.solve3(f, g, h, n, K=Km, tol=1e-11)
            if not res < 1e-8 or ref.outside(g, h, xs, Km) > 1e-7:
                ctx.count("reference_not_certified")
                continue
            Fs = f.value(xs) + g.value(xs) + h.value(Km @ xs)
            i = 0
            for cfg in CONFIGS:
                for x0 in list(probs.starts(n))[: 2] if ctx.thorough else list(probs.starts(n))[i % 2:i % 2 + 1]:
                    rep = reps[i % len(reps)]
                    i += 1
                    one(ctx, n, fspec, f, gs, g, hs, h, oname, K, Km, nk, rep, np.array(x0), xs, Fs, cfg)
            for c in UNITS:
                for cfg in UNITS[c]:
                    one(ctx, n, fspec, f, gs, g, hs, h, oname, K, Km, nk, reps[-1], min(c, 1.0) * np.array(list(probs.starts(n))[1]), xs, Fs, cfg, c)


def one(ctx, n, fspec, f, gs, g, hs, h, oname, K, Km, nk, rep, x0, xs, Fs, cfg, c=1.0):
    kind, a, b = cfg
    what = lambda: "%s + %s + %s(%s operator, %s) from %s, %s %s%s" % (fspec, gs, hs, oname, rep, show(x0), kind, cfg[1:], "" if c == 1.0 else ", the objective in units of %g" % (1 / c))
    tol = 1e-9 if ctx.thorough else 1e-7
    maxit = 20001 if ctx.thorough else 8001
    n_it = [0]

    def cb(d):
        n_it[0] += 1

    def f_grad(x, return_gradient=True):
        return (c * f.value(x), c * f.grad(x)) if return_gradient else c * f.value(x)

    if kind == "ls":
        sigma, tau = a, b
    else:
        # 1/sigma - tau |K|^2 >= L/2 with tau = b sigma: a is the safety factor
        q = b * nk ** 2
        sg = 1.0 / max(f.L / 2, 1e-3) if q < 1e-12 else (-f.L / 2 + np.sqrt(f.L ** 2 / 4 + 4 * q)) / (2 * q)
        sigma = a * min(sg, 10.0)
        tau = b * sigma
    out = cp.minimize_primal_dual(
        f_grad, x0, prox_1=None if gs is None else (lambda v, s, *aa: g.prox(v, c * s)),
        prox_2=None if hs is None else (lambda v, s, *aa: h.prox(v, c * s)),
        L=None if K is None else represent(rep, K), tol=tol * min(c, 1.0), max_iter=maxit, callback=cb,
        step_size=sigma / c, step_size2=None if tau is None else tau * c, line_search=kind == "ls")
    x = np.asarray(out.x, dtype=float)
    ctx.step(n_it[0])
    ctx.evaluation(fspec, str(gs), str(hs), oname, rep, x0, cfg, c, nontrivial=np.abs(x0 - xs).max() > 1e-9)
    if not np.all(np.isfinite(x)) or x.shape != (n,):
        ctx.fail("%s: result %s" % (what(), show(x)))
    s = float(out.step_size) * c
    err = max(g.dist(x), h.dist(Km @ x))
    y = Km @ x
    F = f.value(x) + g.value(x) + h.value(h.prox(y, 1e-12))
    accept = 50 * tol / min(s, 0.5 * s if b is None else s * b, 1) + 1e-6
    lip = np.abs(f.grad(x)).max() * n + 10
    if not out.success:
        ctx.count("no_success")
        accept = 2e-3
    else:
        ctx.count("success")
    if err > accept:
        ctx.fail("%s: %s after %d iterations, x=%s violates a constraint by %.3g" % (what(), "success" if out.success else "no success", n_it[0], show(x), err))
    if F - Fs > accept * lip * (1 + np.linalg.norm(x - xs)):
        ctx.fail("%s: %s after %d iterations at %s with objective %.9g, minimum %.9g (solution %s)" % (
            what(), "success" if out.success else "no success", n_it[0], show(x), F, Fs, show(xs)))
    if out.success and f.mu > 1e-3:
        e = np.abs(x - xs).max()
        if e > np.sqrt(accept * lip / f.mu) * 2 and e > 1e-4:
            ctx.fail("%s: success at %s, solution %s" % (what(), show(x), show(xs)))


def tiny(ctx):
    """success with a step so small that nothing moves: the stopping test measures the move, not the residual"""
    f = ref.Quad([[1.0]], [2.0])
    fg = lambda x, return_gradient=True: (f.value(x), f.grad(x)) if return_gradient else f.value(x)
    for eps in (1e-13, 1e-14):
        out = cp.minimize_primal_dual(fg, np.zeros(1), step_size=eps, line_search=False, max_iter=300)
        ctx.evaluation("tiny", eps)
        if out.success and abs(out.x[0] - 2) > 1e-3:
            ctx.fail("fixed step %g, default tolerance: success at x=%s, solution 2" % (eps, show(out.x)),
                     key="tiny-fixed-steps" if eps * 2 * 2 < 1e-12 and abs(out.x[0]) < 1e-9 else None)
