"""C19: results do not depend on how the same numbers are represented."""
import itertools
import numpy as np
from mc.core import import_copt
from mc.world import DATA, GROUPS, OPERATORS, MAT, OPS, Heap, Op, integral, mat_reps, values, vec_reps

cp = import_copt()
PROPERTY = "C19"
LEVEL = "exploration"
TECHNIQUE = ("bounded-exhaustive exploration: every public operation on every combination of representations of its arguments, each run "
             "compared with the run on plain double arrays and a canonical CSR matrix")
RULE = ("a run is counted when at least one argument is not in the base representation and the operation uses that argument; "
        "distinct by (operation, data, representations)")
BOUNDS = {"quick": "121 operations (all solvers, losses, penalties, constraints, kernels) x 4 small data sets x every representation of "
                   "start/vector (11), matrix (24), targets (8), operator (28), groups (5), scalars (5); all pairs of representations on two data sets",
          "thorough": "all triples of representations on all four data sets"}
ASSUMPTIONS = ["the 1-D total variation operators document that they reject arrays that are not floating point",
               "explicitly stored zeros count as part of a sample's support, so stochastic solvers may follow another trajectory on them"]

BASE = ("array", "csr", "array", "dense", "lists")
TV = ("tv1d", "prox-fused", "prox_tv1d_rows", "prox_tv1d_cols")


def cases(tier, seed):
    for i in range(len(DATA)):
        for n in OPS:
            yield [i, n]
    yield ["scalars"]


def axes(i, o):
    d = DATA[i]
    v = ["array"]
    if set(o.uses) & {"x", "v", "xa", "u", "va"}:
        v = vec_reps(np.concatenate([np.array(d[k], dtype=float) for k in ("x", "v")]), seq=bool(set(o.uses) & {"x", "v"}))
        if o.name in TV:
            v = [r for r in v if "int" not in r]
    m = mat_reps(d["A"]) if "A" in o.uses else ["csr"]
    if o.random:
        m = [r for r in m if r != "csr_zeros"]
    b = vec_reps(np.array(d["b"], dtype=float)) if "b" in o.uses else ["array"]
    L = ["dense"]
    if o.name == "pd-dense":
        L = [r for r in MAT] + list(OPERATORS)
    g = list(GROUPS) if "group" in o.name else ["lists"]
    return [v, m, b, L, g]


def run(case, ctx):
    if case[0] == "scalars":
        return scalars(ctx)
    i, n = case
    o = OPS[n]
    base = values(o.run(Heap(i)))
    ax = axes(i, o)
    arity = 3 if ctx.thorough else (2 if i < 2 else 1)
    todo = {BASE}
    for k in range(1, arity + 1):
        for dims in itertools.combinations([j for j in range(5) if len(ax[j]) > 1], k):
            for pick in itertools.product(*[ax[j] for j in dims]):
                c = list(BASE)
                for j, p in zip(dims, pick):
                    c[j] = p
                todo.add(tuple(c))
    for c in sorted(todo):
        try:
            got = values(o.run(Heap(i, *c)))
        except Exception as e:
            if ctx is None:
                raise
            ctx.fail("%s on data %d: representations %s: %s: %s" % (n, i, c, type(e).__name__, e))
        low = "float32" in c[0] and not o.solver or "float32" in c[1] or "float32" in c[2]
        tol = (2e-5 if o.solver else 2e-6) if low else 1e-7 if o.solver else 1e-10
        ctx.evaluation(i, n, c, nontrivial=c != BASE)
        if set(base) != set(got):
            ctx.fail("%s on data %d: representations %s: fields %s" % (n, i, c, sorted(got)))
        for k in base:
            if k == "certificate" and o.solver:
                continue
            scale = 1 + (np.abs(base[k]).max() if base[k].size else 0)
            ctx.close(got[k] / scale, base[k] / scale, tol, lambda: "%s on data %d: representations %s: %s" % (n, i, c, k))


KINDS = {"float": float, "int": int, "np.float64": np.float64, "np.int64": np.int64, "np.float32": np.float32}


def scalars(ctx):
    """the same integral parameter as each type of number"""
    x = np.array([3.0, -2.5, 0.25, 4.0])
    u = np.array([1.0, -2.0, 0.5, 3.0])
    e0 = np.array([0.0, 0.0, 1.0, 0.0])
    A = np.array(DATA[0]["A"], dtype=float)
    b = np.array(DATA[0]["b"], dtype=float)

    def q(z, return_gradient=True):
        f = float((z - u) @ (z - u))
        return (f, 2 * (z - u)) if return_gradient else f

    P, C, Ls = cp.penalty, cp.constraint, cp.loss
    table = {
        "L1Norm.prox": lambda a, s: P.L1Norm(a).prox(x, s),
        "L1Norm": lambda a, s: P.L1Norm(a)(x),
        "GroupL1.prox": lambda a, s: P.GroupL1(a, [[0, 1], [2], [3]]).prox(x, s),
        "FusedLasso.prox": lambda a, s: P.FusedLasso(a).prox(x, s),
        "TraceNorm.prox": lambda a, s: P.TraceNorm(a, (2, 2)).prox(x, s),
        "TotalVariation2D.prox": lambda a, s: P.TotalVariation2D(a, (2, 2)).prox(x, s),
        "LinfBall.prox": lambda a, s: C.LinfBall(a).prox(x, s),
        "L2Ball.prox": lambda a, s: C.L2Ball(a).prox(x, s),
        "L1Ball.prox": lambda a, s: C.L1Ball(a).prox(x, s),
        "L1Ball.lmo": lambda a, s: C.L1Ball(a).lmo(u, e0)[0],
        "Simplex.prox": lambda a, s: C.SimplexConstraint(a).prox(x, s),
        "Simplex.lmo": lambda a, s: C.SimplexConstraint(a).lmo(u, e0)[0],
        "TraceBall.prox": lambda a, s: C.TraceBall(a, (2, 2)).prox(x, s),
        "TraceBall.lmo": lambda a, s: C.TraceBall(a, (2, 2)).lmo(u, e0)[0],
        "LogLoss": lambda a, s: Ls.LogLoss(A, b, a).f_grad(x),
        "SquareLoss": lambda a, s: Ls.SquareLoss(A, b, a).f_grad(x),
        "HuberLoss": lambda a, s: Ls.HuberLoss(A, b, a, s).f_grad(x),
        "LogLoss.lipschitz": lambda a, s: Ls.LogLoss(A, b, a).lipschitz,
        "LogLoss.max": lambda a, s: Ls.LogLoss(A, b, a).max_lipschitz,
        "HuberLoss.lipschitz": lambda a, s: Ls.HuberLoss(A, b, a).lipschitz,
        "three step": lambda a, s: cp.minimize_three_split(q, x, P.L1Norm(a).prox, C.LinfBall(s).prox, step_size=s, max_iter=12),
        "three hlip": lambda a, s: cp.minimize_three_split(q, x, P.L1Norm(a).prox, C.LinfBall(s).prox, h_Lipschitz=a, max_iter=12),
        "pd steps": lambda a, s: cp.minimize_primal_dual(q, x, P.L1Norm(a).prox, C.LinfBall(s).prox, step_size=s, step_size2=a, max_iter=12),
        "pg callable": lambda a, s: cp.minimize_proximal_gradient(lambda z: (q(z)[0] / 8, q(z)[1] / 8), x, P.L1Norm(a).prox, step=lambda d: s, max_iter=12),
        "fw lipschitz": lambda a, s: cp.minimize_frank_wolfe(q, e0, C.L1Ball(a).lmo, step="DR", lipschitz=s * 2, max_iter=6),
        "fw bt lipschitz": lambda a, s: cp.minimize_frank_wolfe(q, e0, C.L1Ball(a).lmo, lipschitz=s, max_iter=6),
    }
    from mc.catalog import Counter
    from mc.draws import answering
    for nm, sv in (("saga", cp.minimize_saga), ("svrg", cp.minimize_svrg)):
        table[nm] = lambda a, s, sv=sv: sv(Ls.SquareLoss(A / 8, b).partial_deriv, A / 8, b, x, s, prox=P.L1Norm(a).prox_factory(4), alpha=a, max_iter=4)
    table["vrtos"] = lambda a, s: cp.minimize_vrtos(Ls.SquareLoss(A / 8, b).partial_deriv, A / 8, b, x, s, P.L1Norm(a).prox_factory(4), None, alpha=a, max_iter=4)
    table["sfw"] = lambda a, s: cp.minimize_sfw(Ls.SquareLoss(A, b).partial_deriv, A, b, e0, C.L1Ball(a).lmo, step_size="DR", lipschitz=s * 8, max_iter=4)
    for name, fn in table.items():
        for a0, s0 in ((1, 1), (2, 1), (1, 2)):
            def call(ka, ks):
                with answering(Counter().draws()):
                    return values(fn(KINDS[ka](a0), KINDS[ks](s0)))
            base = call("float", "float")
            for ka in KINDS:
                for ks in KINDS:
                    try:
                        got = call(ka, ks)
                    except Exception as e:
                        ctx.fail("%s with parameters %s %s: %s: %s" % (name, ka, ks, type(e).__name__, e))
                    ctx.evaluation(name, a0, s0, ka, ks, nontrivial=(ka, ks) != ("float", "float"))
                    tol = 1e-5 if "np.float32" in (ka, ks) else 1e-10
                    for k in base:
                        ctx.close(got[k], base[k], tol, lambda: "%s with parameters %d %d as %s %s: %s" % (name, a0, s0, ka, ks, k))
