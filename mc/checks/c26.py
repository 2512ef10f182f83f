"""C26: all applicable solvers agree on the minimiser."""
import itertools
import numpy as np
from scipy import sparse
from mc.core import import_copt, show
from mc import ref, vr
from mc.catalog import Counter
from mc.draws import answering

cp = import_copt()
PROPERTY = "C26"
LEVEL = "exploration"
TECHNIQUE = ("bounded-exhaustive differential exploration: every problem of a family (data x targets x loss x regularisation x penalty or constraint, all made of copt's own "
             "objects) is handed to every solver that can express it; all returned points are compared with each other and with an independent certified minimiser")
RULE = ("problems: 10 data matrices (dense, sparse, empty rows and columns, single sample, rank deficient, more features than samples) x 2 target vectors x 3 losses x "
        "2 regularisation strengths x 18 penalties/constraints (groups covering all features or not); a run counts when the minimiser differs from the start; distinct by (problem, solver)")
BOUNDS = {"quick": "up to 21 solver variants per problem, 2-4 and 9 features", "thorough": "4 target vectors, 4 regularisation strengths, 2 radii/weights per term"}
ASSUMPTIONS = ["stochastic solvers run over one fixed sequence of sampling orders (all orders: C12-C14)", "stochastic Frank-Wolfe is held to an O(1/k) accuracy",
               "features without data are started at the origin for stochastic solvers (they are not touched by them)"]

MATS = {
    "square2": [[1.0, 0.5], [-0.5, 1.5], [0.7, -1.0]],
    "one": [[1.0, -2.0]],
    "wide": [[1.0, 2.0, 0.0], [0.0, 1.0, -1.0]],
    "empty": [[1.0, 0.0, -1.0], [0.0, 0.0, 0.0], [0.5, 0.0, 2.0], [1.0, 0.0, 0.0]],
    "tall": [[1.0, -1.0, 0.5], [2.0, 0.0, 1.0], [0.0, 1.0, 1.0], [1.0, 1.0, 1.0], [-1.0, 0.4, 0.0]],
    "rank": [[1.0, 2.0, 3.0], [2.0, 4.0, 6.0], [-1.0, -2.0, -3.0]],
    "dup": [[1.0, 1.0], [1.0, 1.0], [0.0, 2.0]],
    "four": [[1.0, 0, 0, 1], [0, 1, -1, 0], [1, 1, 1, 1], [2, 0, 0, 1], [0, 0.5, 1, 0]],
    "mid": [[round(float(np.cos(1.7 * i + 2.3 * j + 0.4 * i * j)) * (1.5 if (i * 3 + j) % 4 else 0.0), 3) for j in range(9)] for i in range(14)],
    "diag": [[1.5, 0, 0, 0], [0, -1.0, 0, 0], [0, 0, 0.7, 0], [0, 0, 0, 2.0]],
}
TARGETS = [[1.0, 0.0, 0.25, 1.0, 0.0], [0.0, 1.0, 1.0, 0.6, 0.3], [1, 1, 0, 0, 1], [0.5, 0.1, 0.9, 0, 0.2]]


def terms(n, th):
    out = [("none",)]
    for w in (0.05, 0.3) if th else (0.1,):
        out += [("l1", w), ("fused", w), ("group", w, [[0], list(range(1, n))])]
        # features that belong to no group: after, before, around and between the groups
        out += [("group", w, [[0]]), ("group", w, [[n - 1]])] + ([("group", w, [[1]]), ("group", w, [[0], [2]])] if n > 2 else [])
        if n > 4:
            out += [("group", w, [[1, 2], [5, 6, 7]]), ("group", w, [list(range(n))])]
        if n == 4:
            out += [("trace", w), ("tv2d", w)]
    for r in (0.4, 1.5) if th else (0.7,):
        out += [("l1b", r), ("simplex", r), ("l2b", r), ("box", r)]
        if n == 4:
            out += [("traceb", r)]
    return out


def cases(tier, seed):
    th = tier == "thorough"
    for a in MATS:
        n = len(MATS[a][0])
        for t in range(4 if th else 2):
            for loss in ("log", "square", "huber"):
                for g in terms(n, th):
                    yield [a, t, loss, list(g)]


class Nuclear(ref.Term):
    def __init__(self, w, shape):
        self.w, self.shape = w, shape

    def value(self, x):
        return self.w * np.linalg.svd(x.reshape(self.shape), compute_uv=False).sum()

    def prox(self, x, s):
        U, sv, Vt = np.linalg.svd(x.reshape(self.shape), full_matrices=False)
        return ((U * np.maximum(sv - self.w * s, 0)) @ Vt).ravel()


class TV2(ref.Term):
    """2x2: the four differences form a cycle; proximal operator by enumeration is left to the solver below"""

    def __init__(self, w):
        self.w = w
        self.D = np.array([[1, -1, 0, 0], [0, 0, 1, -1], [1, 0, -1, 0], [0, 1, 0, -1.0]])

    def value(self, x):
        return self.w * np.abs(self.D @ x).sum()

    def prox(self, x, s):
        # projected accelerated gradient on the dual box
        u = np.zeros(4)
        y, t = u, 1.0
        for _ in range(300):
            un = np.clip(y + 0.24 * (self.D @ (x - self.D.T @ y)), -self.w * s, self.w * s)
            tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
            y = un + (t - 1) / tn * (un - u)
            if np.abs(un - u).max() < 1e-15:
                u = un
                break
            u, t = un, tn
        return x - self.D.T @ u


def own(g, n):
    """copt's object(s) for the term, and an independent one"""
    P, C = cp.penalty, cp.constraint
    k = g[0]
    if k == "none":
        return None, ref.Term()
    w = g[1]
    shape = (2, 2)
    return {
        "l1": lambda: (P.L1Norm(w), ref.L1(w)), "fused": lambda: (P.FusedLasso(w), ref.Fused(w)),
        "group": lambda: (P.GroupL1(w, g[2]), ref.Group(w, g[2])), "trace": lambda: (P.TraceNorm(w, shape), Nuclear(w, shape)),
        "tv2d": lambda: (P.TotalVariation2D(w, shape, 500, 1e-12), TV2(w)), "l1b": lambda: (C.L1Ball(w), ref.L1B(w)),
        "simplex": lambda: (C.SimplexConstraint(w), ref.Simplex(w)), "l2b": lambda: (C.L2Ball(w), ref.L2B(w)),
        "box": lambda: (C.LinfBall(w), ref.Box(-w, w)), "traceb": lambda: (C.TraceBall(w, shape), ref.TraceB(w, shape)),
    }[k]()


def run(case, ctx):
    a, t, loss, g = case
    A = np.array(MATS[a])
    m, n = A.shape
    b = np.array((TARGETS[t] * 3)[:m])
    for rel in ((0.05, 0.2, 1.0, 0.0) if ctx.thorough else (0.2, 0.0)):
        problem(ctx, a, A, b, loss, g, rel)


def problem(ctx, aname, A, b, kind, g, rel):
    m, n = A.shape
    row = (A ** 2).sum(1).max()
    alpha = rel * row * (0.25 if kind == "log" else 1.0)
    fmt = {"wide": sparse.csr_matrix, "empty": sparse.csc_matrix, "four": sparse.csr_matrix}.get(aname, np.array)
    M = fmt(A)
    Loss = {"log": cp.loss.LogLoss, "square": cp.loss.SquareLoss, "huber": cp.loss.HuberLoss}[kind]
    f = Loss(M, b, alpha)
    pen, term = own(g, n)
    fr = ref.Fit(kind, A, b, alpha)
    constrained = g[0] in ("l1b", "simplex", "l2b", "box", "traceb")
    if kind == "log" and alpha == 0 and not constrained:
        return  # may have no minimiser
    xs, res = ref.solve2(fr, term, n, tol=1e-12)
    if res > 1e-8:
        ctx.count("reference_not_converged")
        return
    Fs = fr.value(xs) + term.value(xs)
    mu, L = fr.mu, fr.L
    strong = mu > 0.02 * L
    prox = pen.prox if pen is not None else None
    what = "%s loss on %s, targets %s, alpha %g, %s" % (kind, aname, b.tolist(), alpha, g)
    found = {}

    def put(name, x, gap, dist=1e-7):
        """gap: how much worse than the minimum the objective may be"""
        x = np.array(x, dtype=float)
        ctx.evaluation(what, name, nontrivial=np.abs(xs).max() > 1e-9)
        found[name] = x
        if not np.all(np.isfinite(x)):
            ctx.fail("%s: %s returns %s" % (what, name, show(x)))
        if term.dist(x) > dist:
            ctx.fail("%s: %s returns %s, outside the constraint by %g" % (what, name, show(x), term.dist(x)))
        F = fr.value(x) + term.value(x)
        if F - Fs > gap * (1 + abs(Fs)):
            ctx.fail("%s: %s ends at %s with objective %.9g; the minimum is %.9g at %s" % (what, name, show(x), F, Fs, show(xs)))
        # copt's own objective agrees about its value
        own_F = float(f(x)) + (float(pen(x)) if pen is not None and not constrained else 0.0)
        ctx.close(own_F, F, 1e-9, "%s: objective at %s" % (what, show(x)))
        if strong:
            e = np.sqrt(2 * gap * (1 + abs(Fs)) / mu) + 1e-6
            if np.linalg.norm(x - xs) > e:
                ctx.fail("%s: %s ends at %s, the minimiser is %s" % (what, name, show(x), show(xs)))

    start = np.zeros(n)
    far = np.resize([2.0, -1.0, 3.0, 0.5], n)
    K = 3000
    R2 = max(float(((far - xs) ** 2).sum()), float((xs ** 2).sum())) + 1e-12
    sub = 0.0 if strong else 2 * R2 * L / (0.3 * K)
    for acc in (False, True):
        put("pg-acc" if acc else "pg", cp.minimize_proximal_gradient(f.f_grad, far, prox, accelerated=acc, tol=1e-9, max_iter=K).x, 1e-9 + sub)
    if prox is not None:
        put("pg-step", cp.minimize_proximal_gradient(f.f_grad, start, prox, step=lambda d: 1 / max(f.lipschitz, 1e-9), tol=1e-9, max_iter=K).x, 1e-9 + sub)
    # splittings; for constraints the other slot may leave the set slightly
    r = cp.minimize_three_split(f.f_grad, far, prox_1=prox, tol=1e-9, max_iter=K)
    put("three-1", r.x, 1e-8 + 10 * sub)
    if prox is not None:
        r = cp.minimize_three_split(f.f_grad, far, prox_2=prox, tol=1e-9, max_iter=K)
        if r.success:
            put("three-2", r.x, 1e-7 + 10 * sub, 1e-5)
        L_op = np.vstack([np.eye(n)])
        r = cp.minimize_primal_dual(f.f_grad, far, prox_1=prox, tol=1e-10, max_iter=K)
        if r.success:
            put("pd-1", r.x, 1e-7 + 10 * sub, 1e-5)
        r = cp.minimize_primal_dual(f.f_grad, far, prox_2=prox, L=L_op, tol=1e-10, max_iter=K)
        if r.success:
            put("pd-2", r.x, 1e-7 + 10 * sub, 1e-5)
            ctx.count("pd_success")
        if g[0] in ("l1", "l1b") and alpha:
            # half of the penalty in each slot
            half = cp.penalty.L1Norm(g[1] / 2).prox if g[0] == "l1" else prox
            r = cp.minimize_three_split(f.f_grad, far, half, half, tol=1e-9, max_iter=K)
            if r.success:
                put("three-both", r.x, 1e-7 + 10 * sub, 1e-5)
        if g[0] == "fused" and alpha:
            # |D x| through the linear operator
            D = sparse.csr_matrix(np.eye(n - 1, n) - np.eye(n - 1, n, 1))
            r = cp.minimize_primal_dual(f.f_grad, far, prox_2=cp.penalty.L1Norm(g[1]).prox, L=D, tol=1e-10, max_iter=K)
            if r.success:
                put("pd-differences", r.x, 1e-7 + 10 * sub)
    else:
        r = cp.minimize_primal_dual(f.f_grad, far, tol=1e-10, max_iter=K)
        if r.success:
            put("pd", r.x, 1e-7 + 10 * sub)

    # Frank-Wolfe
    if g[0] in ("l1b", "simplex", "traceb"):
        rad = g[1]
        v = np.zeros(n)
        v[0] = rad
        D2 = (2 * rad) ** 2
        KF = 400
        bound = 2 * L * D2 / (KF + 2)
        lip = f.lipschitz
        for step in ("backtracking", "DR", "sublinear"):
            r = cp.minimize_frank_wolfe(f.f_grad, v, pen.lmo, step=step, lipschitz=lip if step == "DR" else None, max_iter=KF, tol=1e-7)
            put("fw-" + step, r.x, bound * (1 if step == "DR" else 2) + 1e-6)
        if g[0] == "l1b":
            for step in ("backtracking", "DR"):
                r = cp.minimize_frank_wolfe(f.f_grad, v, pen.lmo_pairwise, x0_rep=(rad, 0) if False else (1.0, 0), variant="pairwise", step=step,
                                            lipschitz=lip if step == "DR" else None, max_iter=KF, tol=1e-7) if rad else None
                put("fw-pair-" + step, r.x, 2e-7 if r.certificate <= 1e-7 else 4 * bound + 1e-6)
        if kind != "huber" and alpha == 0:
            for var in ("SAG", "SAGA", "MHK", "LF"):
                with answering(Counter().draws()):
                    r = cp.minimize_sfw(f.partial_deriv, sparse.csr_matrix(A), b, v, pen.lmo, x0_rep=None, batch_size=m, max_iter=KF, variant=var, tol=0)
                # the step may be the average of gradients of old iterates
                put("sfw-" + var, r.x, 12 * L * D2 / (KF + 2) ** (2 / 3 if var == "MHK" else 1 if var != "LF" else 2 / 3) + 1e-6)
    # stochastic
    if kind != "huber" and alpha > 0:
        Ls = (0.25 if kind == "log" else 1.0) * row + m * alpha
        deriv = f.partial_deriv
        x0 = np.where((A != 0).any(0), far, 0.0)
        sp = sparse.csr_matrix(A)
        two = None
        bl = None
        ok = True
        if g[0] in ("l1", "group"):
            bl = pen.prox_factory(n)
        elif g[0] == "fused":
            two = (pen.prox_1_factory(n), pen.prox_2_factory(n))
        elif g[0] != "none":
            ok = False
        if ok:
            for nm, sv in (("saga", cp.minimize_saga), ("svrg", cp.minimize_svrg)):
                if two is None:
                    with answering(Counter().draws()):
                        r = sv(deriv, sp, b, x0, 1 / (6 * Ls), prox=bl, alpha=alpha, max_iter=700, tol=1e-10)
                    if touched(A, bl):
                        put(nm, r.x, 1e-7)
                    ctx.count("stochastic_runs")
            with answering(Counter().draws()):
                p1, p2 = two if two else (bl, None)
                r = cp.minimize_vrtos(deriv, sp, b, x0, 1 / (3 * Ls), prox_1=p1, prox_2=p2, alpha=alpha, max_iter=400)
            if touched(A, p1) and (p2 is None or touched(A, p2)):
                put("vrtos", r.x, 1e-6)
                ctx.count("stochastic_runs")
    # and with each other
    if strong:
        tight = [k for k in found if not k.startswith(("fw", "sfw"))]
        for k in tight:
            ctx.require(np.abs(found[k] - found["pg"]).max() <= 2e-3 * (1 + np.abs(xs).max()), lambda: "%s: %s returns %s, pg returns %s" % (what, k, show(found[k]), show(found["pg"])))


def touched(A, bl):
    """every block has data"""
    if bl is None:
        return True
    B = bl[1]
    cols = (A != 0).any(0)
    return all(cols[B.indices[B.indptr[i]:B.indptr[i + 1]]].any() for i in range(B.shape[0]) if B.indptr[i + 1] > B.indptr[i])
