"""A catalogue of solver configurations: each can be run from any start, with any callback, limit and tolerance."""
import itertools
import numpy as np
from scipy import sparse
from mc.core import import_copt
from mc.draws import Draws, answering

cp = import_copt()

A3 = np.array([[1.0, -2.0, 0.5], [0.0, 1.5, 0.0], [-0.7, 0.0, 2.0], [1.2, -0.4, 0.9]])
B3 = np.array([1.0, 0.0, 0.25, 1.0])


class Counter:
    """deterministic draws that differ from call to call"""

    def __init__(self, salt=0):
        self.k = salt

    def order(self, n):
        self.k += 1
        if n > 6:
            step = next(d for d in range(1 + self.k % 5, n + 6) if np.gcd(d, n) == 1)
            return [(self.k * 3 + j * step) % n for j in range(n)]
        perms = list(itertools.permutations(range(n)))
        return list(perms[(self.k * 7) % len(perms)])

    def index(self, n, size):
        self.k += 1
        return [(self.k + 3 * j + j * j * self.k) % n for j in range(size)]

    def batch(self, n, size):
        self.k += 1
        return [(self.k + j) % n for j in range(size)]

    def draws(self):
        return Draws(order=self.order, batch=self.batch, index=self.index)


class Config:
    def __init__(self, name, fn, x0, stops=True, random=False, exposes=True, per=None):
        self.name, self.fn, self.x0 = name, fn, np.array(x0, dtype=float)
        self.stops, self.random, self.exposes, self.per = stops, random, exposes, per

    def run(self, callback=None, max_iter=8, tol=0.0, x0=None, salt=0, wrap=None, raw=False, more=None):
        """wrap(name, function) may replace any function handed to the solver (fun, jac, prox, lmo, deriv)"""
        w = wrap or (lambda name, fn: fn)
        start = self.x0.copy() if x0 is None else x0
        kw = dict(max_iter=max_iter, tol=tol, **(more or {}))
        if callback is not None:
            kw["callback"] = callback
        if self.random and not raw:
            with answering(Counter(salt).draws()):
                return self.fn(start, w, kw)
        return self.fn(start, w, kw)


def quad(scale=1.0):
    Q = scale * np.array([[2.0, 0.5, 0.0], [0.5, 1.0, -0.3], [0.0, -0.3, 0.6]])
    c = scale * np.array([1.0, -0.4, 0.7])

    def fun(x):
        return float(x @ Q @ x / 2 - c @ x), Q @ x - c
    return fun


def logistic(alpha=0.1):
    loss = cp.loss.LogLoss(A3.copy(), B3.copy(), alpha)
    return loss


LIP = 2.3


def build():
    out = []

    def fw(name, step, pair=False, lip=None, simplex=False, fun=None):
        def fn(x0, w, kw):
            con = cp.constraint.SimplexConstraint(1.0) if simplex else cp.constraint.L1Ball(1.0)
            k = dict(kw)
            if lip:
                k["lipschitz"] = lip
            return cp.minimize_frank_wolfe(
                w("fun", fun or quad()), x0, w("lmo", con.lmo_pairwise if pair else con.lmo), x0_rep=(1.0, 0),
                variant="pairwise" if pair else "vanilla", step=step, **k)
        out.append(Config("fw-" + name, fn, [1.0, 0, 0]))

    fw("backtracking", "backtracking")
    fw("backtracking-lip", "backtracking", lip=0.1)
    fw("dr", "DR", lip=LIP)
    fw("sublinear", "sublinear")
    fw("callable", lambda d: 0.3)
    fw("pair-backtracking", "backtracking", pair=True)
    fw("pair-dr", "DR", pair=True, lip=LIP)
    fw("simplex", "backtracking", simplex=True)
    fw("log", "backtracking", fun=logistic().f_grad)

    def pg(name, acc, step, prox=None, fun=None, **more):
        def fn(x0, w, kw):
            k = dict(kw)
            if prox is not None:
                k["prox"] = w("prox", prox())
            return cp.minimize_proximal_gradient(w("fun", fun or quad()), x0, step=step, accelerated=acc, **more, **k)
        out.append(Config("pg-" + name, fn, [1.0, -2.0, 0.5]))

    l1 = lambda: cp.penalty.L1Norm(0.2).prox
    for acc in (False, True):
        nm = "acc-" if acc else ""
        pg(nm + "backtracking-l1", acc, "backtracking", l1)
        pg(nm + "backtracking", acc, "backtracking")
        pg(nm + "callable-l1", acc, lambda d: 0.35, l1)
        pg(nm + "log-box", acc, "backtracking", lambda: cp.constraint.LinfBall(0.4).prox, fun=logistic().f_grad)
    pg("traced", False, "backtracking", l1, trace_certificate=True)
    pg("acc-traced", True, "backtracking", l1, trace_certificate=True)
    pg("l2", False, "backtracking", lambda: cp.constraint.L2Ball(0.5).prox)
    pg("group", False, "backtracking", lambda: cp.penalty.GroupL1(0.1, [[0], [1, 2]]).prox)
    pg("tv", False, "backtracking", lambda: cp.penalty.FusedLasso(0.1).prox)
    pg("l1ball", True, "backtracking", lambda: cp.constraint.L1Ball(0.5).prox)
    pg("simplex", False, "backtracking", lambda: cp.constraint.SimplexConstraint(1.0).prox)

    def fg(fun):
        return lambda x, return_gradient=True: fun(x) if return_gradient else fun(x)[0]

    def three(name, p1=None, p2=None, fun=None, **more):
        def fn(x0, w, kw):
            return cp.minimize_three_split(
                w("fun", fun or fg(quad())), x0, prox_1=None if p1 is None else w("prox", p1()),
                prox_2=None if p2 is None else w("prox", p2()), **more, **kw)
        out.append(Config("three-" + name, fn, [1.0, -2.0, 0.5]))

    box = lambda: cp.constraint.LinfBall(0.4).prox
    three("ls", l1, box)
    three("none")
    three("ls-start", l1, box, step_size=3.0)
    three("fixed", box, l1, step_size=0.4, line_search=False)
    three("hlip", box, l1, h_Lipschitz=0.35)
    three("log", l1, lambda: cp.constraint.SimplexConstraint(1.0).prox, fun=logistic().f_grad)
    three("l2", lambda: cp.constraint.L2Ball(0.5).prox, lambda: cp.constraint.L1Ball(0.6).prox)

    def pd(name, p1=None, p2=None, L=None, fun=None, **more):
        def fn(x0, w, kw):
            return cp.minimize_primal_dual(
                w("fun", fun or fg(quad())), x0, prox_1=None if p1 is None else w("prox", p1()),
                prox_2=None if p2 is None else w("prox", p2()), L=None if L is None else L(), **more, **kw)
        out.append(Config("pd-" + name, fn, [1.0, -2.0, 0.5]))

    D = lambda: np.array([[1.0, -1.0, 0.0], [0.0, 1.0, -1.0]])
    pd("ls", l1, box)
    pd("none")
    pd("ls-diff", l1, box, D)
    pd("fixed", box, l1, lambda: sparse.csr_matrix(D()), step_size=0.3, step_size2=0.3, line_search=False)
    pd("ls-tau", None, l1, D, step_size=0.5, step_size2=0.5)
    pd("log", None, l1, D, fun=logistic().f_grad)

    def vrs(name, solver, p=None, deriv=None, alpha=0.0, A=None):
        def fn(x0, w, kw):
            d = deriv or cp.loss.SquareLoss(A3, B3).partial_deriv
            op = None
            if p is not None:
                op = p()
                if isinstance(op, tuple):
                    op = (w("bprox", op[0]), op[1])
            M = sparse.csr_matrix(A3) if A is None else A()
            return solver(w("deriv", d), M, B3.copy(), x0, 0.05, prox=op, alpha=alpha, **kw)
        out.append(Config(name, fn, [0.3, -0.6, 1.1], stops=False, random=True))

    pl1 = lambda: cp.penalty.L1Norm(0.1).prox_factory(3)
    pgr = lambda: cp.penalty.GroupL1(0.1, [[0], [1, 2]]).prox_factory(3)
    logd = logistic().partial_deriv
    for nm, s in (("saga", cp.minimize_saga), ("svrg", cp.minimize_svrg)):
        vrs(nm, s)
        vrs(nm + "-l1", s, pl1, alpha=0.1)
        vrs(nm + "-group-log", s, pgr, deriv=logd)
        vrs(nm + "-dense", s, pl1, A=lambda: A3.copy())

    def vrt(name, p1=None, p2=None):
        def fn(x0, w, kw):
            d = cp.loss.SquareLoss(A3, B3).partial_deriv
            ops = []
            for p in (p1, p2):
                op = None if p is None else p()
                ops.append((w("bprox", op[0]), op[1]) if op is not None else None)
            return cp.minimize_vrtos(w("deriv", d), sparse.csr_matrix(A3), B3.copy(), x0, 0.05, prox_1=ops[0], prox_2=ops[1], **kw)
        out.append(Config(name, fn, [0.3, -0.6, 1.1], stops=False, random=True, exposes=False))

    vrt("vrtos")
    vrt("vrtos-l1-group", pl1, pgr)
    vrt("vrtos-fused", lambda: cp.penalty.FusedLasso(0.1).prox_1_factory(3), lambda: cp.penalty.FusedLasso(0.1).prox_2_factory(3))

    def sfw(name, variant, step="sublinear", bs=1, pair=False, **more):
        def fn(x0, w, kw):
            con = cp.constraint.L1Ball(1.0)
            d = cp.loss.SquareLoss(A3, B3).partial_deriv
            return cp.minimize_sfw(w("deriv", d), sparse.csr_matrix(A3), B3.copy(), x0, w("lmo", con.lmo_pairwise if pair else con.lmo),
                                   x0_rep=(1.0, 0), batch_size=bs, step_size=step, variant=variant,
                                   lmo_variant="pairwise" if pair else "vanilla", **more, **kw)
        out.append(Config("sfw-" + name, fn, [1.0, 0, 0], stops=False, random=True))

    for v in ("SAG", "SAGA", "MHK", "LF"):
        sfw(v, v)
        sfw(v + "-batch", v, bs=2)
        sfw(v + "-dr", v, step="DR", lipschitz=3.0)
    sfw("callable", "SAG", step=lambda d: (0.2, 0.5))
    sfw("pair", "SAG", step="DR", lipschitz=3.0, pair=True)
    return {c.name: c for c in out}


CONFIGS = build()


def build_wide():
    """one configuration per method with dozens of variables and samples"""
    out = []
    n, m = 70, 20
    i, j = np.indices((m, n))
    A = np.where((3 * i + 5 * j) % 7 < 2, 0.3 + ((i * 7 + j * 13) % 11) / 5.0 - 1.2 * ((i + j) % 2), 0.0)
    A[2], A[:, 11] = 0, 0
    b = ((np.arange(m) * 3) % 5 < 2).astype(float)
    S = lambda: sparse.csr_matrix(A)
    x0 = ((np.arange(n) * 37) % 19 - 9) / 30.0
    unit = np.zeros(n)
    unit[5] = 2.0
    blocks = [list(range(k, min(k + 4, n))) for k in range(0, n, 5)]
    f = lambda: cp.loss.LogLoss(S(), b.copy(), 0.05).f_grad
    dv = lambda: cp.loss.LogLoss(S(), b.copy(), 0.05).partial_deriv

    def add(name, fn, start=x0, **k):
        out.append(Config(name, fn, start, **k))
    ball = lambda: cp.constraint.L1Ball(2.0)
    add("fw-wide", lambda x, w, kw: cp.minimize_frank_wolfe(w("fun", f()), x, w("lmo", ball().lmo), **kw), unit)
    add("fw-pair-wide", lambda x, w, kw: cp.minimize_frank_wolfe(w("fun", f()), x, w("lmo", ball().lmo_pairwise), x0_rep=(1.0, 5), variant="pairwise", **kw), unit)
    grp = lambda: cp.penalty.GroupL1(0.02, blocks).prox
    add("pg-wide", lambda x, w, kw: cp.minimize_proximal_gradient(w("fun", f()), x, prox=w("prox", grp()), trace_certificate=True, **kw))
    add("pg-acc-wide", lambda x, w, kw: cp.minimize_proximal_gradient(w("fun", f()), x, prox=w("prox", cp.penalty.FusedLasso(0.01).prox), accelerated=True, **kw))
    add("three-wide", lambda x, w, kw: cp.minimize_three_split(w("fun", f()), x, prox_1=w("prox", grp()), prox_2=w("prox", cp.penalty.L1Norm(0.01).prox), **kw))
    D = sparse.csr_matrix(np.eye(n)[:-1] - np.eye(n)[1:])
    add("pd-wide", lambda x, w, kw: cp.minimize_primal_dual(w("fun", f()), x, prox_1=w("prox", grp()), prox_2=w("prox", cp.penalty.L1Norm(0.01).prox), L=D, **kw))
    bp = lambda w: (lambda p, B: (w("bprox", p), B))(*cp.penalty.GroupL1(0.02, blocks).prox_factory(n))
    rnd = dict(stops=False, random=True)
    add("saga-wide", lambda x, w, kw: cp.minimize_saga(w("deriv", dv()), S(), b.copy(), x, 0.05, prox=bp(w), alpha=0.05, **kw), **rnd)
    add("svrg-wide", lambda x, w, kw: cp.minimize_svrg(w("deriv", dv()), S(), b.copy(), x, 0.05, prox=bp(w), alpha=0.05, **kw), **rnd)
    add("vrtos-wide", lambda x, w, kw: cp.minimize_vrtos(w("deriv", dv()), S(), b.copy(), x, 0.05, prox_1=bp(w), prox_2=cp.penalty.L1Norm(0.01).prox_factory(n), alpha=0.05, **kw),
        exposes=False, **rnd)
    for v in ("SAG", "SAGA", "MHK", "LF"):
        # 20 samples in batches of 5
        add("sfw-%s-batch-wide" % v, lambda x, w, kw, v=v: cp.minimize_sfw(w("deriv", dv()), S(), b.copy(), x, w("lmo", ball().lmo), batch_size=5, variant=v, **kw), unit, per=4, **rnd)
    return {c.name: c for c in out}


WIDE = build_wide()
ALL = dict(CONFIGS, **WIDE)


def same(a, b):
    """byte-identical results (x, nit, success, certificate)"""
    for k in ("x", "nit", "success", "certificate", "step_size"):
        if (k in a) != (k in b):
            return "field %s" % k
        if k in a:
            u, v = a[k], b[k]
            if (u is None) != (v is None):
                return k
            if u is None:
                continue
            u, v = np.asarray(u), np.asarray(v)
            if u.shape != v.shape or not np.array_equal(u, v, equal_nan=u.dtype.kind == "f"):
                return "%s: %s instead of %s" % (k, u, v)
    return None
