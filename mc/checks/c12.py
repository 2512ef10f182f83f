"""C12: SAGA and SVRG, every sampling order, in lock-step with a dense model."""
import itertools
import numpy as np
from scipy import sparse
from mc.core import import_copt, show
from mc import ref, vr
from mc.draws import Draws, answering

cp = import_copt()
PROPERTY = "C12"
LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking: the random draws are answered by the harness and every sampling order is enumerated; after "
             "every epoch the real solver's iterate is compared with a dense reference model driven by the same order")
BOUNDS = {
    "quick": "all sparsity patterns of 2x2, 3x2, 2x3 matrices (3x3: every eleventh), all block structures, 5 operators, 2 losses, two "
             "regularisations; walks with a loss whose derivative is exactly zero on satisfied samples, and with data of magnitude 1e-6 and 1e4; a quarter of the patterns with integral data in 14 representations (number types, unsorted, split entries); all orders of 2 epochs (3 samples: 36); convergence under every constant order; walks of several epochs on instances of up to dozens of features and blocks and 260 samples",
    "thorough": "also all 3x3 patterns, 4x2 patterns and 3 epochs for two samples; convergence under every periodic order of period 2"}
ASSUMPTIONS = ["stored entries are non-zero (explicit zeros would enlarge the support)",
               "agreement with the model up to 1e-10", "convergence for problems whose features all occur in some sample and "
               "step sizes at most 1/(6 (L + n alpha))"]

VALS = np.array([[1.0, -2.0, 0.5], [3.0, 1.5, -1.0], [-0.7, 0.8, 2.0], [1.2, -0.4, 0.9]])
B = {"square": np.array([1.0, -0.5, 2.0, 0.3]), "log": np.array([1.0, 0.0, 0.25, 1.0]), "hinge": np.array([0.2, -0.5, 0.6, -1.0])}


def patterns(m, n):
    return list(itertools.product((0, 1), repeat=m * n))


def matrix(pat, m, n):
    return VALS[:m, :n] * np.array(pat, dtype=float).reshape(m, n)


def terms_for(n):
    out = [vr.BlockTerm("none", 0, [[j] for j in range(n)], n), vr.BlockTerm("l1", 0.2, [[j] for j in range(n)], n)]
    for p in vr.partitions(n):
        out.append(vr.BlockTerm("l2", 0.25, p, n))
        if any(len(b) == 2 for b in p) and all(len(b) <= 2 for b in p):
            out.append(vr.BlockTerm("pair", 0.15, p, n))
    out.append(vr.BlockTerm("nonneg", 0, [[j] for j in range(n)], n))
    return out


def cases(tier, seed):
    th = tier == "thorough"
    dims = [(2, 2, 1), (3, 2, 1), (2, 3, 1), (3, 3, 1 if th else 11), (3, 1, 1), (1, 3, 1)] + ([(4, 2, 3)] if th else [])
    for m, n, stride in dims:
        ps = patterns(m, n)[::stride]
        k = max(1, 24 // (m * n))
        for i in range(0, len(ps), k):
            yield ["lock", m, n, ps[i:i + k]]
    for m, n in ((2, 2), (3, 2), (2, 3)) + (((3, 3),) if th else ()):
        ps = patterns(m, n)
        for i in range(0, len(ps), 4):
            yield ["types", m, n, ps[i:i + 4] if th else ps[i + i // 4 % 4: i + i // 4 % 4 + 1]]
    for m, n in ((2, 2), (3, 2), (2, 3)) + (((3, 3),) if th else ()):
        ps = [p for p in patterns(m, n) if np.all(matrix(p, m, n).any(axis=0))]
        if (m, n) == (3, 3):
            ps = ps[::6]
        for p in ps:
            yield ["conv", m, n, p]
    for m, n in ((2, 5), (5, 4), (6, 6), (9, 3), (14, 8), (33, 5), (12, 40)) + (((130, 9), (40, 70)) if th else ()):
        for kind in ("square", "log", "hinge"):
            yield ["long", m, n, kind]
    if not th:
        yield ["long", 130, 4, "square"]
        yield ["long", 260, 3, "log"]


SOLVERS = {"saga": (lambda: cp.minimize_saga, vr.Saga), "svrg": (lambda: cp.minimize_svrg, vr.Svrg)}


def call(solver, kind, A, b, x0, step, op, alpha, epochs, order_of_epoch, cb, tol=0.0):
    deriv = vr.derivs(kind)[0]
    ep = [0]

    def order(n):
        o = order_of_epoch(ep[0])
        ep[0] += 1
        return o

    with answering(Draws(order=order)):
        return solver(deriv, A, b, x0, step, prox=op, alpha=alpha, max_iter=epochs, tol=tol, callback=cb)


def run(case, ctx):
    th = ctx.thorough
    if case[0] == "lock":
        _, m, n, pats = case
        for pi, pat in enumerate(pats):
            A = matrix(pat, m, n)
            for ti, t in enumerate(terms_for(n)):
                for kind in ("square", "log") + (("hinge",) if ti % 2 else ()):
                    if m * n >= 9 and (ti + (kind == "log")) % 2 and not th:
                        continue
                    for alpha in (0.0, 0.3):
                        for own in (True, False):
                            if not own and t.kind == "nonneg":
                                continue
                            if not own and alpha:
                                continue
                            lockstep(ctx, kind, A, alpha, t, own, m, n, 3 if th and m == 2 else 2)
    elif case[0] == "long":
        long_walk(ctx, *case[1:])
    elif case[0] == "types":
        _, m, n, pats = case
        for pi, pat in enumerate(pats):
            for k, V in enumerate((vr.INTEGRAL, np.ones((4, 3), dtype=int))):
                A = V[:m, :n] * np.array(pat).reshape(m, n)
                terms = terms_for(n)
                for ti, (rep, As, b) in enumerate(vr.typed(A, vr.INT_TARGETS[:m])):
                    lockstep(ctx, "log" if (ti + k) % 2 else "square", A.astype(float), 0.3, terms[(sum(pat) + ti) % len(terms)], True, m, n, 2, rep, As, b)
    else:
        _, m, n, pat = case
        A = matrix(pat, m, n)
        for t in terms_for(n):
            for kind in ("square", "log"):
                converge(ctx, kind, A, 0.2 * vr.derivs(kind)[1] * (A ** 2).sum(1).max(), t, m, n)


def lockstep(ctx, kind, A, alpha, t, own, m, n, epochs, rep="", As=None, b=None):
    if As is None:
        b = B[kind][:m]
        As = sparse.csr_matrix(A)
    x0 = np.array([0.3, -0.6, 1.1][:n])
    step = 0.13
    perms = list(itertools.permutations(range(m)))
    op = t.operator() if own else t.copt_operator(cp)
    for name, (solver, Mod) in SOLVERS.items():
        for seq in itertools.product(perms, repeat=epochs):
            model = Mod(kind, A, b, alpha, [t], step, x0=x0)
            k = [0]
            what = lambda: "%s, %s loss, A=%s %s alpha=%g %s, orders %s" % (name, kind, A.tolist(), rep, alpha, t, seq)

            def cb(d):
                if k[0]:
                    model.epoch(seq[k[0] - 1])
                    ctx.step(m)
                ctx.close(d["x"], model.x, 1e-10, lambda: "%s: after epoch %d" % (what(), k[0]))
                ctx.state(name, kind, alpha, str(t), A, model.x, model.mem)
                k[0] += 1

            res = call(solver(), kind, As, b, x0, step, op, alpha, epochs, lambda e: seq[e], cb)
            if k[0] != epochs + 1:
                # the solver may stop only because its iterate stopped moving
                ctx.require(res.success and k[0] >= 2, lambda: "%s: %d callbacks" % (what(), k[0]))
            ctx.close(res.x, model.x, 1e-10, lambda: "%s: result" % what())
            ctx.trace()


def long_walk(ctx, m, n, kind):
    """larger instances, more epochs: every order family x block structure x representation of the operator"""
    A, b = vr.big(m, n)
    if kind == "log":
        b = (b > 0).astype(float)
    As = sparse.csr_matrix(A)
    x0 = 0.5 * np.cos(2.0 * np.arange(n))
    epochs = 13 if m < 7 else 7 if m < 20 else 4
    A1, b1 = A, b
    for ti, t in enumerate(vr.big_terms(n)):
        # the magnitude of the data: the same trajectory at another scale
        unit = (1.0, 1e-6, 1e4)[ti % 3] if kind != "log" else 1.0
        A, b = A1 * unit, b1 * unit
        As = sparse.csr_matrix(A)
        t.w *= unit ** 2
        for own in (True, False):
            op = t.operator() if own else t.copt_operator(cp)
            for oname, order in vr.big_orders(m):
                for name, (solver, Mod) in SOLVERS.items():
                    for alpha in (0.0, 0.2 * unit ** 2):
                        step = (0.3 if kind == "square" else 3.0) / (vr.derivs(kind)[1] * (A ** 2).sum(1).max() * m) if kind != "log" else 0.02
                        model = Mod(kind, A, b, alpha, [t], step, x0=x0)
                        k = [0]

                        def cb(d):
                            if k[0]:
                                model.epoch(order(k[0] - 1))
                                ctx.step(m)
                            ctx.close(d["x"], model.x, 1e-9, lambda: "%s, %s loss, %dx%d data, alpha=%g %s, %s: after epoch %d" % (name, kind, m, n, alpha, t, oname, k[0]))
                            ctx.state(name, kind, alpha, str(t), A, model.x, model.mem)
                            k[0] += 1

                        res = call(solver(), kind, As, b, x0, step, op, alpha, epochs, order, cb)
                        ctx.require(k[0] == epochs + 1, lambda: "%d callbacks instead of %d" % (k[0], epochs + 1))
                        ctx.close(res.x, model.x, 1e-9, lambda: "%s, %s loss, %dx%d data, alpha=%g %s, %s: result" % (name, kind, m, n, alpha, t, oname))
                        ctx.trace()


def reference(kind, A, b, alpha, t):
    f = ref.Fit("square" if kind == "square" else "log", A, b, alpha)
    xs, res = ref.solve2(f, t, A.shape[1], iters=40000)
    return xs, res


def converge(ctx, kind, A, alpha, t, m, n):
    b = B[kind][:m]
    curv = vr.derivs(kind)[1]
    xs, res = reference(kind, A, b, alpha, t)
    if res > 1e-9:
        ctx.count("reference_not_converged")
        return
    L = curv * (A ** 2).sum(1).max() + m * alpha
    step = 1 / (6 * L)
    As = sparse.csr_matrix(A)
    op = t.operator()
    perms = list(itertools.permutations(range(m)))
    seqs = [(p,) for p in perms]
    if ctx.thorough:
        seqs += list(itertools.permutations(perms, 2))
    what = "%s loss, A=%s alpha=%g %s" % (kind, A.tolist(), alpha, t)
    for seq in seqs:
        for name, (solver, _) in SOLVERS.items():
            n_it = [0]

            def cb(d):
                n_it[0] += 1

            res = call(solver(), kind, As, b, np.array([1.0, -1.0, 2.0][:n]), step, op, alpha, 1500, lambda e: seq[e % len(seq)], cb, tol=1e-9)
            ctx.step(n_it[0] * m)
            ctx.trace()
            e = np.abs(res.x - xs).max()
            if e > 1e-5:
                ctx.fail("%s, %s: %d epochs of order %s end at %s, solution %s" % (name, what, n_it[0], seq, show(res.x), show(xs)))
            ctx.count("convergence_runs")
    for p in perms:
        res = call(cp.minimize_svrg, kind, As, b, xs.copy(), step, op, alpha, 2, lambda e: p, None)
        ctx.close(res.x, xs, 1e-7, "svrg, %s: left its solution with order %s" % (what, p))
        ctx.trace()
