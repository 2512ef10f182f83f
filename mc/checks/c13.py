"""C13: VRTOS, every sampling order, in lock-step with a dense model."""
import itertools
import numpy as np
from scipy import sparse
from mc.core import import_copt, show
from mc import ref, vr
from mc.draws import Draws, answering
from mc.checks.c12 import B, matrix, patterns

cp = import_copt()
PROPERTY = "C13"
LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking: the random draws are answered by the harness and every sampling order is enumerated; the "
             "real solver's result after 1, 2, .. epochs is compared with a dense reference model driven by the same order")
BOUNDS = {
    "quick": "all sparsity patterns of 2x2, 2x3 matrices, a third of 3x2 and a few of 3x3, all pairs of block structures, all orders of 2 epochs; a quarter of the patterns with integral data in 14 representations; convergence under every constant order; walks of up to 13 epochs on larger instances, also with a loss whose derivative is exactly zero on satisfied samples and with data of magnitude 1e-6 and 1e4",
    "thorough": "all sparsity patterns of 2x2, 3x2, 2x3 and half of 3x3; convergence under every periodic order of period 2"}
ASSUMPTIONS = ["stored entries are non-zero", "agreement with the model up to 1e-10",
               "convergence for problems whose features all occur in some sample and step sizes at most 1/(3 (L + n alpha))"]


def pairs(n):
    single = [[j] for j in range(n)]
    ts = [vr.BlockTerm("none", 0, single, n), vr.BlockTerm("l1", 0.2, single, n)]
    for p in vr.partitions(n):
        if any(len(b) > 1 for b in p):
            ts.append(vr.BlockTerm("l2", 0.25, p, n))
        if any(len(b) == 2 for b in p) and all(len(b) <= 2 for b in p):
            ts.append(vr.BlockTerm("pair", 0.15, p, n))
    out = list(itertools.product(ts, repeat=2))
    out.append((vr.BlockTerm("nonneg", 0, single, n), ts[1]))
    return out


def cases(tier, seed):
    th = tier == "thorough"
    for m, n, stride, k in ((2, 2, 1, 2), (3, 2, 1 if th else 3, 1), (2, 3, 1 if th else 2, 1), (3, 3, 2 if th else 101, 1), (1, 2, 1, 4), (3, 1, 1, 4)):
        ps = patterns(m, n)[:: stride]
        for i in range(0, len(ps), k):
            yield ["lock", m, n, ps[i:i + k]]
    for m, n in ((2, 2), (3, 2), (2, 3)) + (((3, 3),) if th else ()):
        ps = patterns(m, n)
        for i in range(0, len(ps), 4):
            yield ["types", m, n, ps[i:i + 4] if th else ps[i + i // 4 % 4: i + i // 4 % 4 + 1]]
    for m, n in ((2, 2), (3, 2), (2, 3)) + (((3, 3),) if th else ()):
        ps = [p for p in patterns(m, n) if np.all(matrix(p, m, n).any(axis=0))]
        if (m, n) == (3, 3):
            ps = ps[::12]
        for p in ps[:: 1 if th else 2]:
            yield ["conv", m, n, p]
    for m, n in ((2, 5), (5, 4), (6, 6), (9, 3), (14, 8), (33, 5), (12, 40)) + (((130, 9), (40, 70)) if th else ()):
        for kind in ("square", "log", "hinge"):
            yield ["long", m, n, kind]
    if not th:
        yield ["long", 130, 4, "square"]
        yield ["long", 260, 3, "log"]


def call(kind, A, b, x0, step, ops, alpha, epochs, order_of_epoch, cb=None):
    deriv = vr.derivs(kind)[0]
    ep = [0]

    def order(n):
        o = order_of_epoch(ep[0])
        ep[0] += 1
        return o

    with answering(Draws(order=order)):
        return cp.minimize_vrtos(deriv, A, b, x0, step, prox_1=ops[0], prox_2=ops[1], alpha=alpha, max_iter=epochs, callback=cb)


def run(case, ctx):
    th = ctx.thorough
    if case[0] == "long":
        return long_walk(ctx, *case[1:])
    _, m, n, pats = case
    if case[0] == "lock":
        for pat in pats:
            A = matrix(pat, m, n)
            for i, (t1, t2) in enumerate(pairs(n)):
                for j, (kind, alpha) in enumerate((("square", 0.0), ("log", 0.3)) if i % 3 else (("hinge", 0.0), ("log", 0.3))):
                    if n == 3 and not th and (i + j) % 2:
                        continue
                    lockstep(ctx, kind, A, alpha, t1, t2, m, n, i % 2 == 0)
    elif case[0] == "types":
        for pi, pat in enumerate(pats):
            for k, V in enumerate((vr.INTEGRAL, np.ones((4, 3), dtype=int))):
                A = V[:m, :n] * np.array(pat).reshape(m, n)
                terms = pairs(n)
                for ti, (rep, As, b) in enumerate(vr.typed(A, vr.INT_TARGETS[:m])):
                    lockstep(ctx, "log" if (ti + k) % 2 else "square", A.astype(float), 0.3, *terms[(sum(pat) + 5 * ti) % len(terms)], m, n, True, rep, As, b)
    else:
        A = matrix(pats, m, n)
        for i, (t1, t2) in enumerate(pairs(n)):
            if n == 3 and not th and i % 4:
                continue
            kind = "square" if i % 2 else "log"
            converge(ctx, kind, A, 0.2 * vr.derivs(kind)[1] * (A ** 2).sum(1).max(), t1, t2, m, n)


def lockstep(ctx, kind, A, alpha, t1, t2, m, n, own, rep="", As=None, b=None):
    if As is None:
        b = B[kind][:m]
        As = sparse.csr_matrix(A)
    x0 = np.array([0.3, -0.6, 1.1][:n])
    step = 0.17
    perms = list(itertools.permutations(range(m)))
    ops = [t.operator() if own else t.copt_operator(cp) for t in (t1, t2)]
    for epochs in (1, 2):
        for seq in itertools.product(perms, repeat=epochs):
            what = lambda: "%s loss, A=%s %s alpha=%g %s + %s, orders %s" % (kind, A.tolist(), rep, alpha, t1, t2, seq)
            # the solver performs one step on the first sample before its first epoch; doing without it is as good
            models = []
            for warm in (True, False):
                mod = vr.Vrtos(kind, A, b, alpha, [t1, t2], step, x0=x0)
                if warm:
                    mod.inner(0)
                for o in seq:
                    mod.epoch(o)
                models.append(mod)
            res = call(kind, As, b, x0, step, ops, alpha, epochs, lambda e: seq[e])
            mod = models[0]
            if np.abs(res.x - models[1].z).max() < np.abs(res.x - mod.z).max():
                mod = models[1]
            ctx.close(res.x, mod.z, 1e-10, lambda: "%s: result" % what())
            cert = np.linalg.norm(mod.X[0] - mod.z) + np.linalg.norm(mod.X[1] - mod.z)
            ctx.close(res.certificate, cert, 1e-9, lambda: "%s: certificate" % what())
            ctx.step(epochs * m)
            ctx.state(kind, alpha, str(t1), str(t2), A, mod.z, mod.Y[0], mod.Y[1])
            ctx.trace()


def long_walk(ctx, m, n, kind):
    """larger instances, more epochs: every order family x pair of block structures x representation of the operators"""
    A, b = vr.big(m, n)
    if kind == "log":
        b = (b > 0).astype(float)
    As = sparse.csr_matrix(A)
    x0 = 0.5 * np.cos(2.0 * np.arange(n))
    epochs = 13 if m < 6 else 5 if m < 20 else 3
    A1, b1 = A, b
    ts = list(vr.big_terms(n))
    for i, (t1, t2) in enumerate(itertools.product(ts, repeat=2)):
        if not ctx.thorough and (i + (kind == "log")) % 2:
            continue
        # the magnitude of the data: the same trajectory at another scale
        unit = (1.0, 1e-6, 1e4)[i % 3] if kind != "log" else 1.0
        A, b = A1 * unit, b1 * unit
        As = sparse.csr_matrix(A)
        t1, t2 = (vr.BlockTerm(t.kind, t.w * unit ** 2, t.blocks, n) for t in (t1, t2))
        ops = [t.operator() if i % 4 < 2 else t.copt_operator(cp) for t in (t1, t2)]
        for k, (oname, order) in enumerate(vr.big_orders(m)):
            alpha = (0.0, 0.2 * unit ** 2)[(i + k) % 2]
            step = 1.0 / (vr.derivs(kind)[1] * (A ** 2).sum(1).max() * m) if kind != "log" else 0.05
            models = []
            for warm in (True, False):
                mod = vr.Vrtos(kind, A, b, alpha, [t1, t2], step, x0=x0)
                if warm:
                    mod.inner(0)
                models.append(mod)
            n_cb = [0]

            def cb(d):
                if n_cb[0]:
                    for mod in models:
                        mod.epoch(order(n_cb[0] - 1))
                    ctx.step(m)
                n_cb[0] += 1

            res = call(kind, As, b, x0, step, ops, alpha, epochs, order, cb)
            ctx.require(n_cb[0] == epochs + 1, lambda: "%d callbacks instead of %d" % (n_cb[0], epochs + 1))
            mod = min(models, key=lambda q: np.abs(q.z - res.x).max())
            ctx.close(res.x, mod.z, 1e-9, lambda: "%s loss, %dx%d data, alpha=%g %s + %s, %s: result" % (kind, m, n, alpha, t1, t2, oname))
            cert = np.linalg.norm(mod.X[0] - mod.z) + np.linalg.norm(mod.X[1] - mod.z)
            ctx.close(res.certificate, cert, 1e-9, lambda: "certificate")
            ctx.state(kind, alpha, str(t1), str(t2), A, mod.z, mod.Y[0], mod.Y[1])
            ctx.trace()


def converge(ctx, kind, A, alpha, t1, t2, m, n):
    b = B[kind][:m]
    curv = vr.derivs(kind)[1]
    f = ref.Fit("square" if kind == "square" else "log", A, b, alpha)
    xs, res = ref.solve3(f, t1, t2, n, tol=1e-12)
    if res > 1e-10:
        ctx.count("reference_not_converged")
        return
    L = curv * (A ** 2).sum(1).max() + m * alpha
    step = 1 / (3 * L)
    ops = (t1.operator(), t2.operator())
    perms = list(itertools.permutations(range(m)))
    seqs = [(p,) for p in perms] + (list(itertools.permutations(perms, 2)) if ctx.thorough else [])
    As = sparse.csr_matrix(A)
    for seq in seqs:
        res = call(kind, As, b, np.array([1.0, -1.0, 2.0][:n]), step, ops, alpha, 400, lambda e: seq[e % len(seq)])
        ctx.step(400 * m)
        ctx.trace()
        ctx.count("convergence_runs")
        e = np.abs(res.x - xs).max()
        if e > 1e-4:
            ctx.fail("%s loss, A=%s alpha=%g %s + %s: 400 epochs of order %s end at %s, solution %s (certificate %.3g)" % (
                kind, A.tolist(), alpha, t1, t2, seq, show(res.x), show(xs), res.certificate))
        ctx.require(res.certificate < 1e-3, lambda: "certificate %g at the solution" % res.certificate)
