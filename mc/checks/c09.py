"""C09: proximal gradient."""
import numpy as np
from mc.core import import_copt, show, Budget
from mc import ref, probs

cp = import_copt()
PROPERTY = "C09"
LEVEL = "exploration"
TECHNIQUE = ("bounded-exhaustive exploration: every problem over a grid x proximal term x start x step rule x variant is run on "
             "the real solver; every iterate is compared with descent, the rate bound and the reference minimiser")
RULE = ("smooth parts: quadratics over a family of curvatures from 1e-3 to 1e4 x linear terms over a grid, logistic/squared/Huber fits with and "
        "without regularisation; terms: none, l1 (3 weights), non-negativity, box, l2 ball, l1 ball, simplex, group, fused; three "
        "starts incl. far and infeasible ones; backtracking and constant steps 1/L, 0.5/L; plain and accelerated. "
        "Non-trivial: the start is not the solution. Oracle: reference minimiser with certified residual, own proximal operators")
BOUNDS = {"quick": "n=1..4, 3 letters; up to 400 iterations per run for the rates; n=64..225 for the rates of larger problems", "thorough": "5 letters, up to 3000 iterations, 3 tolerances"}
ASSUMPTIONS = ["plain rate: R^2/(2 s k) with s the smallest step the line search may end at (0.3/L)",
               "accelerated rate: 2 R^2/(s (k+1)^2) with the same s",
               "for curvatures above 100 the tolerance is kept above the level at which objective values are rounding noise",
               "success test judged up to a factor 5 (plain: the mapping is measured one step earlier)"]


def cases(tier, seed):
    th = tier == "thorough"
    for n in (1, 2, 3, 4):
        fs = list(probs.quads(n, (-1.5, 0.2, 0.9, 0.0, 4.0) if th and n < 4 else (-1.5, 0.2, 0.9))) + list(probs.fits(n)) + list(probs.stiff(n))
        for f in fs:
            yield [n, f]
    for k in range(4):
        yield ["wide", k]


def run(case, ctx):
    if case[0] == "wide":
        return wide(ctx, case[1])
    n, fspec = case
    f = ref.smooth(fspec)
    for gspec in probs.terms(n):
        if not probs.bounded(fspec, gspec):
            continue
        g = ref.term(gspec)
        xs, res = probs.solution(fspec, gspec)
        if res > 1e-7:
            ctx.count("reference_not_converged")
            continue
        Fs = f.value(xs) + g.value(xs)
        for x0 in probs.starts(n):
            for acc in (False, True):
                for step in ("backtracking", 1.0, 0.5):
                    one(ctx, n, fspec, f, gspec, g, np.array(x0), xs, Fs, acc, step)


def one(ctx, n, fspec, f, gspec, g, x0, xs, Fs, acc, step):
    th = ctx.thorough
    what = lambda: "%s + %s from %s, %s, step %s" % (fspec, gspec, show(x0), "accelerated" if acc else "plain", step)
    L = max(f.L, 1e-12)
    used = []

    def prox(v, s):
        used.append(float(s))
        return g.prox(v, s)

    its = []
    K = 3000 if th else 400

    def cb(d):
        its.append(np.array(d["x"], dtype=float))
        return None

    calls = [0]

    def fun(x):
        calls[0] += 1
        return f.value(x), f.grad(x)

    if step == "backtracking":
        st = step
        smin = min(0.3 / L, 500.0)  # the first estimate of L is never below 1e-3
    else:
        smin = step / L
        if f.L < 1e-9:
            smin = step
        st = lambda d: smin
    # below this the objective values the line search compares are rounding noise
    floor = np.sqrt(2.2e-16 * f.L * (1 + abs(Fs) + 0.5 * f.L * float((xs ** 2).sum())))
    tol = max(1e-5, 100 * floor) if f.L > 100 else 1e-5
    out = cp.minimize_proximal_gradient(fun, x0, prox=prox, step=st, accelerated=acc, max_iter=K, tol=tol, callback=cb)
    pts = its + [np.array(out.x, dtype=float)]
    F = [f.value(x) + g.value(x) if g.dist(x) <= 1e-9 else np.inf for x in pts]
    R2 = float(((x0 - xs) ** 2).sum())
    slack = 1e-11 * (1 + abs(Fs) + abs(f.value(x0)))
    ctx.step(len(pts))
    for k in range(1, len(pts)):
        if not np.isfinite(F[k]):
            ctx.fail("%s: iterate %d outside the domain: %s" % (what(), k, show(pts[k])))
        if not acc and F[k] > F[k - 1] + slack:
            ctx.fail("%s: objective increased from %.12g to %.12g at iteration %d" % (what(), F[k - 1], F[k], k))
        h = F[k] - Fs
        if acc:
            bound = 2 * R2 / (smin * (k + 1) ** 2)
        else:
            bound = R2 / (2 * smin * k)
        if h > bound * (1 + 1e-9) + slack * (1 + k):
            ctx.fail("%s: objective error %.3g after %d iterations exceeds the bound %.3g" % (what(), h, k, bound))
    s_last = used[-1]
    cert = float(out.certificate)
    maps = [np.linalg.norm(ref.mapping(f, g, x, s_last)) for x in pts[-2:]]
    if out.success:
        ctx.count("success")
        if maps[-1] > 5 * tol:
            ctx.fail("%s: success, but the gradient mapping has norm %.3g, tolerance %.3g (x=%s, solution %s)" % (what(), maps[-1], tol, show(out.x), show(xs)))
        ctx.require(cert < tol, lambda: "%s: success with certificate %g" % (what(), cert))
    lo, hi = min(maps), max(maps)
    noise = 1e-9 * (1 + np.abs(pts[-1]).max() / s_last + np.abs(f.grad(pts[-1])).max())
    if not (lo / 5 - noise <= cert <= 5 * hi + noise):
        ctx.fail("%s: certificate %.4g but the gradient mapping at the last two iterates has norm %s" % (what(), cert, maps))
    # strongly convex enough to be solved within the limit
    if f.mu > 0.1 * f.L or (f.L < 1e-9 and step == "backtracking"):
        if not out.success:
            ctx.fail("%s: no success after %d iterations on a well-conditioned problem (certificate %.3g)" % (what(), K, cert))
        e = np.abs(out.x - xs).max()
        if f.mu > 0 and e > 5 * tol / f.mu + 1e-8:
            ctx.fail("%s: returned %s, solution %s" % (what(), show(out.x), show(xs)))
    ctx.evaluation(fspec, str(gspec), x0, acc, step, nontrivial=R2 > 1e-12)


def wide(ctx, k):
    """many features: norms that differ by a factor sqrt(n) must not be exchanged"""
    n = (100, 225, 64, 150)[k]
    curv = [1.0 + 0.5 * (i % 3) for i in range(n)] if k < 2 else [0.2 + 0.05 * (i % 5) for i in range(n)]
    fspec = ["quad", np.diag(curv).tolist(), [0.9 - 0.1 * (i % 4) for i in range(n)]]
    f = ref.smooth(fspec)
    for gspec in (None, ["l1", 0.3], ["box", -0.5, 0.25], ["l2b", 0.7], ["simplex", 1.0]):
        if gspec not in probs.terms(3) and gspec is not None:
            continue
        g = ref.term(gspec)
        xs, res = probs.solution(fspec, gspec)
        if res > 1e-7:
            ctx.count("reference_not_converged")
            continue
        Fs = f.value(xs) + g.value(xs)
        for x0 in (np.zeros(n), np.full(n, 2.0)):
            for acc in (False, True):
                for step in ("backtracking", 1.0, 0.5):
                    one(ctx, n, fspec, f, gspec, g, x0, xs, Fs, acc, step)
