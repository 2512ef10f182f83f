"""C10: three-operator splitting."""
import numpy as np
from mc.core import import_copt, show
from mc import ref, probs

cp = import_copt()
PROPERTY = "C10"
LEVEL = "exploration"
TECHNIQUE = ("bounded-exhaustive exploration: every problem over a grid x pair of proximal terms x start x step configuration is "
             "run on the real solver and the result judged against a certified reference minimiser")
RULE = ("smooth parts: quadratics over a family of curvatures x linear terms, logistic/squared/Huber fits; every pair out of 8-10 "
        "proximal terms (absent, l1, non-negativity, box, l2 ball, l1 ball, simplex, group, fused); starts: zero, far; line search "
        "from 4 starting steps, with and without the Lipschitz constant of the second term; fixed steps 1/L and 0.4/L; the "
        "same problems with the objective in units 1e4 times smaller and larger. "
        "Non-trivial: the start is not the solution. Oracle: primal-dual reference solution with certified residual")
BOUNDS = {"quick": "n=1,2,3; one or two linear terms per curvature; objective units 1, 1e4, 1e-4", "thorough": "n=1..4, all linear terms of the grid, three starts"}
ASSUMPTIONS = ["the problem has a minimiser and the two domains intersect in their relative interiors (pairs that do not are skipped)",
               "success judged up to a factor 20 of the tolerance"]


def plist(n, th):
    fs = []
    per = {}
    for q in probs.quads(n):
        k = repr(q[1])
        per[k] = per.get(k, 0) + 1
        if th or per[k] <= 2:
            fs.append(q)
    fits = list(probs.fits(n, deltas=(1.0,) if not th else (0.1, 1.0)))
    fs += fits if th else fits[::3]
    return fs


def terms(n):
    out = [None, ["l1", 0.3], ["box", 0.0, 1e9], ["box", -0.5, 0.25], ["l2b", 0.7], ["l1b", 1.0], ["simplex", 1.0]]
    if n > 1:
        out += [["group", 0.4, [list(range(n))]], ["fused", 0.3]]
    return out


# domains that meet only in relative boundaries (no dual solution is guaranteed)
def compatible(a, b, n):
    sp = ["simplex", 1.0]
    for p, q in ((a, b), (b, a)):
        if p == sp and q is not None:
            if q == ["box", -0.5, 0.25] and n < 5:
                return n == 5
            if q == ["l2b", 0.7]:
                return n >= 3
            if q == ["l1b", 1.0] or (n == 1 and q[0] in ("l2b",)):
                return True
    return True


def cases(tier, seed):
    th = tier == "thorough"
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        for f in plist(n, th):
            for a in terms(n):
                yield [n, f, a]


CONFIGS = [("ls", None, False), ("ls", 1.0, False), ("ls", 100.0, False), ("ls", 0.01, True), ("ls", None, True), ("fixed", 1.0, False), ("fixed", 0.4, False)]


UNITS = (1e4, 1e-4)
UNIT_CONFIGS = [("ls", 1.0, False), ("ls", None, False), ("fixed", 1.0, False), ("ls", 0.01, True)]


def lips(spec, n):
    """Lipschitz constant of the term, None if it has none"""
    if spec is None:
        return 0.0
    if spec[0] == "l1":
        return spec[1] * np.sqrt(n)
    if spec[0] == "group":
        return spec[1]
    if spec[0] == "fused":
        return spec[1] * 2 * np.sqrt(n)
    return None


def run(case, ctx):
    n, fspec, aspec = case
    f, g = ref.smooth(fspec), ref.term(aspec)
    for bspec in terms(n):
        if not compatible(aspec, bspec, n):
            ctx.count("incompatible_pairs_skipped")
            continue
        if not (probs.bounded(fspec, aspec) or probs.bounded(fspec, bspec)):
            continue
        h = ref.term(bspec)
        xs, res = ref.solve3(f, g, h, n)
        if not res < 1e-8 or ref.outside(g, h, xs) > 1e-7:
            ctx.count("reference_not_certified")
            continue
        Fs = f.value(xs) + g.value(xs) + h.value(xs)
        for x0 in list(probs.starts(n))[: 3 if ctx.thorough else 2]:
            for cfg in CONFIGS:
                if cfg[2] and lips(bspec, n) is None:
                    continue
                one(ctx, n, fspec, f, aspec, g, bspec, h, np.array(x0), xs, Fs, cfg)
        # the same problem in other units of the objective
        for c in UNITS:
            for cfg in UNIT_CONFIGS:
                if not (cfg[2] and lips(bspec, n) is None):
                    one(ctx, n, fspec, f, aspec, g, bspec, h, np.array(list(probs.starts(n))[1]), xs, Fs, cfg, c)


def one(ctx, n, fspec, f, aspec, g, bspec, h, x0, xs, Fs, cfg, c=1.0):
    kind, mult, useh = cfg
    what = lambda: "%s + %s + %s from %s, %s step %s%s%s" % (
        fspec, aspec, bspec, show(x0), kind, mult, " with h_Lipschitz" if useh else "",
        "" if c == 1.0 else ", the objective in units of %g" % (1 / c))
    L = f.L if f.L > 1e-9 else 1.0
    tol = 1e-6
    K = 6000
    n_it = [0]

    def cb(d):
        n_it[0] += 1

    def f_grad(x, return_gradient=True):
        return (c * f.value(x), c * f.grad(x)) if return_gradient else c * f.value(x)

    out = cp.minimize_three_split(
        f_grad, x0, prox_1=None if aspec is None else (lambda v, s, *a: g.prox(v, c * s)),
        prox_2=None if bspec is None else (lambda v, s, *a: h.prox(v, c * s)), tol=c * tol, max_iter=K,
        line_search=kind == "ls", step_size=None if mult is None else mult / L / c,
        h_Lipschitz=c * lips(bspec, n) if useh else None, callback=cb)
    x = np.asarray(out.x, dtype=float)
    ctx.step(n_it[0])
    ctx.evaluation(fspec, str(aspec), str(bspec), x0, cfg, c, nontrivial=np.abs(x0 - xs).max() > 1e-9)
    s = float(out.step_size) * c
    r = float(out.certificate) / c
    C = 20 * tol
    if not np.all(np.isfinite(x)):
        ctx.fail("%s: result %s" % (what(), show(x)))
    if out.success:
        ctx.count("success")
        ctx.require(r < tol, lambda: "%s: success with certificate %g" % (what(), r))
        if g.dist(x) > 1e-9 or h.dist(x) > C * max(s, 1):
            ctx.fail("%s: success but x=%s is outside a domain (by %g, %g)" % (what(), show(x), g.dist(x), h.dist(x)))
        # move the point into the domain of h before evaluating it there
        xh = h.prox(x, 1e-12)
        F = f.value(x) + g.value(x) + h.value(xh)
        lipf = np.abs(f.grad(x)).max() * n + 10
        gapmax = C * (np.linalg.norm(x - xs) + max(s, 1) * lipf)
        if F - Fs > gapmax + 1e-9 * (1 + abs(Fs)):
            ctx.fail("%s: success at %s with objective %.9g, minimum %.9g (solution %s)" % (what(), show(x), F, Fs, show(xs)))
        if f.mu > 1e-3:
            e = np.abs(x - xs).max()
            if e > C * (1 + 1 / f.mu) * max(1, s) + 1e-7:
                ctx.fail("%s: success at %s, solution %s" % (what(), show(x), show(xs)))
    else:
        ctx.count("no_success")
        if r > 100 * tol:
            ctx.fail("%s: no success in %d iterations, certificate %.3g, x=%s, solution %s" % (what(), K, r, show(x), show(xs)))
