"""C22: all ways of supplying the gradient, and extra arguments."""
import itertools
import numpy as np
from mc.core import import_copt, show

cp = import_copt()
PROPERTY = "C22"
LEVEL = "model_checking"
TECHNIQUE = ("differential model checking of the real solvers: every combination of problem, start, step rule and solver variant is run in lock-step with every "
             "way of supplying the gradient and every tuple of extra arguments; every evaluation, oracle and proximal call is monitored")
BOUNDS = {"quick": "12 objectives in 1-3 dimensions (convex, concave, non-convex), 3 starts, 9 Frank-Wolfe and 12 proximal-gradient variants, 14 ways of supplying the gradient, 6 argument tuples (up to 9 entries), 7 settings of two proximal operators with arguments, 8 iterations; "
                   "all walks of 3 among 6-18 points of equal value in 1-40 dimensions, led by the harness through its proximal operator or oracle",
          "thorough": "more starts, 20 iterations"}
ASSUMPTIONS = ["iterates under finite differences are compared as long as runs with gradients perturbed by a hundred times the difference error stay together (before that point no tie is decided by rounding)",
               "the difference quotient of a supplied step eps is judged by its exact formula on quadratics"]

# ------------------------------------------------------------ objectives f(x, *args): value and gradient


def quad(Q, c):
    Q, c = np.array(Q, dtype=float), np.array(c, dtype=float)

    def fg(x):
        return float(x @ Q @ x / 2 - c @ x), Q @ x - c
    fg.curv = float(np.abs(np.linalg.eigvalsh(Q)).max())
    fg.diag = np.diag(Q).copy()
    fg.n = len(c)
    return fg


def wavy(n):
    w = np.arange(1, n + 1) * 0.7

    def fg(x):
        return float(np.sum(np.cos(w * x)) + 0.1 * x @ x), -w * np.sin(w * x) + 0.2 * x
    fg.curv = float((w ** 2).max() + 0.2)
    fg.diag = None
    fg.n = n
    return fg


def lossy(name, A, b, alpha):
    A, b = np.array(A, dtype=float), np.array(b, dtype=float)
    loss = {"log": cp.loss.LogLoss, "huber": cp.loss.HuberLoss, "square": cp.loss.SquareLoss}[name](A, b, alpha)

    def fg(x):
        f, g = loss.f_grad(x)
        return float(f), np.array(g, dtype=float)
    fg.curv = float(np.linalg.norm(A, 2) ** 2 / len(b) + alpha)
    fg.diag = None
    fg.n = A.shape[1]
    return fg


OBJ = {
    "q1": lambda: quad([[2.0]], [0.7]),
    "q1n": lambda: quad([[-1.0]], [0.3]),
    "q2": lambda: quad([[1.3, 0.2], [0.2, 0.9]], [1.1, -0.45]),
    "q2ill": lambda: quad([[8.0, 0], [0, 0.05]], [0.3, 0.21]),
    "q2rank": lambda: quad([[1.0, 2], [2, 4]], [1.0, 2.3]),
    "q2saddle": lambda: quad([[1.0, 0.3], [0.3, -0.8]], [0.37, 0.11]),
    "lin": lambda: quad(np.zeros((3, 3)), [0.5, -0.2, 0.9]),
    "q3": lambda: quad([[2, 0.5, 0], [0.5, 1, -0.3], [0, -0.3, 0.6]], [1.0, -0.4, 0.7]),
    "wavy2": lambda: wavy(2),
    "wavy3": lambda: wavy(3),
    "log": lambda: lossy("log", [[1.0, -2.0, 0.5], [0.0, 1.5, 0.0], [-0.7, 0.0, 2.0], [1.2, -0.4, 0.9]], [1.0, 0, 0.25, 1], 0.1),
    "huber": lambda: lossy("huber", [[1.0, -2.0], [0.4, 1.5], [-0.7, 0.3]], [1.0, 0, 2.5], 0.05),
}

# ------------------------------------------------------------ solver variants


def fw(step, pair, dom):
    def go(fun, jac, x0, args, kw, rec):
        con = {"l1": cp.constraint.L1Ball, "simplex": cp.constraint.SimplexConstraint, "linf": cp.constraint.L1Ball}[dom](1.0)
        lmo = con.lmo_pairwise if pair else con.lmo
        start = np.zeros(len(x0))
        start[0] = 1.0

        def oracle(u, x, a):
            rec("lmo", np.array(u), np.array(x))
            return lmo(u, x, a)
        k = dict(kw)
        if step == "DR":
            k["lipschitz"] = 5.0
        if step == "backtracking-lip":
            k["lipschitz"] = 0.05
        st = {"callable": (lambda d: 0.31 if d["max_step_size"] >= 0.31 else d["max_step_size"]), "backtracking-lip": "backtracking"}.get(step, step)
        return cp.minimize_frank_wolfe(fun, start, oracle, x0_rep=(1.0, 0) if dom == "l1" else 0, variant="pairwise" if pair else "vanilla", step=st, args=args, jac=jac, tol=0.0, **k)
    return go


def pg(acc, step, prox):
    def go(fun, jac, x0, args, kw, rec):
        op = {None: None, "l1": cp.penalty.L1Norm(0.15).prox, "box": cp.constraint.LinfBall(0.8).prox, "l2": cp.constraint.L2Ball(0.9).prox}[prox]

        def p(v, s):
            rec("prox", np.array(v), float(s))
            return op(v, s)
        st = "backtracking" if step == "backtracking" else (lambda d: 0.17)
        return cp.minimize_proximal_gradient(fun, x0, prox=p if op else None, jac=jac, args=args, step=st, accelerated=acc, tol=0.0, max_iter_backtracking=60, **kw)
    return go


SOLVERS = {}
for _s in ("backtracking", "backtracking-lip", "DR", "sublinear", "callable"):
    SOLVERS["fw-%s" % _s] = fw(_s, False, "l1")
for _s in ("backtracking", "DR", "callable"):
    SOLVERS["fw-pair-%s" % _s] = fw(_s, True, "l1")
SOLVERS["fw-simplex"] = fw("backtracking", False, "simplex")
for _a in (False, True):
    for _s in ("backtracking", "callable"):
        for _p in (None, "l1", "box"):
            SOLVERS["pg-%s%s-%s" % ("acc-" if _a else "", _s, _p)] = pg(_a, _s, _p)

ARGS = ["none", "scale", "scale-tuple", "array", "mutable", "many"]


def args_of(kind):
    """-> (args, scale, shift) : the objective is scale * f(x) + shift . x"""
    if kind == "none":
        return ()
    if kind == "scale":
        return (1.7,)
    if kind == "scale-tuple":
        return (0.6, (1, "a"))
    if kind == "array":
        return (1.2, None, np.array([0.2, -0.1, 0.3]))
    if kind == "many":
        return (1.1, None, np.array([-0.1, 0.3, 0.15]), 7, "x", None, (), 8.0, [9])
    return (0.9, [1, 2], {"shift": np.array([0.05, 0.1, -0.2])})


def full(fg, x, args):
    f, g = fg(x)
    s = args[0] if args else 1.0
    f, g = s * f, s * g
    c = args[2] if len(args) > 2 else None
    c = c["shift"] if isinstance(c, dict) else c
    if c is not None:
        f, g = f + float(c[: fg.n] @ x), g + c[: fg.n]
    return f, g


TRUE = [True, np.True_, 1]
FALSE = [False, None, "2-point", np.False_, 0]


class Watch:
    """runs one solver with one way of supplying the gradient"""

    def __init__(self, ctx, fg, solver, x0, akind, what):
        self.ctx, self.fg, self.solver, self.x0, self.akind, self.what = ctx, fg, solver, x0, akind, what

    def go(self, mode, lim, eps=None, noise=None):
        fg, ctx = self.fg, self.ctx
        args = args_of(self.akind)
        points, iters, uses = [], [], []
        count = [0]

        def check(given):
            if not (len(given) == len(args) and all(a is b for a, b in zip(given, args))):
                ctx.fail("%s, %s: arguments reach the objective as %r instead of %r" % (self.what, mode, given, args))

        def both(x):
            f, g = full(fg, x, args)
            if noise is not None:
                g = g + noise(count[0], len(x))
                count[0] += 1
            return f, g

        def joint(x, *given):
            check(given)
            points.append(np.array(x))
            return both(np.array(x))

        def value(x, *given):
            check(given)
            points.append(np.array(x))
            return full(fg, np.array(x), args)[0]

        def grad(x, *given):
            check(given)
            points.append(np.array(x))
            return both(np.array(x))[1]

        def cb(d):
            iters.append(np.array(d["x"]))
            ctx.step()

        kw = dict(max_iter=lim, callback=cb)
        if eps is not None:
            kw["eps"] = eps
        if mode == "callable":
            fun, jac = value, grad
        elif mode == "method":
            class Holder:
                def derivative(self, x, *given):
                    return grad(x, *given)

                def __call__(self, x, *given):
                    return value(x, *given)
            h = Holder()
            fun, jac = h, h.derivative
        elif any(mode is t for t in TRUE[:2]) or (type(mode) is int and mode == 1):
            fun, jac = joint, mode
        else:
            fun, jac = value, mode
        res = self.solver(fun, jac, self.x0.copy(), args, kw, lambda *a: uses.append(a + (len(points), len(iters))))
        ctx.trace()
        self.points, self.uses, self.args = points, uses, args
        return iters + [np.array(res.x)]


def cases(tier, seed):
    for o in OBJ:
        for s in SOLVERS:
            yield [o, s]
    for n in (1, 2, 3, 9, 12, 40):
        for o in ("bowl", "flat", "even"):
            for how in ("pg", "fw", "fw-default"):
                yield ["script", n, o, how]


# objectives that take the same value at many points with different gradients
def symmetric(name, n):
    w = np.arange(1, n + 1) / n

    def fg(x):
        if name == "bowl":
            return float(x @ x / 2), 1.0 * x
        if name == "even":
            return float(np.sum(np.abs(x) ** 3)), 3 * x * np.abs(x)
        return 3.0, np.sin(5 * x + w)  # a value that says nothing about the point
    fg.n, fg.curv, fg.diag = n, 20.0, None
    return fg


def script(ctx, n, name, how):
    """the harness leads the solver through every walk of three points (mirror images, permutations, repetitions) and looks at the gradient it uses at each"""
    fg = symmetric(name, n)
    js = sorted({0, 1, 7, 8, n // 2, n - 1} & set(range(n)))
    pts = [sgn * a * np.eye(n)[j] for j in js for sgn in (1, -1) for a in ((1.0, 0.5) if n < 9 else (1.0,))] + [np.zeros(n), -0.0 * np.ones(n)]
    if ctx.thorough:
        pts += [np.ones(n), -np.ones(n), np.where(np.arange(n) % 2, 1.0, -1.0)]
    walks = itertools.product(range(len(pts)), repeat=3)
    for walk in walks:
        for mode in (True, "callable", "method", "2-point"):
            if mode == "2-point" and (n > 3 or name == "flat"):
                continue
            if mode in ("method",) and sum(walk) % 3:
                continue
            for ak in ("none", "scale") if n < 9 and mode != "2-point" else ("none",):
                lead(ctx, fg, [pts[i] for i in walk], mode, ak, how, "%s in %d dimensions, points %s" % (name, n, list(walk)))


def lead(ctx, fg, walk, mode, ak, how, what):
    args = args_of(ak)
    k = [0]
    s = 0.25
    tol = 1e-12 if mode != "2-point" else 2e-6

    def judge(got, want, x):
        ctx.step()
        if not np.all(np.abs(got - want) <= tol * (1 + np.abs(want))):
            ctx.fail("%s, %s, jac=%r: the gradient used at %s is %s instead of %s" % (how, what, mode, show(x), show(got), show(want)))

    def prox(v, step):
        x = walk[k[0]]
        judge((x - v) / step, full(fg, x, args)[1], x)
        k[0] += 1
        return walk[k[0]].copy() if k[0] < len(walk) else walk[-1].copy()

    def lmo(u, x, active):
        judge(-np.asarray(u), full(fg, walk[k[0]], args)[1], walk[k[0]])
        ctx.close(x, walk[k[0]], 1e-12, "%s: iterate" % how)
        k[0] += 1
        nxt = walk[k[0]] if k[0] < len(walk) else walk[-1]
        return nxt - x, k[0], None, 1.0

    def joint(x, *given):
        return full(fg, np.array(x), given)

    def value(x, *given):
        return full(fg, np.array(x), given)[0]

    def grad(x, *given):
        return full(fg, np.array(x), given)[1]

    class Holder:
        def derivative(self, x, *given):
            return grad(x, *given)

        def __call__(self, x, *given):
            return value(x, *given)

    h = Holder()
    fun, jac = {True: (joint, True), "callable": (value, grad), "method": (h, h.derivative), "2-point": (value, "2-point")}[mode]
    if how == "pg":
        cp.minimize_proximal_gradient(fun, walk[0].copy(), prox=prox, jac=jac, args=args, step=lambda d: s, max_iter=len(walk), tol=-1.0)
    else:
        kw = dict(step=(lambda d: 1.0)) if how == "fw" else dict(step="DR", lipschitz=1e-9)
        if how == "fw-default" and any(np.array_equal(a, b) for a, b in zip(walk, walk[1:])):
            return
        if how == "fw-default":
            # the step rule goes all the way only along a descent direction
            for a, b in zip(walk, walk[1:]):
                if -full(fg, a, args)[1] @ (b - a) <= 1e-3:
                    return
        cp.minimize_frank_wolfe(fun, walk[0].copy(), lmo, x0_rep=0, jac=jac, args=args, max_iter=len(walk), tol=0.0, **kw)
    ctx.trace()
    ctx.count("led_walks")


def starts(n, th):
    out = [[0.3, -0.6, 1.1], [0.0, 0.0, 0.0], [-2.0, 3.0, 0.7]]
    if th:
        out += [[1.0, 1.0, 1.0], [0.5, 0.0, -0.25], [12.0, -7.0, 3.0]]
    return [np.array(v[:n]) for v in out]


def run(case, ctx):
    if case[0] == "script":
        return script(ctx, *case[1:])
    fg = OBJ[case[0]]()
    solver = SOLVERS[case[1]]
    lim = 20 if ctx.thorough else 8
    for x0 in starts(fg.n, ctx.thorough)[: 1 if case[1].startswith("fw") else None]:
        for ak in ARGS:
            what = "%s on %s from %s with args %s" % (case[1], case[0], show(x0), ak)
            w = Watch(ctx, fg, solver, x0, ak, what)
            base = w.go(True, lim)
            monitor(ctx, w, case[1], 1e-12, 0.0)
            for x in base:
                ctx.state(case, ak, x)
            for mode in TRUE[1:] + ["callable", "method"]:
                got = w.go(mode, lim)
                same(ctx, base, got, "%s: jac=%r instead of True" % (what, mode))
                monitor(ctx, w, case[1], 1e-12, 0.0)
            differences(ctx, w, case, base, lim, what)


def same(ctx, a, b, what):
    ctx.require(len(a) == len(b), lambda: "%s: %d iterates instead of %d" % (what, len(b), len(a)))
    for k, (u, v) in enumerate(zip(a, b)):
        if not np.allclose(u, v, rtol=1e-12, atol=1e-13):
            ctx.fail("%s: iterate %d is %s instead of %s" % (what, k, show(v), show(u)))


def monitor(ctx, w, solver, tol, curv_eps, e=None):
    """the gradient used is the gradient at the point in use; e: step of the difference quotient"""
    def noise(p):
        # truncation, and the rounding of the two values and of the displaced point
        return curv_eps + (2e-15 / e * (1 + abs(full(w.fg, p, w.args)[0]) + w.fg.curv * np.abs(p).max() * (1 + np.abs(p).max())) if e else 0.0)
    uses = w.uses
    for i, use in enumerate(uses):
        if use[0] == "lmo":
            u, x = use[1], use[2]
            want = -full(w.fg, x, w.args)[1]
            slack = tol * (1 + np.abs(want).max()) + noise(x)
            if not np.all(np.abs(u - want) <= slack):
                ctx.fail("%s: the oracle is called with %s at %s, the negative gradient there is %s" % (w.what, show(u), show(x), show(want)))
        else:
            v, s, n = use[1], use[2], use[3]
            best = None
            if s * (1 + np.abs(v).max()) > 1e3:
                continue  # an unbounded problem running away
            if any(np.abs(p).max() > 1e3 for p in w.points[max(0, n - 10):n]):
                continue
            for p in reversed(w.points[:n]):
                g = full(w.fg, p, w.args)[1]
                err = np.max(np.abs(v - (p - s * g)))
                slack = tol * (1 + np.abs(p).max() + s * np.abs(g).max()) + s * noise(p)
                if err <= slack:
                    break
                best = err if best is None else min(best, err)
            else:
                ctx.fail("%s: the proximal operator is called at %s with step %g, which is no gradient step from any evaluated point (off by %g)" % (w.what, show(v), s, best))
    ctx.count("gradient_uses", len(uses))


def noises(delta):
    out = [lambda k, n: np.full(n, delta), lambda k, n: np.full(n, -delta)]
    for i in range(2):
        out.append(lambda k, n, i=i: delta * np.array([(-1.0) ** (((k + 1) >> j) + i) for j in range(n)]))
        out.append(lambda k, n, i=i: delta * np.array([(-1.0) ** (k * (j + 1) + j + i) for j in range(n)]))
    return out


def spread(runs, base):
    """how far the perturbed runs are from the base, iterate by iterate; stops where they part"""
    out = []
    for k in range(len(base)):
        d = 0.0
        for r in runs:
            if len(r) != len(base):
                return out
            d = max(d, float(np.max(np.abs(r[k] - base[k]))))
        if d > 0.02 * (1 + np.abs(base[k]).max()) or np.abs(base[k]).max() > 50:
            return out
        out.append(d)
    return out


def differences(ctx, w, case, base, lim, what):
    fg = w.fg
    scale = max(1.0, abs(w.args[0]) if hasattr(w, "args") and w.args else 1.0)
    first = None
    for eps in (None, 1e-6, np.full(fg.n, 1e-5)):
        e = 1e-8 if eps is None else float(np.max(eps))
        err = scale * (fg.curv * e + 2e-15 / e)
        jacs = FALSE if eps is None else FALSE[:1]
        allow = None
        for mode in jacs:
            got = w.go(mode, lim, eps=eps)
            # the difference quotients are taken at the point in use
            monitor(ctx, w, case[1], 1e-12, err, e)
            if first is None:
                first = got
            elif eps is None:
                same(ctx, first, got, "%s: jac=%r instead of %r" % (what, mode, FALSE[0]))
        if eps is None or ctx.thorough:
            runs = [w.go(True, lim, noise=nz) for nz in noises(max(3e-6, 100 * err))]
            allow = spread(runs, base)
            if len(got) != len(base) and len(allow) == len(base):
                ctx.fail("%s: %d iterates with finite differences instead of %d" % (what, len(got), len(base)))
            for k, d in enumerate(allow):
                if k < len(got) and not np.max(np.abs(got[k] - base[k])) <= 10 * d + 1e-6:
                    ctx.fail("%s: with finite differences (eps %s) iterate %d is %s instead of %s (allowed %g)" % (what, e, k, show(got[k]), show(base[k]), 10 * d + 1e-6))
                ctx.count("fd_iterates")
    # a large step: the quotient has a closed form on quadratics
    if fg.diag is not None:
        s = w.args[0] if w.args else 1.0
        for eps in (0.05, np.linspace(0.02, 0.08, fg.n)):
            w.go("2-point", lim, eps=eps)
            shift = s * fg.diag * eps / 2
            shifted = Watch(ctx, lambda x: fg(x), w.solver, w.x0, w.akind, w.what)
            base_f = w.fg

            def moved(x, base_f=base_f, shift=shift, s=s):
                f, g = base_f(x)
                return f, g + shift / s
            moved.n, moved.curv, moved.diag = fg.n, fg.curv, fg.diag
            w.fg = moved
            try:
                monitor(ctx, w, case[1], 1e-10, 1e-10)
            finally:
                w.fg = base_f
    args_prox(ctx, w) if case[1] == "pg-backtracking-l1" else None


def args_prox(ctx, w):
    """three-operator splitting hands its extra arguments to both proximal operators"""
    for extra in ((), (0.3,), ((1, 2), [3]), (0.2, None, {"a": 1})):
        seen = []

        def p1(v, s, *a):
            seen.append(a)
            return np.sign(v) * np.maximum(np.abs(v) - s * 0.1, 0)

        def p2(v, s, *a):
            seen.append(a)
            return np.clip(v, -0.9, 0.8)

        def f(x, return_gradient=True):
            v, g = w.fg(x)
            return (v, g) if return_gradient else v
        import warnings
        for how in (dict(max_iter_backtracking=60), dict(step_size=50.0), dict(step_size=50.0, max_iter_backtracking=1), dict(step_size=1e3, max_iter_backtracking=2),
                    dict(step_size=0.01, line_search=False), dict(step_size=0.01, h_Lipschitz=0.5), dict(step_size=5.0, h_Lipschitz=0.0, max_iter_backtracking=3)):
            for ops in ((p1, p2), (p1, None), (None, p2), (p2, p1)):
                del seen[:]
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    cp.minimize_three_split(f, w.x0.copy(), *ops, max_iter=5, args_prox=extra, **how)
                ctx.require(seen and all(len(a) == len(extra) and all(u is v for u, v in zip(a, extra)) for a in seen),
                            lambda: "%s: extra arguments %r reach the proximal operators as %r (%s)" % (w.what, extra, seen[:3], how))
                ctx.trace()
