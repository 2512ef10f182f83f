"""C07: Frank-Wolfe feasibility and active-set exactness under adversarial objectives."""
import itertools
import numpy as np
from mc.core import import_copt, explore, show, Violation
from mc import ref

cp = import_copt()
PROPERTY = "C07"
LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking of minimize_frank_wolfe: the objective is the environment, every sequence of "
             "its answers within the bound is enumerated by depth-first search, invariants judged at every oracle call")
BOUNDS = {
    "quick": "all gradient sequences over 4-6 gradients for 4 iterations (n=2; 3 iterations n=3) x start vertices x step rules; "
             "backtracking: all value/gradient answer sequences with <=2 deviations from a quadratic, 3-4 iterations; steps exceeding the maximum by factors from 1.25 to 1+1e-6",
    "thorough": "5-6 iterations, larger gradient alphabets, <=3 deviations"}
ASSUMPTIONS = ["gradients are finite (values may also be inf or NaN)", "invariants hold up to 1e-9 rounding"]
TOL = 1e-9


class SimplexPair:
    """harness-owned pairwise oracle on the scaled simplex; its vertices are named by their index"""

    def __init__(self, r, n):
        self.r, self.n = r, n

    def lmo_pairwise(self, u, x, active):
        i = int(np.argmax(u))
        away = min(active, key=lambda v: u[v])
        d = np.zeros(self.n)
        d[i] += self.r
        d[away] -= self.r
        return d, i, away, active[away]


def make_set(name, r, n):
    """-> (lmo, term, vertices {rep: vector}, starts [(x0, rep)])"""
    C = cp.constraint
    if name in ("l1", "l1pair"):
        ball = C.L1Ball(r)
        verts = {}
        for i in range(n):
            for s in (1.0, -1.0):
                v = np.zeros(n)
                v[i] = s * r
                verts[(s, i)] = v
        lm = ball.lmo if name == "l1" else ball.lmo_pairwise
        return lm, ref.L1B(r), verts
    if name in ("simplex", "spair"):
        verts = {}
        for i in range(n):
            v = np.zeros(n)
            v[i] = r
            verts[i] = v
        lm = C.SimplexConstraint(r).lmo if name == "simplex" else SimplexPair(r, n).lmo_pairwise
        return lm, ref.Simplex(r), verts
    if name == "trace":
        shape = {4: (2, 2), 6: (2, 3)}[n]
        return C.TraceBall(r, shape).lmo, ref.TraceB(r, shape), None
    raise ValueError(name)


def starts_of(name, verts, r, n):
    if verts is None:
        a = np.zeros(n)
        a[0] = r
        return [(a, None), (np.zeros(n), None)]
    out = [(v, k) for k, v in verts.items()]
    if name == "l1":
        out = out[:3] + [(np.zeros(n), None), (np.full(n, r / n), None)]
    if name == "simplex":
        out = out[:2] + [(np.full(n, r / n), None)]
    return out


class Watch:
    """the oracle as seen by the solver, with the invariants judged at every call"""

    def __init__(self, ctx, lmo, termset, verts, pairwise, what):
        self.ctx, self.lmo, self.t, self.verts, self.pw, self.what = ctx, lmo, termset, verts, pairwise, what
        self.calls = []
        self.last = None

    def __call__(self, u, x, active):
        self.judge(x, active, "at oracle call %d" % len(self.calls))
        self.ctx.step()
        if self.pw:
            self.ctx.state(x, sorted((str(k), round(float(v), 9)) for k, v in active.items()))
        else:
            self.ctx.state(x)
        res = self.lmo(u.copy(), x.copy(), active)
        self.last = res
        self.calls.append(x.copy())
        return res

    def judge(self, x, active, when):
        x = np.asarray(x)
        if not np.all(np.isfinite(x)):
            self.ctx.fail("%s: iterate %s %s" % (self.what(), show(x), when))
        d = self.t.dist(x)
        if d > TOL:
            self.ctx.fail("%s: iterate %s outside the set by %g %s" % (self.what(), show(x), d, when))
        if self.pw:
            judge_active(self.ctx, active, self.verts, x, lambda: "%s, %s" % (self.what(), when))


def judge_active(ctx, active, verts, x, what):
    if active is None:
        ctx.fail("%s: no active set" % what())
    tot = 0.0
    comb = np.zeros(x.size)
    for k, w in active.items():
        if not w > 0:
            ctx.fail("%s: vertex %s has weight %s" % (what(), k, w))
        if k not in verts and not (isinstance(k, tuple) and k[0] == 0):
            # (the l1 oracle answers a zero direction with the centre, named by sign 0)
            ctx.fail("%s: %s is not a vertex" % (what(), k))
        tot += w
        if k in verts:
            comb += w * verts[k]
    if abs(tot - 1) > TOL:
        ctx.fail("%s: weights sum to %.15g: %s" % (what(), tot, dict(active)))
    if np.abs(comb - x).max() > TOL * (1 + np.abs(x).max()):
        ctx.fail("%s: active set %s combines to %s, not to the iterate %s" % (what(), dict(active), show(comb), show(x)))


def gradients(n, big):
    if n == 2:
        g = [(1, 0), (-1, 0.5), (0.5, -1), (-1, -1)]
        if big:
            g += [(0, 1), (2, 2)]
    elif n == 3:
        g = [(1, 0, -0.5), (-1, 0.5, 0), (0, -1, 1)]
        if big:
            g += [(1, 1, 1)]
    elif n == 4:
        g = [(1, 0, 0, -0.5), (-1, 0.5, 0, 1), (0, 1, 1, 0)]
    else:
        g = [(1, 0, 0, -0.5, 1, 0), (-1, 0.5, 0, 1, 0, 0)]
    return [np.array(v, dtype=float) for v in g]


STEPS = ["sublinear", "half", "max", "third", "DR0.1", "DR2", "bt", "bt1"]


def cases(tier, seed):
    th = tier == "thorough"
    for name, r, n in (("l1", 1.0, 2), ("l1", 2.5, 3), ("simplex", 1.0, 2), ("simplex", 3.0, 3),
                       ("l1pair", 1.0, 2), ("l1pair", 0.7, 3), ("spair", 1.0, 3), ("spair", 2.0, 2),
                       ("trace", 1.5, 4), ("trace", 1.0, 6)):
        _, _, verts = make_set(name, r, n)
        ns = len(starts_of(name, verts, r, n))
        for s in STEPS:
            if s[:2] != "bt":
                for i in range(ns):
                    if n == 3 and not th and i >= 3:
                        continue
                    for g0 in range(len(gradients(n, th))):
                        yield ["seq", name, r, n, s, i, g0]
        if name not in ("trace",):
            for i in range(ns if th else min(ns, 3)):
                for q in range(3):
                    for s in ("bt", "bt1"):
                        yield ["dev", name, r, n, s, i, q]
        else:
            yield ["dev", name, r, n, "bt", 0, 0]
    for n in (2, 3):
        for w in (0.25, 0.5):
            yield ["overlong", n, w]


def run_fw(ctx, name, r, n, start, step, oracle, iters, label, max_fail_ok):
    """one execution; oracle(x) -> (f, grad)"""
    lmo, t, verts = make_set(name, r, n)
    pw = name.endswith("pair")
    x0, rep = start
    watch = Watch(ctx, lmo, t, verts, pw, lambda: "%s r=%g n=%d x0=%s step=%s, answers %s" % (name, r, n, show(x0), step, label()))
    kw = {}
    if step == "half":
        st = lambda d: min(0.5, watch.last[3])
    elif step == "third":
        st = lambda d: 1 / 3 * watch.last[3]
    elif step == "max":
        st = lambda d: watch.last[3]
    elif step.startswith("DR"):
        st = "DR"
        kw["lipschitz"] = float(step[2:])
    elif step == "sublinear":
        st = "sublinear"
    else:
        st = "backtracking"
        if step == "bt1":
            kw["lipschitz"] = 1.0
    seen = []

    def cb(d):
        watch.judge(d["x"], None, "in the callback") if not pw else None
        seen.append(1)

    keep = x0.copy()
    try:
        res = cp.minimize_frank_wolfe(oracle, x0, watch, x0_rep=rep, variant="pairwise" if pw else "vanilla",
                                      step=st, max_iter=iters, tol=0, callback=cb, **kw)
    except ValueError as e:
        # a step longer than the weight must be rejected
        if max_fail_ok and pw:
            ctx.count("rejected")
            ctx.trace()
            return None
        raise
    ctx.require(np.array_equal(keep, x0), lambda: "%s: x0 modified" % watch.what())
    watch.judge(res.x, res.get("active_set"), "in the result")
    ctx.trace()
    return res


def run(case, ctx):
    th = ctx.thorough
    if case[0] == "seq":
        _, name, r, n, step, i, g0 = case
        G = gradients(n, th)
        _, _, verts = make_set(name, r, n)
        start = starts_of(name, verts, r, n)[i]
        K = {2: 4, 3: 3, 4: 3, 6: 3}[n] + (1 if th else 0) + (1 if th and n == 2 else 0)
        for seq in itertools.product(range(len(G)), repeat=K - 1):
            seq = (g0,) + seq
            k = [0]

            def fun(x):
                g = G[seq[min(k[0], K - 1)]]
                k[0] += 1
                return 0.0, g.copy()

            run_fw(ctx, name, r, n, start, step, fun, K, lambda: str(seq), step == "sublinear")
    elif case[0] == "dev":
        _, name, r, n, step, i, q = case
        _, _, verts = make_set(name, r, n)
        start = starts_of(name, verts, r, n)[i]
        Q = [np.eye(n), np.diag([4.0] + [0.25] * (n - 1)), np.ones((n, n)) * 0.5 + np.eye(n)][q]
        c = np.array([0.4, -0.3, 0.2, 0.1, 0.3, -0.2][:n]) * r
        iters = 4 if th else 3
        horizon = 14 if th else 10
        kw = {}
        for ch in explore(max_dev=3 if (th and n == 2) else 2):
            k = [0]
            mode = [0]

            def fun(x):
                f = float(x @ Q @ x / 2 - c @ x)
                g = Q @ x - c
                if k[0] < horizon:
                    k[0] += 1
                    a = ch.choose(8)
                    if a == 1:
                        f += 5.0
                    elif a == 2:
                        f -= 5.0
                    elif a == 3:
                        g = -g
                    elif a == 4:
                        g = g[::-1].copy()
                    elif a == 5:
                        f = np.inf
                    elif a == 6:
                        f = np.nan
                    elif a == 7:
                        mode[0] = 1
                if mode[0]:
                    f += 0.5 * k[0]
                    k[0] += 1
                return f, g

            run_fw(ctx, name, r, n, start, "bt1" if step == "bt1" else "bt", fun, iters,
                   lambda: str(ch.choices), False)
    else:
        # a callable step longer than the away vertex's weight is rejected, at any iteration
        _, n, w = case
        G = gradients(n, th)
        for name in ("l1pair", "spair"):
            _, _, verts = make_set(name, 1.0, n)
            for start in starts_of(name, verts, 1.0, n):
                for seq in itertools.product(range(len(G)), repeat=3):
                    for bad in range(3):
                        for over in (1.25, 1 + 1e-4, 1 + 1e-6):
                            overlong(ctx, name, n, start, seq, G, bad, w, over)


def overlong(ctx, name, n, start, seq, G, bad, w, over):
    lmo, t, verts = make_set(name, 1.0, n)
    watch = Watch(ctx, lmo, t, verts, True, lambda: "%s x0=%s gradients %s, step of %r times the weight at iteration %d" % (name, show(start[0]), seq, over, bad))
    k = [0]
    it = [0]
    asked = []

    def fun(x):
        g = G[seq[min(k[0], 2)]]
        k[0] += 1
        return 0.0, g.copy()

    def step(d):
        mx = watch.last[3]
        s = mx * w
        if it[0] == bad and watch.last[1] != watch.last[2]:
            s = mx * over
            asked.append(1)
        it[0] += 1
        return s

    try:
        cp.minimize_frank_wolfe(fun, start[0], watch, x0_rep=start[1], variant="pairwise", step=step, max_iter=3, tol=0)
    except ValueError:
        if not asked:
            raise
    else:
        ctx.require(not asked, lambda: "%s: not rejected" % watch.what())
    ctx.trace()
