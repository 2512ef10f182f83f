"""C24: line searches against adversarial objectives."""
import warnings
import numpy as np
from mc.core import import_copt, explore, show, Budget

cp = import_copt()
PROPERTY = "C24"
LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking of the real solvers: the objective is an adversary whose answer at every newly evaluated point is chosen by the explorer from a "
             "menu of values and gradients; all histories with a bounded number of deviations from a smooth default are enumerated, every oracle and proximal call is monitored")
BOUNDS = {"quick": "28 solver configurations x 2 default objectives, at most 2 deviations among the first 8 (5 for the second objective) evaluated points, 15 answers per point (5 of them lasting), 5 iterations; one deviation at any of the first 48 points, 3 objectives, 30 iterations",
          "thorough": "at most 2 deviations among the first 20 points, 12 iterations; 3 deviations among the first 7"}
ASSUMPTIONS = ["the adversary answers the same at the same point", "NaN only as a value, never inside a gradient",
               "the step length is read from the argument of the proximal operator, for Frank-Wolfe from the move"]

Q = np.array([[5.0, 1.0], [1.0, 1.5]])
C = np.array([1.0, -2.2])


def bowl(x):
    return float(x @ Q @ x / 2 - C @ x), Q @ x - C


def wavy(x):
    w = np.array([3.0, 1.3])
    return float(np.sum(np.cos(w * x + 0.5)) + 0.05 * x @ x), -w * np.sin(w * x + 0.5) + 0.1 * x


R = np.array([[40.0, 12.0], [12.0, 4.0]])  # a long valley: no run ends early


def valley(x):
    return float(x @ R @ x / 2 - C @ x), R @ x - C


BASES = {"bowl": bowl, "wavy": wavy, "valley": valley}

# answers at a new point: (value, gradient, lasting)
MENU = [
    ("default", lambda f, g, k: (f, g)),
    ("value +1000", lambda f, g, k: (f + 1e3, g)),
    ("value -1000", lambda f, g, k: (f - 1e3, g)),
    ("value +0.02", lambda f, g, k: (f + 0.02, g)),
    ("value +0.4", lambda f, g, k: (f + 0.4, g)),
    ("value -0.05", lambda f, g, k: (f - 0.05, g)),
    ("value inf", lambda f, g, k: (np.inf, g)),
    ("value nan", lambda f, g, k: (np.nan, g)),
    ("gradient negated", lambda f, g, k: (f, -g)),
    ("gradient zero", lambda f, g, k: (f, 0 * g)),
    ("gradient huge", lambda f, g, k: (f, 1e5 * g)),
    ("wall", lambda f, g, k: (f + 10.0 * k, g)),
    ("slope", lambda f, g, k: (f - 10.0 * k, g)),
    ("nan from here", lambda f, g, k: (np.nan, g)),
    ("turned from here", lambda f, g, k: (f + 10.0 * k, np.array([g[1], -g[0]]))),
    ("constant from here", lambda f, g, k: (1.0, np.array([0.3, -0.4]))),
]
LASTING = range(11, 16)


class Adversary:
    def __init__(self, ctx, ch, base, horizon, budget):
        self.ctx, self.ch, self.base, self.horizon, self.budget = ctx, ch, base, horizon, budget
        self.memo, self.evals, self.lasting, self.since = {}, 0, None, 0
        self.story = []

    def at(self, x):
        """the answer at x, if it has been evaluated"""
        return self.memo.get((np.asarray(x, dtype=float) + 0.0).tobytes())

    def near(self, x):
        hit = self.at(x)
        if hit is not None:
            return hit
        for k, v in self.memo.items():
            if np.allclose(np.frombuffer(k), x, rtol=1e-13, atol=1e-15):
                return v
        return None

    def __call__(self, x):
        x = np.array(x, dtype=float)
        self.evals += 1
        if self.evals > self.budget:
            raise Budget("%d objective evaluations" % self.evals)
        key = (x + 0.0).tobytes()
        if key not in self.memo:
            f, g = self.base(x)
            c = self.ch.choose(len(MENU)) if len(self.memo) < self.horizon else 0
            if c:
                self.story.append("%s at %s" % (MENU[c][0], show(x)))
                if c in LASTING:
                    self.lasting, self.since = c, 0
            if c and c not in LASTING:
                f, g = MENU[c][1](f, g, 1)
            elif self.lasting:
                self.since += 1
                f, g = MENU[self.lasting][1](f, g, self.since)
            self.memo[key] = (f, np.array(g, dtype=float))
            self.ctx.step()
        f, g = self.memo[key]
        return f, g.copy()


# ------------------------------------------------------------ configurations
TOL = 1e-9
FW_SLACK = 1.3e-7  # Frank-Wolfe's line search allows for the rounding of single precision


class FW:
    def __init__(self, pair=False, lip=None, dom="l1"):
        self.pair, self.lip, self.dom = pair, lip, dom
        self.per_iter = 112

    def run(self, ctx, adv, lim, warned, what):
        if self.dom == "l1":
            con, x0, rep = cp.constraint.L1Ball(1.0), np.array([1.0, 0.0]), (1.0, 0)
        else:
            con, x0, rep = cp.constraint.SimplexConstraint(1.0), np.array([1.0, 0.0]), 0
        lmo = con.lmo_pairwise if self.pair else con.lmo
        log = []

        def oracle(u, x, a):
            x = np.array(x)
            mine = adv.near(x)
            if mine is None:
                ctx.fail("%s: the oracle is asked at %s, where the objective was never evaluated" % (what(), show(x)))
            if not np.array_equal(u, -mine[1]):
                ctx.fail("%s: the oracle is called with %s at %s, the gradient there is %s" % (what(), show(u), show(x), show(mine[1])))
            out = lmo(u, x, a)
            if log:
                self.judge(ctx, adv, log[-1], x, warned, what)
            log.append((x, np.array(out[0]), len(warned), adv.evals))
            self.bounded(ctx, log, what)
            return out
        k = {} if self.lip is None else {"lipschitz": self.lip}
        res = cp.minimize_frank_wolfe(adv, x0, oracle, x0_rep=rep, variant="pairwise" if self.pair else "vanilla", step="backtracking", max_iter=lim, tol=1e-9, **k)
        if log and res.nit == lim or (log and not np.array_equal(log[-1][0], res.x)):
            self.judge(ctx, adv, log[-1], np.array(res.x), warned, what)
        ctx.require(len(log) <= lim, lambda: "%s: %d oracle calls for %d iterations" % (what(), len(log), lim))
        return res, [l[0] for l in log]

    def bounded(self, ctx, log, what):
        if len(log) > 1 and log[-1][3] - log[-2][3] > self.per_iter:
            ctx.fail("%s: %d evaluations in one iteration" % (what(), log[-1][3] - log[-2][3]))

    def judge(self, ctx, adv, entry, x1, warned, what):
        x, d, w, _ = entry
        move = x1 - x
        if not np.any(d) or len(warned) > w:
            return
        gamma = float(move @ d / (d @ d))
        f0, g0 = adv.near(x)
        hit = adv.near(x1)
        if hit is None:
            ctx.fail("%s: moved from %s to %s, where the objective was never evaluated" % (what(), show(x), show(x1)))
        cert = -float(g0 @ d)
        bound = f0 - 0.5 * gamma * cert
        if not hit[0] <= bound + FW_SLACK + TOL * (1 + abs(f0) + abs(gamma * cert)):
            ctx.fail("%s: accepted the step %g from %s without sufficient decrease: value %r, needed %r" % (what(), gamma, show(x), hit[0], bound))
        ctx.count("accepted")


class PG:
    def __init__(self, acc=False, prox=None, mib=4, factor=0.6):
        self.acc, self.prox, self.mib, self.factor = acc, prox, mib, factor
        self.per_iter = 3 * mib + 8

    def run(self, ctx, adv, lim, warned, what):
        op = {None: lambda v, s: v.copy(), "l1": cp.penalty.L1Norm(0.1).prox, "box": cp.constraint.LinfBall(0.7).prox}[self.prox]
        calls, marks = [], []

        def p(v, s):
            v = np.array(v)
            out = np.array(op(v, s))
            calls.append((v, float(s), out.copy()))
            return out

        def cb(d):
            marks.append((np.array(d["x"]), len(calls), len(warned), adv.evals))
            if len(marks) > 1 and marks[-1][3] - marks[-2][3] > self.per_iter:
                ctx.fail("%s: %d evaluations in one iteration" % (what(), marks[-1][3] - marks[-2][3]))
        res = cp.minimize_proximal_gradient(adv, np.array([1.5, -1.0]), prox=p, accelerated=self.acc, max_iter=lim, tol=1e-9,
                                            callback=cb, max_iter_backtracking=self.mib, backtracking_factor=self.factor)
        marks.append((np.array(res.x), len(calls), len([w for w in warned if "tolerance" not in w]), adv.evals))
        ctx.require(len(marks) <= lim + 2, lambda: "%s: %d iterations instead of %d" % (what(), len(marks) - 1, lim))
        for a, b in zip(marks, marks[1:]):
            self.judge(ctx, adv, a, b, calls[a[1]:b[1]], what)
        return res, [m[0] for m in marks]

    def judge(self, ctx, adv, a, b, calls, what):
        x0, x1 = a[0], b[0]
        if not calls:
            return
        if np.abs(x0).max() > 1e12 or np.abs(x1).max() > 1e12:
            return
        tries = [c for c in calls if np.array_equal(c[2], x1)]
        if not tries:
            ctx.fail("%s: iterate %s is none of the points the proximal operator returned in this iteration" % (what(), show(x1)))
        ok = False
        why = None
        for v, s, out in tries:
            bases = self.bases(adv, x0, v, s)
            if not bases:
                why = "its step from %s does not use the gradient of the current point" % show(v)
            elif b[2] > a[2]:
                ok = True  # warned: only the gradient used is judged
            for base in bases:
                f0, g0 = adv.near(base)
                hit = adv.near(out)
                if hit is None:
                    why = "the objective was never evaluated there"
                    continue
                d = out - base
                bound = f0 + float(g0 @ d) + float(d @ d) / (2 * s)
                if hit[0] <= bound + TOL * (1 + abs(f0) + abs(g0 @ d) + d @ d / s):
                    ok = True
                else:
                    why = why or "value %r, needed %r (step %g)" % (hit[0], bound, s)
        if not ok:
            ctx.fail("%s: accepted the step from %s to %s: %s" % (what(), show(x0), show(x1), why))
        ctx.count("accepted")

    def bases(self, adv, x0, v, s):
        """the points from which v may be a gradient step of length s"""
        if not self.acc:
            g = adv.near(x0)
            if g is None:
                return []
            return [x0] if np.allclose(v, x0 - s * g[1], rtol=1e-11, atol=1e-12 * (1 + s * np.abs(g[1]).max())) else []
        out = []
        for k in adv.memo:
            p = np.frombuffer(k)
            g = adv.memo[k][1]
            if np.allclose(v, p - s * g, rtol=1e-11, atol=1e-12 * (1 + s * np.abs(g).max())):
                out.append(p)
        return out


class Three:
    def __init__(self, p1=None, p2=None, mib=4, factor=0.7, h=None, start=2.0):
        self.p1, self.p2, self.mib, self.factor, self.h, self.start = p1, p2, mib, factor, h, start
        self.per_iter = 2 * mib + 8

    def run(self, ctx, adv, lim, warned, what):
        ops = {None: lambda v, s: v.copy(), "l1": cp.penalty.L1Norm(0.1).prox, "box": cp.constraint.LinfBall(0.7).prox}
        one, two = [], []

        def f(x, return_gradient=True):
            v, g = adv(x)
            return (v, g) if return_gradient else v

        def p1(v, s, *a):
            out = np.array(ops[self.p1](np.array(v), s))
            one.append((np.array(v), float(s), out.copy()))
            return out

        def p2(v, s, *a):
            out = np.array(ops[self.p2](np.array(v), s))
            two.append((out.copy(), len(one), len(warned), adv.evals))
            if len(two) > 1 and two[-1][3] - two[-2][3] > self.per_iter:
                ctx.fail("%s: %d evaluations in one iteration" % (what(), two[-1][3] - two[-2][3]))
            return out
        res = cp.minimize_three_split(f, np.array([1.5, -1.0]), p1, p2, max_iter=lim, tol=1e-9, step_size=self.start, h_Lipschitz=self.h,
                                      max_iter_backtracking=self.mib, backtracking_factor=self.factor)
        ctx.require(len(two) <= lim + 1, lambda: "%s: %d iterations instead of %d" % (what(), len(two) - 1, lim))
        u = np.zeros(2)
        for k, (a, b) in enumerate(zip(two, two[1:])):
            z, z1 = a[0], b[0]
            # the call of prox_1 the move was built on: the last one before prox_2
            v, s, x = one[b[1] - 1]
            mine = adv.near(z)
            if mine is None:
                ctx.fail("%s: no evaluation at %s" % (what(), show(z)))
            big = max(np.abs(z).max(), np.abs(x).max(), s * np.abs(u).max(), s * np.abs(mine[1]).max())
            if not big < 1e9:
                break
            if not np.allclose(v, z - s * (u + mine[1]), rtol=1e-9, atol=1e-9 * (1 + big)):
                ctx.fail("%s: iteration %d uses the point %s instead of %s for its first proximal operator (step %g)" % (
                    what(), k, show(v), show(z - s * (u + mine[1])), s))
            d = x - z
            if b[2] == a[2] and np.linalg.norm(d) > 2e-7:
                hit = adv.near(x)
                if hit is None:
                    ctx.fail("%s: step accepted without an evaluation at %s" % (what(), show(x)))
                bound = mine[0] + float(mine[1] @ d) + float(d @ d) / (2 * s)
                if not hit[0] <= bound + TOL * (1 + abs(mine[0]) + abs(mine[1] @ d) + d @ d / s):
                    ctx.fail("%s: iteration %d accepts step %g to %s: value %r, needed %r" % (what(), k, s, show(x), hit[0], bound))
                ctx.count("accepted")
            u = u + (x - z1) / s
        return res, [t[0] for t in two]


class PD:
    def __init__(self, p1=None, p2=None, L=None, mib=6, ratio=None):
        self.p1, self.p2, self.L, self.mib, self.ratio = p1, p2, L, mib, ratio
        self.per_iter = mib + 3

    def run(self, ctx, adv, lim, warned, what):
        ops = {None: lambda v, s: v.copy(), "l1": cp.penalty.L1Norm(0.1).prox, "box": cp.constraint.LinfBall(0.7).prox}
        L = np.eye(2) if self.L is None else np.array(self.L, dtype=float)
        one, marks = [], []

        def f(x, return_gradient=True):
            v, g = adv(x)
            return (v, g) if return_gradient else v

        def p1(v, s):
            out = np.array(ops[self.p1](np.array(v), s))
            one.append((np.array(v), float(s), out.copy(), len(marks)))
            return out

        def p2(v, s):
            return ops[self.p2](np.array(v), s)

        def cb(d):
            marks.append((np.array(d["x"]), len(one), len(warned), adv.evals))
            if len(marks) > 1 and marks[-1][3] - marks[-2][3] > self.per_iter:
                ctx.fail("%s: %d evaluations in one iteration" % (what(), marks[-1][3] - marks[-2][3]))
        x0 = np.array([1.5, -1.0])
        k = {} if self.ratio is None else dict(step_size=1.0, step_size2=self.ratio)
        ratio = 0.5 if self.ratio is None else self.ratio
        res = cp.minimize_primal_dual(f, x0, p1, p2, L, max_iter=lim, tol=1e-9, callback=cb, max_iter_ls=self.mib, **k)
        ctx.require(len(marks) <= lim, lambda: "%s: %d iterations instead of %d" % (what(), len(marks), lim))
        prev = (x0, 0, 0, 0)
        for m in marks:
            x, x1 = prev[0], m[0]
            if not max(np.abs(x).max(), np.abs(x1).max()) < 1e9:
                break
            tries = [c for c in one[prev[1]:m[1]] if np.array_equal(c[2], x1)]
            if not tries:
                ctx.fail("%s: iterate %s is none of the points the proximal operator returned" % (what(), show(x1)))
            if m[2] == prev[2]:
                f0, f1 = adv.near(x), adv.near(x1)
                if f0 is None or f1 is None:
                    ctx.fail("%s: step from %s to %s without evaluating both" % (what(), show(x), show(x1)))
                d = x1 - x
                ok = np.linalg.norm(d) <= 1e-9
                why = None
                for v, s, out, _ in tries:
                    tau = s / ratio if self.ratio is None else s * self.ratio
                    # step_size2 / step_size is kept: tau is the dual step; either reading of the ratio is tried
                    for t in {s * ratio, s / ratio}:
                        lhs = s * t * float(np.sum((L @ d) ** 2)) + 2 * s * (f1[0] - f0[0] - float(f0[1] @ d))
                        if lhs <= 0.5 * float(d @ d) + TOL * (1 + s * abs(f0[0]) + s * abs(f1[0]) + s * abs(f0[1] @ d) + d @ d):
                            ok = True
                        else:
                            why = "%r > %r" % (lhs, 0.5 * float(d @ d))
                if not ok:
                    ctx.fail("%s: step %g from %s to %s accepted against the line search's condition: %s" % (what(), tries[-1][1], show(x), show(x1), why))
                ctx.count("accepted")
            prev = m
        # every trial of an iteration is a step along the current gradient plus one vector of the range of the adjoint
        if self.L is not None and L.shape[0] < 2:
            null = np.array([L[0, 1], -L[0, 0]]) / np.linalg.norm(L)
            for v, s, out, k in one:
                x = x0 if k == 0 else marks[k - 1][0]
                g = adv.near(x)
                if g is None or not np.abs(x).max() < 1e9:
                    break
                err = float(null @ (v - (x - s * g[1])))
                if not abs(err) <= 1e-9 * (1 + np.abs(x).max() + s * np.abs(g[1]).max() + np.abs(v).max()):
                    ctx.fail("%s: iteration %d does not use the gradient of its point %s (off by %g)" % (what(), k, show(x), err))
        return res, [m[0] for m in marks]


CONFIGS = {}
for _pair in (False, True):
    for _lip in (None, 0.05, 50.0):
        CONFIGS["fw%s-%s" % ("-pair" if _pair else "", _lip)] = FW(_pair, _lip)
CONFIGS["fw-simplex"] = FW(False, 0.3, "simplex")
for _acc in (False, True):
    for _p in (None, "l1", "box"):
        CONFIGS["pg%s-%s" % ("-acc" if _acc else "", _p)] = PG(_acc, _p)
    CONFIGS["pg%s-1" % ("-acc" if _acc else "")] = PG(_acc, "l1", 1, 0.5)
    CONFIGS["pg%s-30" % ("-acc" if _acc else "")] = PG(_acc, None, 30, 0.3)
CONFIGS["three"] = Three("l1", "box")
CONFIGS["three-none"] = Three()
CONFIGS["three-h"] = Three("box", "l1", h=0.1)
CONFIGS["three-h0"] = Three("box", None, h=0)
CONFIGS["three-1"] = Three("l1", None, mib=1, factor=0.3)
CONFIGS["three-30"] = Three(None, "l1", mib=30)
CONFIGS["pd"] = PD("l1", "box")
CONFIGS["pd-none"] = PD()
CONFIGS["pd-row"] = PD("box", "l1", [[1.0, -2.0]])
CONFIGS["pd-row-none"] = PD(None, "box", [[3.0, 1.0]], mib=30)
CONFIGS["pd-row-1"] = PD(None, "l1", [[0.0, 1.0]], mib=1)


def cases(tier, seed):
    for b in BASES:
        # long runs: the same answers, at any point of the history
        for c in CONFIGS:
            for lo in range(0, 48, 8):
                yield [c, b, [lo, lo + 8], 1, 48, 60 if tier == "thorough" else 30]
    for b in ("bowl", "wavy"):
        horizon = 20 if tier == "thorough" else {"bowl": 8, "wavy": 5}[b]
        for c in CONFIGS:
            yield [c, b, -1, 2, horizon]
            for i in range(horizon):
                yield [c, b, i, 2, horizon]
            if tier == "thorough":
                for i in range(7):
                    yield [c, b, i, 3, 7]


def run(case, ctx):
    name, bname, i, devs, horizon = case[:5]
    conf = CONFIGS[name]
    lim = case[5] if len(case) > 5 else 12 if ctx.thorough else 5

    def once(ch):
        warned = []
        adv = Adversary(ctx, ch, BASES[bname], horizon, (conf.per_iter + 2) * lim + 20)
        what = lambda: "%s on %s with %s" % (name, bname, adv.story)
        with warnings.catch_warnings():
            warnings.simplefilter("always")
            warnings.showwarning = lambda m, *a, **k: warned.append(str(m))
            try:
                res, seen = conf.run(ctx, adv, lim, warned, what)
            except Budget as e:
                ctx.fail("%s: %s for %d iterations" % (what(), e, lim))
        for x in seen:
            ctx.state(name, bname, x)
        ctx.trace()
        return adv

    if i == -1:
        for ch in explore(0):
            once(ch)
        return
    for ch in explore(0):
        n = len(once(ch).memo)
    if len(case) > 5:
        for k in range(i[0], min(i[1], n)):
            for alt in range(1, len(MENU)):
                for ch in explore(1, prefix=[0] * k + [alt]):
                    once(ch)
        return
    if i >= min(n, horizon):
        return
    for alt in range(1, len(MENU)):
        for ch in explore(devs, prefix=[0] * i + [alt]):
            once(ch)
