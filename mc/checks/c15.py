"""C15: the callback protocol, for every configuration and every stop position."""
import numpy as np
from mc.core import import_copt, show
from mc.catalog import ALL as CONFIGS, same

cp = import_copt()
PROPERTY = "C15"
LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking: for every solver configuration of a catalogue the callback's answers are enumerated (every "
             "position at which it may stop, every kind of non-stopping answer), each run compared byte for byte with the run without callback")
BOUNDS = {"quick": "75 configurations (13 of them with dozens of variables), limits 1..8, 25 and 80, every stop position, 6 kinds of non-stopping answers, tolerances 0 and 1e-3",
          "thorough": "limits 1..20 and 60"}
ASSUMPTIONS = ["stopping is judged for the solvers that document it (Frank-Wolfe, proximal gradient, both splitting methods)",
               "VRTOS shows no iterate under the name x; for it only the absence of influence is judged"]


def cases(tier, seed):
    for name in CONFIGS:
        yield [name]


ANSWERS = [None, True, 0, 1, "", []]


def run(case, ctx):
    c = CONFIGS[case[0]]
    th = ctx.thorough
    limits = list(range(1, 21 if th else 9)) + ([60] if th else [25, 80])
    for tol in (0.0, 1e-3):
        for lim in limits:
            base = c.run(max_iter=lim, tol=tol)
            ctx.trace()
            shown = []

            def rec(ans):
                def cb(d):
                    shown.append(np.array(d["x"], dtype=float) if c.exposes else 0)
                    ctx.step()
                    return ans(len(shown)) if callable(ans) else ans
                return cb

            seqs = None
            for ans in ANSWERS + [lambda k: (None, True, 0)[k % 3]]:
                shown.clear()
                res = c.run(callback=rec(ans), max_iter=lim, tol=tol)
                ctx.trace()
                diff = same(res, base)
                if diff:
                    ctx.fail("%s, limit %d, tol %g: callback answering %r changes the result: %s" % (c.name, lim, tol, ans, diff))
                if seqs is None:
                    seqs = list(shown)
                elif not (len(seqs) == len(shown) and all(np.array_equal(a, b) for a, b in zip(seqs, shown))):
                    ctx.fail("%s, limit %d, tol %g: callback answering %r changes what it is shown" % (c.name, lim, tol, ans))
            if c.exposes:
                judge_sequence(ctx, c, lim, tol, seqs, base)
            for x in seqs:
                ctx.state(c.name, x)
            if not c.stops:
                continue
            for j in range(len(seqs)):
                shown.clear()
                res = c.run(callback=rec(lambda k: False if k == j + 1 else None), max_iter=lim, tol=tol)
                ctx.trace()
                if len(shown) != j + 1:
                    ctx.fail("%s, limit %d, tol %g: stopped at call %d but called %d times" % (c.name, lim, tol, j, len(shown)))
                if not all(np.array_equal(a, b) for a, b in zip(shown, seqs)):
                    ctx.fail("%s, limit %d: iterates before the stop at call %d differ" % (c.name, lim, j))
                if not np.array_equal(res.x, shown[-1]):
                    ctx.fail("%s, limit %d, tol %g: stopped at call %d, which was shown %s, but %s is returned" % (c.name, lim, tol, j, show(shown[-1]), show(res.x)))
                ctx.count("stops")


_iter = {}


def iterates(c, upto, tol):
    """x_1, x_2, .. as the results of runs limited to 1, 2, .. iterations"""
    key = (c.name, tol)
    have = _iter.setdefault(key, [])
    while len(have) < upto:
        have.append(np.array(c.run(max_iter=len(have) + 1, tol=tol).x, dtype=float))
    return have


def judge_sequence(ctx, c, lim, tol, seqs, base):
    """the iterates shown are x0, x1, .. or x1, x2, .. in order; consecutive, without repetition"""
    if c.name.startswith("sfw"):
        # one call per sample batch: consecutive iterates inside an epoch are not results of any run, but the first is
        # the start and the last is the result
        per = (len(seqs) - 1) / lim
        ctx.require(np.array_equal(seqs[0], c.x0), lambda: "%s: first iterate shown is %s" % (c.name, show(seqs[0])))
        ctx.require(np.array_equal(seqs[-1], base.x), lambda: "%s: last iterate shown is not the result" % c.name)
        if tol == 0:
            ctx.require(per == int(per), lambda: "%s: %d calls for %d epochs" % (c.name, len(seqs), lim))
            for e in range(lim):
                want = iterates(c, e + 1, tol)[e]
                got = seqs[int(per) * (e + 1)]
                ctx.require(np.array_equal(got, want), lambda: "%s: iterate shown after epoch %d is not the epoch's" % (c.name, e + 1))
        return
    its = iterates(c, lim, tol)
    # three-operator and primal-dual splitting show x_1, x_2, ..; the others start with x0
    full = [c.x0] + its
    first = 1 if c.name[:5] == "three" or c.name[:2] == "pd" else 0
    for k, x in enumerate(seqs):
        i = k + first
        if i >= len(full) or not np.array_equal(x, full[i]):
            ctx.fail("%s, limit %d, tol %g: call %d shows %s instead of iterate %d, %s" % (
                c.name, lim, tol, k, show(x), i, show(full[i]) if i < len(full) else "(none)"))
    # every iterate up to the result is shown, except that a method may return its last iterate unseen
    done = [i for i, x in enumerate(full) if np.array_equal(x, base.x)]
    last = len(seqs) - 1 + first
    ctx.require(done and last >= done[0] - 1, lambda: "%s, limit %d, tol %g: only %d of the iterates before the result %s were shown" % (
        c.name, lim, tol, len(seqs), show(base.x)))
    if not (c.name[:2] in ("pg", "pd")):
        # proximal gradient calls at the start of an iteration and primal-dual splitting not after its last; all others show the result
        ctx.require(len(seqs) and np.array_equal(seqs[-1], base.x), lambda: "%s, limit %d, tol %g: the iterate returned, %s, was never shown" % (
            c.name, lim, tol, show(base.x)))
