"""C16: iteration limits only truncate; success is never claimed early."""
import numpy as np
from mc.core import import_copt, show
from mc.catalog import ALL as CONFIGS, same

cp = import_copt()
PROPERTY = "C16"
LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking: every configuration of a catalogue is run with every iteration limit within the bound and "
             "several tolerances; the histories must be prefixes of one another and claimed success must survive a larger limit")
BOUNDS = {"quick": "75 configurations (13 of them with dozens of variables) x limits 1..12 and 150 x 4 tolerances; 20 tolerances down to 1e-10 x 7 limits around the iteration at which each is met",
          "thorough": "limits 1..40 and 600 x 8 tolerances"}
ASSUMPTIONS = ["the same random draws are made in every run", "stochastic Frank-Wolfe: see the known finding"]


def cases(tier, seed):
    for name in CONFIGS:
        yield [name]


def history(c, lim, tol):
    xs = []
    counts = {}

    def wrap(name, fn):
        if name == "lmo":
            return wrap_lmo(fn)

        def g(*a, **k):
            counts[name] = counts.get(name, 0) + 1
            return fn(*a, **k)
        return g

    certs = []

    def wrap_lmo(fn):
        def g(u, x, a):
            counts["lmo"] = counts.get("lmo", 0) + 1
            out = fn(u, x, a)
            certs.append(float(np.dot(u, out[0])))
            return out
        return g

    def cb(d):
        if c.exposes:
            xs.append(np.array(d["x"], dtype=float))
        else:
            xs.append(None)

    res = c.run(callback=cb, max_iter=lim, tol=tol, wrap=wrap)
    counts["certs"] = certs
    return res, xs, counts


def run(case, ctx):
    c = CONFIGS[case[0]]
    th = ctx.thorough
    big = 600 if th else 150
    limits = list(range(1, 41 if th else 13))
    # tolerances met after some iterations: small multiples of what the run sees
    tols = [0.0, 1e3, 1e-1, 1e-2, 1e-4] + ([1e-6, 1e-8, 0.5, 3e-3] if th else [])
    for tol in tols + [10.0 ** (-k / 2) for k in range(1, 21)]:
        long, lx, lcount = history(c, big, tol)
        if tol not in tols:
            # limits around the iteration at which the tolerance is met
            n = int(long.nit)
            if n > big - 5:
                continue
            limits = [k for k in range(n - 3, n + 4) if k > 0]
        for lim in limits:
            res, xs, counts = history(c, lim, tol)
            ctx.trace()
            ctx.step(len(xs))
            what = "%s, limit %d, tol %g" % (c.name, lim, tol)
            for x in xs:
                if x is not None:
                    ctx.state(c.name, tol, x)
            nit = int(res.nit)
            ctx.require(0 <= nit <= lim, lambda: "%s: nit = %d" % (what, nit))
            steps = len(xs)
            per = {"sfw": 4}.get(c.name[:3], 1)
            if c.name[:3] == "sfw" and "batch" in c.name:
                per = c.per or 2
            ctx.require(steps <= lim * per + 1, lambda: "%s: %d iterations" % (what, steps))
            # evaluations used by the first lim iterations of the long run
            certs = counts.pop("certs")
            for name in counts:
                if name in ("lmo",) and c.name[:2] == "fw":
                    ctx.require(counts[name] <= lim, lambda: "%s: %d oracle calls" % (what, counts[name]))
                ctx.require(counts[name] <= lcount.get(name, 0), lambda: "%s: more calls of %s than with a larger limit" % (what, name))
            # prefix
            final_seen = c.name[:2] == "fw"
            body = xs[:-1] if final_seen else xs
            ok = len(body) <= len(lx) and all((a is None) or np.array_equal(a, b) for a, b in zip(body, lx))
            if not ok:
                ctx.fail("%s: iterates are not the first ones of the run with limit %d" % (what, big))
            if c.exposes and steps and len(xs) < len(lx) and final_seen and not np.array_equal(xs[-1], lx[len(xs) - 1]):
                ctx.fail("%s: final iterate is not the long run's" % what)
            if c.exposes and c.name[:2] in ("sa", "sv", "th", "pd", "sf", "fw") and not (c.name[:2] == "pd" and res.success) and not np.array_equal(res.x, xs[-1]):
                ctx.fail("%s: result %s is not the last iterate %s" % (what, show(res.x), show(xs[-1])))
            if c.name[:2] == "pg":
                # the result is the next iterate of the long run, if it got that far
                nxt = lx[len(xs)] if len(lx) > len(xs) else long.x
                if not np.array_equal(res.x, nxt):
                    ctx.fail("%s: result %s is not iterate %d of the long run, %s" % (what, show(res.x), len(xs), show(nxt)))
            # success
            if c.name[:2] == "fw":
                # it stops at the first iterate whose gap is within the tolerance, and nowhere else
                ctx.require(all(q > tol for q in certs[:-1]), lambda: "%s: goes on after a gap of %g" % (what, min(certs[:-1])))
                ctx.require(len(certs) == lim or certs[-1] <= tol, lambda: "%s: stops after %d iterations at a gap of %g" % (what, len(certs), certs[-1]))
                if tol and res.certificate <= tol and nit < lim - 1:
                    d = same(dict(x=res.x, nit=nit), dict(x=long.x, nit=int(long.nit)))
                    ctx.require(d is None, lambda: "%s: stopped by its tolerance, but differently from limit %d: %s" % (what, big, d))
                continue
            if not c.exposes:
                ctx.require(not res.success, lambda: "%s: success" % what)
                continue
            if res.success:
                ctx.count("successes")
                if c.name[:3] == "sfw":
                    sfw_success(ctx, c, what, lim, tol, res, xs, long)
                    continue
                ctx.require(tol > 0, lambda: "%s: success with tolerance zero" % what) if not converged(lx) else None
                d = same(dict(x=res.x, nit=nit), dict(x=long.x, nit=int(long.nit)))
                if d:
                    ctx.fail("%s: success, but a run with limit %d goes on: %s" % (what, big, d))
            elif long.success and c.name[:3] != "sfw":
                ctx.require(int(long.nit) >= nit, lambda: "%s: no success at nit %d, with limit %d success at nit %d" % (what, nit, big, long.nit))
            if "certificate" in res and c.name[:2] in ("pg", "th", "pd") and not res.success:
                ctx.require(not (res.certificate < tol) or (c.name[:2] == "th" and nit == 0) , lambda: "%s: certificate %g below the tolerance, but no success" % (what, res.certificate))


def converged(xs):
    return len(xs) > 1 and np.array_equal(xs[-1], xs[-2])


def sfw_success(ctx, c, what, lim, tol, res, xs, long):
    moves = [np.abs(a - b).sum() for a, b in zip(xs[1:], xs[:-1])]
    hit = [k for k, m in enumerate(moves) if m < tol]
    if not hit:
        ctx.fail("%s: success although no move was below the tolerance" % what)
    last_is_hit = hit[-1] == len(moves) - 1
    if last_is_hit and same(dict(x=res.x), dict(x=long.x)) is None:
        return
    # success remembered from an earlier epoch, the limit exhausted
    key = "sfw-tolerance-ends-epoch-only" if int(res.nit) == lim - 1 else None
    ctx.fail("%s: a move below the tolerance ends the epoch but not the run; success is reported at the exhausted limit" % what, key=key)
