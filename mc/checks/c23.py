"""C23: the tracing utility, for every solver configuration and every period."""
import contextlib
import io
import itertools
import time
import numpy as np
from mc.core import import_copt, show
from mc.catalog import ALL as CONFIGS, quad, same

cp = import_copt()
PROPERTY = "C23"
LEVEL = "model_checking"
TECHNIQUE = ("model checking of the trace against a history automaton: the trace is driven by every solver configuration with every period, and directly by every "
             "sequence of calls of a bounded length over callers that reuse, overwrite or replace their iterate; after each call its lists are compared with the history")
BOUNDS = {"quick": "71 configurations (12 of them with dozens of variables) x periods 1..6, 1000 x values/iterates/no callback; all 3^6 sequences of caller behaviours x periods 1..7 x 4 kinds of functions; certificate traces of 12 variants of proximal gradient under 17 limits and stops; 6 levels of verbosity for every configuration; 5001 calls; time stamps beyond a second",
          "thorough": "all 3^8 sequences, runs of 40 iterations"}
ASSUMPTIONS = ["the solver's iterates are recorded independently by a second callback called before and after the trace in the same run"]

FUNS = {
    "none": None,
    "value": lambda x: float(np.sum(x * np.arange(1, len(x) + 1))),
    "vector": lambda x: np.array(x) * 2,
    "false": lambda x: False,
    "same": lambda x: x,
}


def cases(tier, seed):
    for n, c in CONFIGS.items():
        if c.exposes:
            yield ["solver", n]
    for p in (1, 2, 3, 4, 5, 6, 7):
        for f in FUNS:
            yield ["direct", p, f]
    for acc in (False, True):
        for step in ("backtracking", "callable"):
            for prox in ("none", "l1", "box"):
                yield ["certificates", acc, step, prox]
    for n in CONFIGS:
        yield ["verbose", n]
    yield ["shared"]
    yield ["periods"]
    yield ["clock"]
    for p in (1, 2, 7, 64, 999):
        yield ["long", p]


def run(case, ctx):
    globals()["run_" + case[0]](ctx, *case[1:])


def judge(ctx, t, xs, f, p, what):
    """t after calls with iterates xs"""
    want = xs[::p]
    got = t.trace_fx if f is not None else t.trace_x
    other = t.trace_x if f is not None else t.trace_fx
    ctx.require(len(got) == len(want), lambda: "%s: %d entries after %d calls, expected %d" % (what, len(got), len(xs), len(want)))
    for k, (a, b) in enumerate(zip(got, want)):
        b = f(b) if f is not None else b
        if not (np.shape(a) == np.shape(b) and np.array_equal(a, b)):
            ctx.fail("%s: entry %d (call %d) is %s instead of %s" % (what, k, k * p, a, b))
    ctx.require(len(other) == 0, lambda: "%s: the list not asked for has %d entries" % (what, len(other)))
    ctx.require(len(t.trace_time) == len(want) == len(t.trace_step_size), lambda: "%s: %d times and %d step sizes for %d entries" % (
        what, len(t.trace_time), len(t.trace_step_size), len(want)))
    ts = [float(v) for v in t.trace_time]
    ctx.require(all(a <= b for a, b in zip([0.0] + ts, ts)), lambda: "%s: times %s" % (what, ts))


def run_solver(ctx, name):
    c = CONFIGS[name]
    lims = (1, 2, 7, 12) if not ctx.thorough else (1, 2, 3, 4, 7, 12, 40)
    for lim in lims:
        base = c.run(max_iter=lim)
        for fname in ("none", "value", "false"):
            f = FUNS[fname]
            for p in (1, 2, 3, 4, 5, 6, 1000):
                what = "%s, limit %d, period %d, f %s" % (name, lim, p, fname)
                t = cp.utils.Trace(f, freq=p) if f is not None or p != 1 else cp.utils.Trace()
                xs, steps = [], []

                def cb(d):
                    before = np.array(d["x"])
                    xs.append(before)
                    steps.append(d["step_size"])
                    n = len(t.trace_time)
                    ans = t(d)
                    ctx.step()
                    ctx.require(np.array_equal(d["x"], before), lambda: "%s: the trace changes the iterate" % what)
                    ctx.require(ans is not False, lambda: "%s: the trace asks the solver to stop" % what)
                    ctx.require(len(t.trace_time) - n == (1 if (len(xs) - 1) % p == 0 else 0), lambda: "%s: call %d adds %d entries" % (what, len(xs) - 1, len(t.trace_time) - n))
                    return ans
                res = c.run(callback=cb, max_iter=lim)
                judge(ctx, t, xs, f, p, what)
                diff = same(res, base)
                ctx.require(not diff, lambda: "%s: tracing changes the run: %s" % (what, diff))
                ctx.require(len(t.trace_step_size) == len(steps[::p]) and all(a is b or a == b for a, b in zip(t.trace_step_size, steps[::p])),
                            lambda: "%s: step sizes %s instead of %s" % (what, t.trace_step_size, steps[::p]))
                # as the callback itself
                t2 = cp.utils.Trace(f, freq=p)
                res2 = c.run(callback=t2, max_iter=lim)
                diff = same(res2, base)
                ctx.require(not diff, lambda: "%s: tracing directly changes the run: %s" % (what, diff))
                judge(ctx, t2, xs, f, p, what + " (directly)")
                # later activity leaves the snapshots alone
                if p in (1, 3):
                    c.run(callback=lambda d: None, max_iter=3)
                    x0 = t2.trace_x[-1].copy() if t2.trace_x else None
                    res2.x[...] = 77.0
                    judge(ctx, t2, xs, f, p, what + " (after the result was overwritten)")
                    if x0 is not None:
                        t2.trace_x[0][...] = 55.0
                        ctx.require(len(t2.trace_x) == 1 or np.array_equal(t2.trace_x[-1], x0), lambda: "%s: entries share memory" % what)
                ctx.trace(2)
            for x in xs:
                ctx.state(name, x)


def run_direct(ctx, p, fname):
    """callers that keep one buffer (a), hand out new arrays (b) or a view of a larger one (c)"""
    f = FUNS[fname]
    n = 8 if ctx.thorough else 6
    for word in itertools.product("abc", repeat=n):
        t = cp.utils.Trace(f, freq=p)
        buf, wide = np.zeros(3), np.zeros((2, 6))
        hist = []
        for k, w in enumerate(word):
            v = np.array([k + 1.0, -k, 0.5 * k * k])
            if w == "a":
                buf[:] = v
                x = buf
            elif w == "b":
                x = v.copy()
            else:
                wide[:] = -1
                wide[1, ::2] = v
                x = wide[1, ::2]
            hist.append(v)
            d = {"x": x, "step_size": k, "other": object()}
            keys = set(d)
            ans = t(d)
            ctx.require(ans is not False, lambda: "the trace asks the caller to stop")
            ctx.require(set(d) == keys and np.array_equal(x, v), lambda: "the trace changes what it is given")
            if fname != "same":
                judge(ctx, t, hist, f, p, "period %d, f %s, caller %s" % (p, fname, "".join(word[: k + 1])))
            else:
                ctx.require(len(t.trace_fx) == len(hist[::p]), "entries missing")
            ctx.require(list(t.trace_step_size) == list(range(0, k + 1, p)), lambda: "period %d: step sizes %s after %d calls" % (p, t.trace_step_size, k + 1))
            ctx.step()
            ctx.state(p, fname, word[: k + 1])
            # the caller goes on computing in its arrays
            buf += 0.25
            wide += 0.25
        ctx.trace()


def run_long(ctx, p):
    """thousands of calls"""
    for fname in ("none", "value"):
        f = FUNS[fname]
        t = cp.utils.Trace(f, freq=p)
        hist = []
        for k in range(20000 if ctx.thorough else 5001):
            x = np.array([float(k), -0.5 * k])
            hist.append(x.copy())
            t({"x": x, "step_size": k})
            x[:] = -1
            if k in (0, 1, 63, 64, 65, 99, 100, 255, 256, 499, 500, 511, 999, 1000, 1001, 2047, 4095, 4999, 5000, 19999):
                judge(ctx, t, hist, f, p, "period %d, f %s, %d calls" % (p, fname, k + 1))
                ctx.require(list(t.trace_step_size) == list(range(0, k + 1, p)), lambda: "period %d: step sizes wrong after %d calls" % (p, k + 1))
            ctx.step()
        ctx.trace()
        ctx.state("long", p, fname)


def run_clock(ctx):
    """time stamps count the seconds since the trace was made, also beyond one"""
    a = time.monotonic()
    t = cp.utils.Trace()
    b = time.monotonic()
    for k, wait in enumerate((0.0, 0.3, 0.9, 0.4, 0.6)):
        time.sleep(wait)
        c = time.monotonic()
        t({"x": np.zeros(1), "step_size": None})
        d = time.monotonic()
        v = float(t.trace_time[-1])
        ctx.require(len(t.trace_time) == k + 1 and c - b - 0.05 <= v <= d - a + 0.05, lambda: "entry %d made %.3f to %.3f s after the start is stamped %r" % (k, c - b, d - a, v))
        ctx.step()
        ctx.state("clock", k)
    ctx.trace()


def run_certificates(ctx, acc, step, prox):
    """proximal gradient's own trace: one certificate per iteration, however the run ends"""
    op = {"none": None, "l1": cp.penalty.L1Norm(0.2).prox, "box": cp.constraint.LinfBall(0.4).prox}[prox]
    st = step if step == "backtracking" else lambda d: 0.35
    for tol in (0.0, 1e-2, 1e-6):
        for stop in [None] + list(range(1, 12)):
            for lim in (1, 2, 3, 5, 8, 40) if stop is None else (12,):
                def go(**k):
                    calls = [0]

                    def cb(d):
                        calls[0] += 1
                        return False if stop == calls[0] else None
                    return cp.minimize_proximal_gradient(quad(), np.array([1.0, -2.0, 0.5]), prox=op, accelerated=acc, step=st, tol=tol, max_iter=lim, callback=cb, **k)
                what = "proximal gradient (accelerated=%s, %s, %s), limit %d, tol %g, stop at call %s" % (acc, step, prox, lim, tol, stop)
                plain, traced = go(), go(trace_certificate=True)
                diff = same(plain, traced)
                ctx.require(not diff, lambda: "%s: tracing certificates changes the run: %s" % (what, diff))
                ctx.require(len(plain.trace_certificate) == 0, lambda: "%s: certificates recorded that nobody asked for" % what)
                t = [float(c) for c in traced.trace_certificate]
                ctx.require(len(t) == int(traced.nit), lambda: "%s: %d certificates for %d iterations" % (what, len(t), traced.nit))
                ctx.require(not t or t[-1] == float(traced.certificate), lambda: "%s: the last certificate is %r, the result's %r" % (what, t[-1], traced.certificate))
                for k, c in enumerate(t):
                    one = cp.minimize_proximal_gradient(quad(), np.array([1.0, -2.0, 0.5]), prox=op, accelerated=acc, step=st, tol=tol, max_iter=k + 1)
                    ctx.require(float(one.certificate) == c, lambda: "%s: certificate %d is %r, that of the run with this limit is %r" % (what, k, c, one.certificate))
                    ctx.state(acc, step, prox, tol, k, c)
                    ctx.step()
                ctx.trace()


def run_verbose(ctx, name):
    """verbosity is for the reader"""
    c = CONFIGS[name]
    for lim in (1, 3, 8):
        base = c.run(max_iter=lim)
        for v in (0, 1, 2, 3, True, False):
            with contextlib.redirect_stdout(io.StringIO()):
                res = c.run(max_iter=lim, more={"verbose": v})
            diff = same(res, base)
            ctx.require(not diff, lambda: "%s: verbose=%r changes the run: %s" % (name, v, diff))
            ctx.state(name, lim, v)
        ctx.trace()


def run_shared(ctx):
    """several traces at work at the same time, one after the other, and one trace for two runs"""
    names = [n for n, c in CONFIGS.items() if c.exposes]
    for a, b in itertools.product(names[::3], names[1::5]):
        ca, cb_ = CONFIGS[a], CONFIGS[b]
        ta, tb, tab = cp.utils.Trace(freq=2), cp.utils.Trace(FUNS["value"], freq=3), cp.utils.Trace()
        xa, xb = [], []

        def inner(d):
            xb.append(np.array(d["x"]))
            tb(d)
            tab(d)

        def outer(d):
            xa.append(np.array(d["x"]))
            ta(d)
            tab(d)
            if len(xa) == 3:
                cb_.run(callback=inner, max_iter=4)
        ca.run(callback=outer, max_iter=6)
        judge(ctx, ta, xa, None, 2, "%s around %s" % (a, b))
        judge(ctx, tb, xb, FUNS["value"], 3, "%s inside %s" % (b, a))
        judge(ctx, tab, xa[:3] + xb + xa[3:], None, 1, "both %s and %s" % (a, b))
        ctx.trace()
        ctx.step(len(xa) + len(xb))
        ctx.state(a, b)


def run_periods(ctx):
    for p in (1, 2, 3, 7, np.int64(2), 2.0, 3.9, True):
        t = cp.utils.Trace(freq=p)
        q = int(p)
        hist = []
        for k in range(15):
            x = np.array([float(k)])
            hist.append(x.copy())
            t({"x": x, "step_size": 0.1})
            x[0] = -1
            judge(ctx, t, hist, None, q, "period %r" % p)
            ctx.step()
        ctx.state(q, k)
    # times are those of the calls
    t = cp.utils.Trace()
    for k in range(3):
        time.sleep(0.02)
        t({"x": np.zeros(1), "step_size": 0.1})
    ctx.require(t.trace_time[0] >= 0.015 and all(b - a >= 0.015 for a, b in zip(t.trace_time, t.trace_time[1:])), lambda: "times %s of calls 0.02 s apart" % t.trace_time)
    ctx.trace()
