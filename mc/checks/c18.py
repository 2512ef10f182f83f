"""C18: solver calls are independent of each other."""
import itertools
import os
import sys
import threading
import numpy as np
from mc.core import import_copt, HarnessError, Violation
from mc.world import DATA, OPS, Heap, values
from mc.catalog import CONFIGS
from mc import pristine

cp = import_copt()
COPT_DIR = os.path.dirname(os.path.abspath(cp.__file__)) + os.sep
PROPERTY = "C18"
LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking of interleavings on the real code: sequences of calls on shared objects; nested calls started at every "
             "point at which user code runs; and a scheduler that preempts a call at every line executed inside copt, lets a second thread "
             "run another call (completely, or up to any of its own lines) and resumes; every result compared with the call run alone")
BOUNDS = {"quick": "every ordered pair of 121 operations in sequence; every outer configuration (62) x inner configuration (same and 13 others) x "
                   "every call of user code; every operation preempted at the first and the last execution of every line it executes (2 iterations) by the same and one other "
                   "operation; two preemptions at the first execution of every pair of lines, for 2 pairs of operations; each operation under three parameter sets (same data, other weights, losses, batch sizes) before and after every other; the caller's global state (random states) around every operation; every baseline is a call made in a fresh process",
          "thorough": "inner configurations: all 62; preempting operations: 14, at the first 60 executions of every line; two preemptions: 32 pairs, 3 executions of every line"}
ASSUMPTIONS = ["context switches at line boundaries of copt's Python code (numpy calls are atomic)",
               "the same random draws are answered to a call in every schedule"]
CASE_CPU_S = 400

FAMILY = ("fw-bt", "fw-pair-bt", "pg-l1", "pg-acc-l1", "three-l1-linf", "pd-dense", "saga-group", "svrg-l1", "vrtos-l1-group", "sfw-SAGA",
          "sfw-LF-batch", "sfw-pair", "loss-log-grad", "blockprox-group")
CFAMILY = ("fw-backtracking", "fw-pair-backtracking", "pg-backtracking-l1", "pg-acc-backtracking-l1", "three-ls", "pd-ls-diff", "saga-group-log",
           "svrg-l1", "vrtos-l1-group", "sfw-SAG", "sfw-LF-batch", "sfw-pair", "fw-log")
TWO = (("fw-pair-bt", "fw-pair-bt"), ("pg-l1", "pg-l1"), ("pg-acc-l1", "pg-l1"), ("three-l1-linf", "three-l1-linf"), ("pd-dense", "pd-dense"),
       ("saga-l1", "saga-l1"), ("sfw-SAGA", "sfw-SAGA"), ("svrg", "svrg"))


def cases(tier, seed):
    for n in OPS:
        yield ["sequence", n]
    for n in CONFIGS:
        yield ["nested", n]
    for n in OPS:
        yield ["shared", n]
    for n in OPS:
        yield ["params", n]
    for n in OPS:
        yield ["globals", n]
    for n in OPS:
        yield ["preempt", n]
    pairs = TWO[:1] + TWO[6:7] if tier == "quick" else [(a, b) for a, b in itertools.product(FAMILY[:12], repeat=2) if a <= b][:24] + list(TWO)
    for a, b in pairs:
        for shard in range(8):
            yield ["two", a, b, shard]


def equal(ctx, got, want, what):
    for k in want:
        if k not in got:
            ctx.fail("%s: no %s" % (what(), k))
        scale = 1 + (np.abs(want[k]).max() if want[k].size else 0)
        ctx.close(got[k] / scale, want[k] / scale, 1e-9, lambda: "%s: %s" % (what(), k))


def _op(n, i, variant, kw):
    return values(OPS[n].run(Heap(i, variant=variant), **dict(kw)))


def _config(n, salt):
    return values(CONFIGS[n].run(max_iter=4, salt=salt))


def alone(n, i=0, variant=0, **kw):
    """the operation run by itself, in a process in which nothing ran before"""
    return pristine.ask("op", n, i, variant, tuple(sorted(kw.items())))


def calone(n, salt=0):
    return pristine.ask("config", n, salt)


def run(case, ctx):
    pristine.start({"op": _op, "config": _config})
    return globals()["run_" + case[0]](ctx, *case[1:])


VARIANTS = (0, 1, 2)


def run_params(ctx, n):
    """every word of calls over parameter variants: the same data, other weights, radii, steps, groups, shapes and limits"""
    o = OPS[n]
    for share in (False, True):
        for word in itertools.product(VARIANTS, repeat=3):
            heaps = {}
            for k, v in enumerate(word):
                h = heaps.get(v) if share else None
                if h is None:
                    h = heaps[v] = Heap(0, variant=v)
                    if share:
                        # the very same data arrays under every variant
                        first = heaps[word[0]]
                        h.A, h.b, h.x, h.xa, h.u = first.A, first.b, first.x, first.xa, first.u
                equal(ctx, values(o.run(h)), alone(n, 0, v), lambda: "%s with parameters %d after the parameters %s (%s)" % (
                    n, v, word[:k], "same objects" if share else "new objects"))
                ctx.step()
            ctx.trace()
            ctx.state("params", n, word, share)
    # all objects are made first and used afterwards, in every order
    for order in itertools.permutations(VARIANTS):
        for use in itertools.permutations(VARIANTS):
            heaps = {v: Heap(0, variant=v) for v in VARIANTS}
            for v in order:
                o.run(heaps[v], **({"max_iter": 1} if o.solver else {}))
            for v in use:
                equal(ctx, values(o.run(heaps[v])), alone(n, 0, v), lambda: "%s with parameters %d; objects made in the order %s, used in the order %s" % (n, v, order, use))
                ctx.step()
            ctx.trace()
            ctx.state("made", n, order, use)
    # another operation with other parameters in between
    for m in OPS:
        h = Heap(0)
        for v in (1, 2):
            g = Heap(0, variant=v)
            equal(ctx, values(OPS[m].run(g)), alone(m, 0, v), lambda: "%s with parameters %d after %s" % (m, v, n))
            equal(ctx, values(o.run(h)), alone(n, 0, 0), lambda: "%s after %s with parameters %d" % (n, m, v))
            ctx.step(2)
        ctx.trace()
        ctx.state("cross", n, m)


def surroundings():
    import logging
    import signal
    import warnings
    return {
        "numpy error handling": np.geterr(), "numpy error callback": np.geterrcall(), "numpy print options": np.get_printoptions(),
        "working directory": os.getcwd(), "environment": dict(os.environ), "warning filters": list(warnings.filters),
        "recursion limit": sys.getrecursionlimit(), "logging level": logging.getLogger().level, "trace function": sys.gettrace(),
        "profile function": sys.getprofile(), "interrupt handler": signal.getsignal(signal.SIGINT), "standard output": sys.stdout,
        "standard error": sys.stderr, "floating-point type": np.finfo(float).eps, "threads": threading.active_count(),
        "module path": list(sys.path),
    }


def run_globals(ctx, n):
    """what a call leaves behind outside its result: the process's global state, and the caller's random stream"""
    import random
    o = OPS[n]
    for i in range(len(DATA)):
        for v in VARIANTS:
            for kw in ({}, dict(max_iter=1)) if o.solver else ({},):
                after = []
                for seed in (11, 12):
                    np.random.seed(seed)
                    random.seed(seed)
                    before = surroundings()
                    o.run(Heap(i, variant=v), **kw)
                    now = surroundings()
                    for k in before:
                        ctx.require(before[k] == now[k] or before[k] is now[k], lambda: "%s (data %d, parameters %d) changes the process's %s" % (n, i, v, k))
                    after.append((np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate()))
                    ctx.step()
                ctx.require(after[0][0] != after[1][0] and after[0][2] != after[1][2],
                            lambda: "%s (data %d, parameters %d) sets the global random state: the caller's draws no longer depend on the caller's seed" % (n, i, v))
                ctx.trace()
                ctx.state("globals", n, i, v, str(kw))


def run_sequence(ctx, n):
    o = OPS[n]
    for n2, o2 in OPS.items():
        h = Heap(0)
        equal(ctx, values(o.run(h)), alone(n), lambda: "%s repeated" % n)
        equal(ctx, values(o2.run(h)), alone(n2), lambda: "%s after %s" % (n2, n))
        equal(ctx, values(o.run(h)), alone(n), lambda: "%s again, after %s" % (n, n2))
        ctx.step(3)
        ctx.trace()
        ctx.state(n, n2)
    # the same caller's objects, other data in between
    for i in range(len(DATA)):
        a = values(o.run(Heap(i)))
        for j in range(len(DATA)):
            OPS[n].run(Heap(j))
            equal(ctx, values(o.run(Heap(i))), a, lambda: "%s on data %d after data %d" % (n, i, j))
            ctx.step(2)
            ctx.state(n, i, j)


def run_nested(ctx, n):
    """start another call inside every user function of this one, at every invocation"""
    c = CONFIGS[n]
    want = calone(n)
    inner = [n] + [m for m in (CONFIGS if ctx.thorough else CFAMILY) if m != n]
    for m in inner:
        at = 0
        while True:
            count = [0]
            done = []

            def hook():
                count[0] += 1
                if count[0] == at + 1:
                    done.append(values(CONFIGS[m].run(max_iter=4, salt=5)))

            def wrap(nm, fn):
                def g(*a, **k):
                    hook()
                    r = fn(*a, **k)
                    return r
                return g

            def cb(d):
                hook()

            got = values(c.run(max_iter=4, wrap=wrap, callback=cb))
            if not done:
                break
            ctx.trace()
            ctx.step()
            ctx.state(n, m, at)
            equal(ctx, done[0], calone(m, 5), lambda: "%s started inside %s at user call %d" % (m, n, at))
            equal(ctx, got, want, lambda: "%s, with %s started at its user call %d" % (n, m, at))
            at += 1


def run_shared(ctx, n):
    """nested calls on the very same objects, from the callback"""
    o = OPS[n]
    if not o.solver:
        return
    for m in (OPS if ctx.thorough else FAMILY + (n,)):
        at = 0
        while at < 12:
            h = Heap(0)
            done = []
            count = [0]

            def cb(d):
                count[0] += 1
                if count[0] == at + 1:
                    done.append(values(OPS[m].run(h, **(dict(max_iter=3) if OPS[m].solver else {}))))

            got = values(o.run(h, callback=cb, max_iter=3))
            if not done:
                break
            equal(ctx, done[0], alone(m, 0, **(dict(max_iter=3) if OPS[m].solver else {})), lambda: "%s inside the callback of %s, call %d" % (m, n, at))
            equal(ctx, got, alone(n, 0, max_iter=3), lambda: "%s with %s inside its callback call %d" % (n, m, at))
            ctx.trace()
            ctx.step()
            ctx.state("shared", n, m, at)
            at += 1


class Stop(Exception):
    pass


def traced(fn, at, action):
    """run fn(); when the at-th line of copt is about to execute, call action(); -> (result, lines executed)"""
    count = [0]

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] == at + 1:
                action()
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(COPT_DIR) else None

    sys.settrace(glob)
    try:
        res = fn()
    finally:
        sys.settrace(None)
    return res, count[0]


def points(fn, occurrences, last=True):
    """line events of fn() at which it is preempted: the first `occurrences` executions of every line of code, and the last one"""
    seen = {}
    count = [0]
    at = []

    def local(frame, event, arg):
        if event == "line":
            key = (frame.f_code, frame.f_lineno)
            seen.setdefault(key, []).append(count[0])
            count[0] += 1
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(COPT_DIR) else None

    sys.settrace(glob)
    try:
        fn()
    finally:
        sys.settrace(None)
    for v in seen.values():
        at += v[:occurrences] + (v[-1:] if last else [])
    return sorted(set(at))


def small(o):
    return dict(max_iter=2) if o.solver else {}


def in_thread(fn):
    out = []

    def body():
        try:
            out.append((fn(), None))
        except BaseException as e:
            out.append((None, e))

    t = threading.Thread(target=body)
    t.start()
    t.join()
    r, e = out[0]
    if e is not None:
        raise e
    return r


def run_preempt(ctx, n):
    o = OPS[n]
    others = list(FAMILY) if ctx.thorough else [FAMILY[sum(map(ord, n)) % len(FAMILY)]]
    want = alone(n, 0, **small(o))
    for m in dict.fromkeys([n] + others):
        o2 = OPS[m]
        want2 = alone(m, 0, **small(o2))
        for at in points(lambda: o.run(Heap(0), **small(o)), 60 if ctx.thorough else 1):
            h = Heap(0)
            got2 = []
            got, lines = traced(lambda: values(o.run(h, **small(o))), at, lambda: got2.append(in_thread(lambda: values(o2.run(h, **small(o2))))))
            if not got2:
                raise HarnessError("line event %d of %s not reached" % (at, n))
            ctx.trace()
            ctx.step()
            ctx.state(n, m, at)
            ctx.count("preemption_points")
            equal(ctx, got2[0], want2, lambda: "%s run while %s is suspended before its line event %d" % (m, n, at))
            equal(ctx, got, want, lambda: "%s suspended before its line event %d while %s runs" % (n, at, m))


def run_two(ctx, n, m, shard):
    """first thread runs to line event k, second to line event j, first finishes, second finishes"""
    o, o2 = OPS[n], OPS[m]
    want, want2 = alone(n, 0, max_iter=1), alone(m, 0, max_iter=1)

    def go(k, j):
        h = Heap(0)
        resume, paused = threading.Event(), threading.Event()
        box = {}

        def second():
            def pause():
                paused.set()
                resume.wait(60)
            try:
                box["second"], box["lines2"] = traced(lambda: values(o2.run(h, max_iter=1)), j, pause)
            except BaseException as e:
                box["error"] = e
            paused.set()

        t = threading.Thread(target=second)

        def action():
            t.start()
            paused.wait(60)

        try:
            got, lines = traced(lambda: values(o.run(h, max_iter=1)), k, action)
        finally:
            resume.set()
            if t.ident is not None:
                t.join()
        if "error" in box:
            raise box["error"]
        return got, lines, box

    occ = 3 if ctx.thorough else 1
    pairs = itertools.product(points(lambda: o.run(Heap(0), max_iter=1), occ, ctx.thorough)[shard::8], points(lambda: o2.run(Heap(0), max_iter=1), occ, ctx.thorough))
    for k, j in pairs:
        got, _, box = go(k, j)
        equal(ctx, got, want, lambda: "%s suspended at line event %d while %s runs to its line event %d" % (n, k, m, j))
        equal(ctx, box["second"], want2, lambda: "%s suspended at line event %d while %s, started before, finishes" % (m, j, n))
        ctx.trace()
        ctx.step(2)
        ctx.state("two", n, m, k, j)
