"""C17: no call modifies what the caller owns, and nothing returned or recorded changes later."""
import itertools
import numpy as np
from scipy import sparse
from mc.core import import_copt
from mc.world import DATA, OPERATORS, MAT, OPS, Heap, arrays_in, freeze, integral, mat_reps, vec_reps
from mc.catalog import ALL as CONFIGS

cp = import_copt()
PROPERTY = "C17"
LEVEL = "model_checking"
TECHNIQUE = ("explicit exploration of operation sequences on a shared heap of caller-owned data: every sequence of operations up to the "
             "depth, with a byte-exact fingerprint of every caller-owned and every returned object compared after every operation")
BOUNDS = {"quick": "121 operations x 4 data sets x every single representation (11 vector, 24 matrix, 8 target, 28 operator), every ordered pair of "
                   "operations on one heap; 62 configurations with user functions that keep what they return",
          "thorough": "as quick, and pairs of representations, ordered pairs on all four data sets, ordered triples of one operation per family"}
ASSUMPTIONS = ["block-wise proximal operators are documented to work in place on x; their other arguments are checked",
               "update_active_set works in place on the active set by contract"]


def cases(tier, seed):
    for i in range(len(DATA)):
        for n in OPS:
            yield ["reps", i, n]
    for i in range(len(DATA) if tier == "thorough" else 1):
        for n in OPS:
            yield ["pairs", i, n]
    if tier == "thorough":
        for n in FAMILY:
            yield ["triples", 1, n]
    for n in CONFIGS:
        yield ["kept", n]


FAMILY = ("fw-bt", "fw-pair-bt", "fw-args", "pg-l2", "pg-acc-l2", "pg-none", "three-l2-l1ball", "three-none", "pd-none", "pd-dense", "saga", "svrg-l1",
          "vrtos-l1-group", "sfw-SAGA", "sfw-pair", "prox-l2", "proj-simplex-id", "proj-l1", "loss-log-grad", "loss-huber-grad", "tv2d", "lmo-pairwise")


def compare(ctx, before, after, what):
    for k in before:
        if k in after and before[k] != after[k]:
            ctx.fail("%s modifies %s" % (what, k))


class Watch:
    """arrays and recorded iterates of earlier operations"""

    def __init__(self):
        self.items = []

    def add(self, name, res):
        for j, a in enumerate(arrays_in(res)):
            self.items.append((name, j, a, freeze(a)))

    def verify(self, ctx, what):
        for name, j, a, f in self.items:
            if freeze(a) != f:
                ctx.fail("%s changes array %d returned by %s" % (what, j, name))


def do(ctx, h, o, watch, what):
    before = h.frozen()
    trace = cp.utils.Trace() if o.solver and not o.name.startswith("vrtos") else None
    # a shared user-visible log of the callback
    snaps = []
    if trace is not None:
        def cb(d):
            if "x" in d and "step_size" in d:
                trace(d)
                snaps.append(freeze(trace.trace_x[-1]))
        res = o.run(h, callback=cb)
    else:
        res = o.run(h)
    ctx.step()
    compare(ctx, before, h.frozen(), what)
    watch.verify(ctx, what)
    if trace is not None:
        for a, f in zip(trace.trace_x, snaps):
            if freeze(a) != f:
                ctx.fail("%s: a recorded iterate is overwritten" % what)
        watch.add(o.name + " (trace)", list(trace.trace_x))
    if o.solver:
        for name, own in h.owned():
            if isinstance(own, np.ndarray) and np.shares_memory(own, res["x"]):
                ctx.fail("%s returns the caller's own %s" % (what, name))
        for name, j, a, f in watch.items:
            if isinstance(a, np.ndarray) and np.shares_memory(a, res["x"]) and not name.startswith(("prox", "proj")):
                ctx.fail("%s returns an array returned by %s" % (what, name))
    watch.add(o.name, res)
    return res


def axes(i, o):
    d = DATA[i]
    v, m, b, L = ["array"], ["csr"], ["array"], ["dense"]
    if set(o.uses) & {"x", "v", "xa", "u", "va"}:
        v = vec_reps(np.concatenate([np.array(d[k], dtype=float) for k in ("x", "v")]), seq=bool(set(o.uses) & {"x", "v"}))
        if o.name in ("tv1d", "prox-fused", "prox_tv1d_rows", "prox_tv1d_cols"):
            v = [r for r in v if "int" not in r]
    if "A" in o.uses:
        m = mat_reps(d["A"])
    if "b" in o.uses:
        b = vec_reps(np.array(d["b"], dtype=float))
    if o.name == "pd-dense":
        L = list(MAT) + [k for k in OPERATORS if k != "duck"]
    return v, m, b, L


def run(case, ctx):
    kind = case[0]
    if kind == "kept":
        return kept(case[1], ctx)
    i, o = case[1], OPS[case[2]]
    if kind == "reps":
        v, m, b, L = axes(i, o)
        todo = set()
        for k in range(4):
            for r in (v, m, b, L)[k]:
                c = ["array", "csr", "array", "dense"]
                c[k] = r
                todo.add(tuple(c))
        if ctx.thorough:
            todo |= {(p, q, "array", "dense") for p in v for q in m} | {("array", q, r, "dense") for q in m for r in b}
        for c in sorted(todo):
            h = Heap(i, *c)
            do(ctx, h, o, Watch(), "%s (data %d, %s)" % (o.name, i, c))
            ctx.trace()
            ctx.state("reps", i, o.name, c)
        return
    if kind == "pairs":
        for o2 in OPS.values():
            h, w = Heap(i), Watch()
            do(ctx, h, o, w, o.name)
            do(ctx, h, o2, w, "%s after %s" % (o2.name, o.name))
            ctx.trace()
            ctx.state(i, o.name, o2.name)
        return
    for n2, n3 in itertools.product(FAMILY, repeat=2):
        h, w = Heap(i), Watch()
        do(ctx, h, o, w, o.name)
        do(ctx, h, OPS[n2], w, "%s after %s" % (n2, o.name))
        do(ctx, h, OPS[n3], w, "%s after %s, %s" % (n3, o.name, n2))
        ctx.trace()
        ctx.state(i, o.name, n2, n3)


def kept(name, ctx):
    """the functions handed to the solver keep references to what they return and are given, and hand out persistent buffers"""
    c = CONFIGS[name]
    base = c.run()
    for mode in ("kept", "frozen"):
        returned = []

        def wrap(nm, fn):
            def g(*a, **k):
                if nm == "bprox":
                    # x is updated in place by contract
                    rest = [freeze(v) for v in a[1:]]
                    r = fn(*a, **k)
                    if [freeze(v) for v in a[1:]] != rest:
                        ctx.fail("%s: block-wise operator's arguments modified" % name)
                    return r
                r = fn(*a, **k)
                for arr in arrays_in(r):
                    if isinstance(arr, np.ndarray):
                        returned.append((nm, arr, freeze(arr)))
                        if mode == "frozen" and arr.flags.owndata:
                            arr.flags.writeable = False
                return r
            return g

        res = c.run(wrap=wrap)
        ctx.step(len(returned))
        ctx.trace()
        for nm, arr, f in returned:
            if freeze(arr) != f:
                ctx.fail("%s: the solver modifies an array returned by the user's %s" % (name, nm))
            ctx.state(name, mode, nm, arr)
        if not np.array_equal(res.x, base.x):
            ctx.fail("%s: result differs when the user's functions keep their arrays" % name)
