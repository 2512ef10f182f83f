"""C04: value, gradient and curvature of the losses."""
import itertools
import numpy as np
from scipy import sparse
from mc.core import import_copt, show
from mc import gen
from mc.data import Ref, FORMATS, make_loss

cp = import_copt()
PROPERTY = "C04"
LEVEL = "exploration"
RULE = ("every matrix over {-1,0,2} of the small shapes x every point over an alphabet reaching the overflow range x "
        "targets x regularisation x sparse format; every margin of a list dense around each branch of the stable "
        "evaluation (|z| near 0, 18, 33, 37, 709, 745) for single samples; every length up to 130; every history of 3 calls "
        "(value, gradient, Hessian, derivatives) on two losses sharing a matrix, the point changed in place, kept, or fresh. "
        "Non-trivial: the gradient is not zero. Oracle: the documented formulas in 80-bit arithmetic")
BOUNDS = {"quick": "shapes up to 2x2, 3x1, 1x3; 12 formats; 1..130 samples", "thorough": "shapes up to 3x2, 2x3; lengths 1..300,1000"}
ASSUMPTIONS = ["finite data; agreement up to 1e-12 of the condition of the sum (1e-11 relative for single 0/1-labelled samples)",
               "the undocumented intercept switch of the logistic loss is not covered"]

ZS = sorted(set(
    s * (c + d)
    for c in (0.0, 1.0, 5.0, 18.0, 20.0, 30.0, 33.0, 36.0, 37.0, 38.0, 40.0, 50.0, 100.0, 300.0, 700.0, 709.0, 710.0, 744.0, 745.0, 746.0, 1e3, 1e5, 1e8)
    for d in (-0.5, -1e-9, 0.0, 1e-9, 0.25) for s in (1, -1)) | {1e-300, -1e-300, 1e-9, -1e-9, 1e-3, -1e-3}
    | {k * 0.37 for k in range(-125, 126)})


def cases(tier, seed):
    th = tier == "thorough"
    yield ["margins", "log"]
    yield ["margins", "square"]
    yield ["margins", "huber"]
    yield ["validate"]
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)] + ([(3, 2), (2, 3)] if th else [])
    for kind in ("log", "square", "huber"):
        for s in shapes:
            for part in range(3 ** max(0, s[0] * s[1] - 3)):
                yield ["grid", kind, list(s), part]
        for fmt in FORMATS:
            yield ["formats", kind, fmt]
        for ch in gen.chunks(list(range(1, 301 if th else 131)) + ([1000] if th else []), 26):
            yield ["sweep", kind, ch]
        for fmt in ("dense", "csr", "csc"):
            yield ["calls", kind, fmt]
    yield ["none"]


def targets(kind, n):
    if kind == "log":
        yield np.array([(0.0, 1.0)[i % 2] for i in range(n)])
        yield np.array([(1.0, 0.0, 0.25)[i % 3] for i in range(n)])
        yield np.array([(1, 0, 0)[i % 3] for i in range(n)])  # integer labels
    else:
        yield np.array([(0.5, -2.0, 3.0)[i % 3] for i in range(n)])
        yield np.zeros(n)
        yield np.array([(2, -1)[i % 2] for i in range(n)])


def judge(ctx, kind, A_in, A, b, alpha, x, delta=1.0, loss=None, hess=True):
    loss = loss or make_loss(cp, kind, A_in, b, alpha, delta)
    ref = Ref(kind, A, b, alpha, delta)
    what = "%s loss, A=%s b=%s alpha=%g x=%s" % (kind, A.tolist() if A.size < 10 else A.shape, show(b), alpha, show(x))
    v = float(ref.value(x))
    tol = 1e-12 * ref.cond_value(x)
    for got, name in ((loss(x), "call"), (loss.f_grad(x, return_gradient=False), "value only"), (loss.f_grad(x)[0], "value")):
        ctx.require(np.ndim(got) == 0 and abs(float(got) - v) <= tol + 1e-12 * abs(v),
                    lambda: "%s: %s is %r instead of %r" % (what, name, got, v))
    g = np.asarray(loss.f_grad(x)[1])
    rg = np.asarray(ref.grad(x), dtype=float)
    ctx.require(g.shape == (A.shape[1],), "%s: gradient shape %s" % (what, g.shape))
    ctx.require(np.all(np.abs(g - rg) <= 1e-12 * ref.cond_grad(x)), lambda: "%s: gradient %s instead of %s" % (what, show(g), show(rg)))
    if kind == "log" and hess:
        H = np.asarray(ref.hess(x), dtype=float)
        p = A.shape[1]
        # both methods are documented to return the products with the Hessian
        for mv, s in itertools.product((loss.hessian_mv(x), loss.hessian_trace(x)), list(np.eye(p)) + [np.arange(1.0, p + 1), -np.ones(p)]):
            hs = np.asarray(mv(s.copy()))
            sc = (np.abs(A).T @ np.abs(A) / A.shape[0] + alpha * np.eye(p)) @ np.abs(s)
            ctx.require(hs.shape == (p,) and np.all(np.abs(hs - H @ s) <= 1e-11 * sc + 1e-300),
                        lambda: "%s: Hessian times %s is %s instead of %s" % (what, show(s), show(hs), show(H @ s)))
    if kind in ("log", "square"):
        z = np.asarray(ref.margins(x), dtype=float)
        pd = np.asarray(loss.partial_deriv(z, np.asarray(b)))
        rd = np.asarray(ref.point_deriv(z, ref.b), dtype=float)
        ctx.require(pd.shape == z.shape and np.all(np.abs(pd - rd) <= 1e-12 * (1 + np.abs(z) + np.abs(ref.b).astype(float))),
                    lambda: "%s: per-sample derivatives %s instead of %s" % (what, show(pd), show(rd)))
    ctx.evaluation(kind, A, b, alpha, x, delta, nontrivial=bool(np.any(rg)))


def run_calls(ctx, kind, fmt):
    """every short history of calls on two losses that share a matrix, the points held in one array changed in place, in the same array
    unchanged, or in fresh arrays"""
    n, p = 3, 2
    A = np.array([[1.0, -2.0], [0.5, 1.0], [-1.0, 0.25]])
    pts = [np.array(q) for q in ((0.0, 0.0), (1.0, -0.5), (-2.0, 3.0), (0.25, 0.25), (5.0, 1.0))]
    bs = list(targets(kind, n))
    spec = [(bs[0], 0.0, 1.0), (bs[1], 0.7, 0.5)]
    refs = [Ref(kind, A, *sp) for sp in spec]
    want = [[(float(r.value(q)), np.asarray(r.grad(q), dtype=float),
              np.asarray(r.hess(q), dtype=float) if kind == "log" else None,
              np.asarray(r.point_deriv(r.margins(q), r.b), dtype=float) if kind != "huber" else None) for q in pts] for r in refs]
    margins = [[np.asarray(r.margins(q), dtype=float) for q in pts] for r in refs]
    s = np.array([1.0, -3.0])
    methods = ["call", "value", "grad"] + (["hess", "trace"] if kind == "log" else []) + (["deriv"] if kind != "huber" else [])
    letters = [(m, w, mode) for m in methods for w in (0, 1) for mode in ("in place", "unchanged", "fresh")]
    depth = 3
    Ain = FORMATS[fmt](A)
    lengths = 0
    for word in gen.words(letters, depth):
        if not ctx.thorough and len({w for _, w, _ in word}) == 2 and lengths % 3:
            lengths += 1
            continue
        lengths += 1
        losses = [make_loss(cp, kind, Ain, *sp) for sp in spec]
        buf, zbuf, at = np.array(pts[0]), np.array(margins[0][0]), 0
        for k, (m, w, mode) in enumerate(word):
            if mode == "in place":
                at = k + 1
                buf[:] = pts[at]
                x, i = buf, at
            elif mode == "fresh":
                x, i = pts[k + 2 - 2 * (k == 2)].copy(), k + 2 - 2 * (k == 2)
            else:
                x, i = buf, at
            L = losses[w]
            v, g, H, d = want[w][i]
            if m == "call":
                ok = abs(L(x) - v) <= 1e-12 * (1 + abs(v))
            elif m == "value":
                ok = abs(L.f_grad(x, return_gradient=False) - v) <= 1e-12 * (1 + abs(v))
            elif m == "grad":
                gv, gg = L.f_grad(x)
                ok = abs(gv - v) <= 1e-12 * (1 + abs(v)) and np.all(np.abs(np.asarray(gg) - g) <= 1e-11)
            elif m == "deriv":
                zbuf[:] = margins[w][i]
                ok = np.all(np.abs(L.partial_deriv(zbuf if mode != "fresh" else zbuf.copy(), np.asarray(spec[w][0])) - d) <= 1e-11)
            else:
                mv = L.hessian_mv(x) if m == "hess" else L.hessian_trace(x)
                ok = np.all(np.abs(np.asarray(mv(s)) - H @ s) <= 1e-11)
            ctx.require(bool(ok), lambda: "%s loss: wrong %s at %s after the calls %s" % (kind, m, show(x), word[:k + 1]))
            ctx.step()
        ctx.trace()
    ctx.state("calls", kind, fmt)
    ctx.evaluation("calls", kind, fmt)


def run(case, ctx):
    what = case[0]
    if what == "margins":
        kind = case[1]
        one = np.ones((1, 1))
        for z in ZS:
            for b in (0.0, 1.0, 0.5, 0.25, 1e-3) if kind == "log" else (0.0, 1.0, -3.0):
                for delta in (1.0, 0.5, 3.0, 1e-3, 1e-6, 150.0, 1e4, 1e7) if kind == "huber" else (1.0,):
                    x = np.array([z])
                    bb = np.array([b])
                    judge(ctx, kind, one, one, bb, 0.0, x, delta)
                    if kind == "huber":
                        for xx in (np.array([b + delta]), np.array([b - delta]), np.array([b + np.nextafter(delta, 1e9)]),
                                   np.array([b + 1.5 * delta]), np.array([b - 40 * delta]), np.array([b - delta / 2])):
                            judge(ctx, kind, one, one, bb, 0.0, xx, delta)
                    if kind == "log" and b in (0.0, 1.0):
                        loss = make_loss(cp, kind, one, bb, 0.0)
                        ref = Ref(kind, one, bb, 0.0)
                        g = float(np.asarray(loss.f_grad(x)[1])[0])
                        rg = float(ref.grad(x)[0])
                        pd = float(loss.partial_deriv(x, bb)[0])
                        for got in (g, pd):
                            ctx.require(abs(got - rg) <= 1e-11 * abs(rg) + 1e-307,
                                        "logistic derivative at margin %r label %g loses precision: %r instead of %r" % (z, b, got, rg))
                        if b == 1.0 and z > 0:
                            v = float(ref.value(x))
                            ctx.require(abs(loss(x) - v) <= 1e-11 * v + 1e-307,
                                        "logistic loss at margin %r label 1 loses precision: %r instead of %r" % (z, loss(x), v))
    elif what == "grid":
        _, kind, shape, part = case
        n, p = shape
        free = n * p - max(0, n * p - 3)
        k = n * p - free
        fixed = []
        q = part
        for _ in range(k):
            fixed.append((-1.0, 0.0, 2.0)[q % 3])
            q //= 3
        xs = list(gen.words((0.0, 0.5, -1.0, 40.0) + ((-800.0,) if p < 3 else ()), p))
        for w in gen.words((-1.0, 0.0, 2.0), free):
            A = np.array(list(w) + fixed).reshape(n, p)
            for j, b in enumerate(targets(kind, n)):
                for i, alpha in enumerate((0.0, 0.3, 2.0)):
                    loss = make_loss(cp, kind, A, b, alpha, (1.0, 0.5, 3.0)[(i + j) % 3])
                    for m, x in enumerate(xs):
                        if not ctx.thorough and (m + i + j) % 3:
                            continue
                        judge(ctx, kind, A, A, b, alpha, np.array(x), (1.0, 0.5, 3.0)[(i + j) % 3], loss, hess=m % 2 == 0)
    elif what == "formats":
        _, kind, fmt = case
        for (n, p) in ((1, 1), (2, 3), (3, 2), (4, 4), (7, 5)):
            for zero in (False, True):
                A = gen.pattern("mod", n * p).reshape(n, p)
                if zero:
                    A[0] = 0
                    A[:, -1] = 0
                for Ai in (FORMATS[fmt](A), FORMATS[fmt](A.astype(int))):
                    for b in targets(kind, n):
                        for alpha in (0.0, 0.7):
                            for pat in ("weyl", "mod", "walk"):
                                # (SciPy itself cannot multiply by a dia matrix without diagonals)
                                judge(ctx, kind, Ai, A, b, alpha, gen.pattern(pat, p),
                                      hess=fmt != "dia" or bool(np.any(A)))
    elif what == "sweep":
        _, kind, sizes = case
        for n in sizes:
            for p in (1, 3) if n % 2 else (2, n):
                A = gen.pattern("weyl", n * p).reshape(n, p)
                for j, b in enumerate(targets(kind, n)):
                    for pat in ("weyl", "alt", "const"):
                        x = gen.pattern(pat, p) * (1.0, 30.0, 0.1)[j]
                        judge(ctx, kind, A if n % 3 else sparse.csr_matrix(A), A, b, (0.0, 0.3)[j % 2], x, 0.6)
    elif what == "calls":
        run_calls(ctx, *case[1:])
    elif what == "none":
        # no data matrix: the identity
        for n in (1, 2, 3, 6):
            for kind in ("log", "square"):
                for b in targets(kind, n):
                    for alpha in (0.0, 0.4):
                        judge(ctx, kind, None, np.eye(n), b, alpha, gen.pattern("weyl", n))
    elif what == "validate":
        A = np.ones((3, 2))
        for bad in ([0, 1, 2], [0, 1, -1], [0, 1, 1.0001], [-1e-9, 0, 0], [1.5, 0.5, 0.5], [-1, 1, 1], [0, 1], [0, 1, 0, 1], [0.5]):
            for f in (np.array, sparse.csr_matrix):
                try:
                    cp.loss.LogLoss(f(A), np.array(bad, dtype=float))
                except ValueError:
                    ctx.evaluation("bad", bad, f.__name__)
                else:
                    ctx.fail("logistic loss accepts targets %s for 3 samples" % bad)
        for good in ([0, 1, 1], [0.0, 0.5, 1.0], [0, 0, 0], [1, 1, 1]):
            cp.loss.LogLoss(A, np.array(good))
            ctx.evaluation("good", good)
