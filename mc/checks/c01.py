"""C01: proximal operators and values of the penalties."""
import itertools
import numpy as np
from scipy import optimize
from mc.core import import_copt, show
from mc import gen

cp = import_copt()
PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("every word over a small alphabet (ties, zeros and exact thresholds included) up to a length "
        "bound x every weight/step pair x every group structure or matrix shape, plus one vector per "
        "qualitative pattern for every length up to 130 (some larger) and magnitudes 1e-8..1e8; non-trivial: "
        "input not constant zero. Oracle: optimality conditions (dual certificate) of the proximal problem")
BOUNDS = {"quick": "words n<=6 (TV1D, alphabet 4), n<=4 (L1, 7), n<=4 groups; matrices up to 3x3; lengths 1..130,257,1000; magnitudes 1e-8..1e8; singular values just above, at and below the weight",
          "thorough": "words n<=8 (TV1D), n<=5 (L1), n<=6 groups; matrices up to 3x4; lengths 1..300,513,1000,2049"}
ASSUMPTIONS = ["finite inputs of magnitude at most 1e8", "agreement up to 1e-8 relative to the input's scale (1e-3 for float32)"]
STEPS = [(1.0, 1.0), (0.5, 0.4), (2.0, 1.5), (1e-3, 1.0), (1.0, 3.0), (0.0, 1.0), (10.0, 10.0)]


def cases(tier, seed):
    th = tier == "thorough"
    for n in range(1, (6 if th else 5)):
        for c in range(7):
            yield ["l1", n, c]
    for n in range(1, (7 if th else 5)):
        gs = list(gen.partial_partitions(n))
        for g in gen.chunks(gs, 4):
            yield ["group", n, g]
    for n in range(1, (9 if th else 7)):
        for first in range(4 if n > 3 else 1):
            for second in range(4 if n > 6 else 1):
                yield ["tv1", n, first if n > 3 else None, second if n > 6 else None]
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1)]
    for s in shapes:
        yield ["trace", list(s), 3]
    yield ["trace", [3, 3], 2]
    if th:
        yield ["trace", [3, 4], 2]
        yield ["trace", [4, 3], 2]
    for s in shapes:
        yield ["tv2", list(s), 3 if s[0] * s[1] <= 4 or th else 2]
    for k in range(4):
        yield ["tv2", [3, 3], 2, k]
    for s in [(4, 5), (5, 4), (7, 3), (2, 9), (9, 2), (1, 20), (20, 1), (8, 8), (6, 11)]:
        yield ["tv2pat", list(s)]
        yield ["tracepat", list(s)]
        yield ["rowscols", list(s)]
    yield ["tracepat", [30, 20]]
    yield ["tracepat", [3, 40]]
    sizes = list(range(1, 301 if th else 131)) + ([513, 1000, 2049] if th else [257, 1000])
    for ch in gen.chunks(sizes, 12):
        yield ["sweep", ch]
    for e in range(-8, 9):
        yield ["magn", e]
    for s in ((2, 2), (2, 3), (3, 2), (5, 4), (4, 9), (12, 12), (30, 7)):
        yield ["tracenear", list(s)]
    yield ["warn"]
    for size, k in ((6, 3), (12, 3), (20, 3), (20, 4), (30, 2)) + (((40, 4), (60, 5)) if tier == "thorough" else ()):
        yield ["local", size, k]


def tv1_ok(ctx, x, v, lam, tol, what):
    scale = 1 + np.abs(v).max() + lam
    x = np.asarray(x, dtype=float)
    v = np.asarray(v, dtype=float)
    ctx.require(x.shape == v.shape, "%s: shape %s" % (what, x.shape))
    ctx.require(np.all(np.isfinite(x)), lambda: "%s: non-finite %s" % (what, show(x)))
    u = -np.cumsum(v - x)
    t = tol * scale * (1 + 0.05 * v.size)
    ctx.require(abs(u[-1]) <= t, lambda: "%s: mean not preserved by %g for v=%s lam=%g: %s" % (what, u[-1], show(v), lam, show(x)))
    u = u[:-1]
    d = np.diff(x)
    ctx.require(np.all(np.abs(u) <= lam + t), lambda: "%s: dual infeasible for v=%s lam=%g: %s" % (what, show(v), lam, show(x)))
    ctx.require(np.all(lam * np.abs(d) - u * d <= t * scale), lambda: "%s: not optimal for v=%s lam=%g: %s" % (what, show(v), lam, show(x)))


def tv2_ref(v, lam, r, c):
    D = cp.tv_prox.tv2d_linear_operator(r, c)
    D = ref_tv2_operator(r, c)
    if D.shape[0] == 0 or lam == 0:
        return v.copy()
    res = optimize.lsq_linear(D.T, v, bounds=(-lam, lam), method="bvls", tol=1e-15, max_iter=2000)
    return v - D.T @ res.x


def ref_tv2_operator(r, c):
    rows = []
    for i in range(r):
        for j in range(c):
            for (k, l) in ((i + 1, j), (i, j + 1)):
                if k < r and l < c:
                    w = np.zeros((r, c))
                    w[i, j] = 1
                    w[k, l] = -1
                    rows.append(w.ravel())
    return np.array(rows).reshape(len(rows), r * c)


def l1_case(ctx, v, al, st):
    pen = cp.penalty.L1Norm(al)
    x = pen.prox(v, st)
    ctx.close(x, np.sign(v) * np.maximum(np.abs(v) - al * st, 0), 1e-10, "L1 prox of %s, weight %g" % (show(v), al * st))
    ctx.close(pen(v), al * np.abs(v).sum(), 1e-10, "L1 value")
    ctx.evaluation("l1", v, al, st, nontrivial=bool(np.any(v)))


def group_case(ctx, v, groups, al, st, pen=None):
    pen = pen or cp.penalty.GroupL1(al, groups)
    x = pen.prox(v, st)
    ref = np.array(v, dtype=float)
    val = 0.0
    for g in groups:
        nv = np.sqrt(sum(v[j] ** 2 for j in g))
        val += nv
        f = 1 - al * st / nv if nv > al * st else 0.0
        for j in g:
            ref[j] = f * v[j]
    ctx.close(x, ref, 1e-10, "group prox of %s, groups %s, weight %g" % (show(v), groups, al * st))
    ctx.close(pen(v), al * val, 1e-10, "group value")
    ctx.evaluation("gl", v, str(groups), al, st, nontrivial=bool(np.any(v)) and bool(groups))


def tv1_case(ctx, v, al, st, tol=1e-10):
    pen = cp.penalty.FusedLasso(al)
    tv1_ok(ctx, pen.prox(v, st), v, al * st, tol, "fused lasso prox")
    ctx.close(pen(v), al * np.abs(np.diff(v)).sum(), 1e-10, "fused lasso value")
    ctx.evaluation("tv1", v, al, st, nontrivial=bool(np.ptp(v)))


def trace_case(ctx, V, al, st):
    shape = V.shape
    pen = cp.penalty.TraceNorm(al, shape)
    x = np.asarray(pen.prox(V.ravel(), st))
    ctx.require(x.shape == (V.size,), "trace prox shape %s" % (x.shape,))
    X = x.reshape(shape)
    lam = al * st
    G = V - X
    sc = 1 + np.abs(V).max() * np.sqrt(V.size)
    sg = np.linalg.svd(G, compute_uv=False)
    nx = np.linalg.svd(X, compute_uv=False).sum()
    ctx.require(sg[0] <= lam + 1e-9 * sc, lambda: "trace prox of %s weight %g not optimal (dual norm %g): %s" % (V.tolist(), lam, sg[0], X.tolist()))
    ctx.require(lam * nx - (G * X).sum() <= 1e-8 * sc * sc * (1 + lam), lambda: "trace prox of %s weight %g not optimal: %s" % (V.tolist(), lam, X.tolist()))
    ctx.close(pen(V.ravel()), al * np.linalg.svd(V, compute_uv=False).sum(), 1e-9, "trace norm value")
    ctx.evaluation("tr", V, al, st, nontrivial=bool(np.any(V)))


def tv2_case(ctx, V, al, st):
    import warnings
    r, c = V.shape
    pen = cp.penalty.TotalVariation2D(al, (r, c), max_iter=4000, tol=1e-10)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        x = pen.prox(V.ravel(), st)
    ref = tv2_ref(V.ravel(), al * st, r, c)
    sc = 1 + np.abs(V).max()
    if w:
        ctx.count("tv2_warned")
    else:
        ctx.require(x.shape == ref.shape and np.abs(x - ref).max() <= 3e-6 * sc,
                    lambda: "TV2D prox of %s weight %g: %s instead of %s" % (V.tolist(), al * st, show(x), show(ref)))
    D = ref_tv2_operator(r, c)
    ctx.close(pen(V.ravel()), al * np.abs(D @ V.ravel()).sum(), 1e-10, "TV2D value")
    ctx.evaluation("tv2", V, al, st, nontrivial=bool(np.ptp(V)))


def run(case, ctx):
    kind = case[0]
    if kind == "l1":
        _, n, c = case
        al, st = STEPS[c]
        for w in gen.words((-2.0, -1.0, -0.2, 0.0, 0.2, 1.0, 3.0), n):
            l1_case(ctx, np.array(w), al, st)
    elif kind == "group":
        _, n, gs = case
        for groups in gs:
            for al, st in STEPS[:3] + STEPS[5:6]:
                variants = [groups, tuple(tuple(g) for g in groups), [np.array(g, dtype=int) for g in groups],
                            [range(g[0], g[-1] + 1) for g in groups]]
                for k, w in enumerate(gen.words((-2.0, 0.0, 1.0, 0.6), n)):
                    v = np.array(w)
                    pen = cp.penalty.GroupL1(al, variants[k % 4])
                    group_case(ctx, v, groups, al, st, pen)
    elif kind == "tv1":
        _, n, a, b = case
        alpha = (-1.0, 0.0, 1.0, 2.5)
        pre = [alpha[i] for i in (a, b) if i is not None]
        for w in gen.words(alpha, n - len(pre)):
            v = np.array(pre + list(w))
            for al, st in ((1.0, 0.25), (0.5, 1.0), (1.0, 1.0), (2.0, 0.75), (0.01, 0.1)):
                tv1_case(ctx, v, al, st)
    elif kind == "trace":
        _, shape, k = case
        for w in gen.words((-1.0, 0.0, 2.0)[-k:] if k == 3 else (0.0, 1.0), shape[0] * shape[1]):
            V = np.array(w).reshape(shape)
            for al, st in STEPS[:3]:
                trace_case(ctx, V, al, st)
    elif kind == "tv2":
        shape, k = case[1:3]
        for i, w in enumerate(gen.words((0.0, 1.0, 3.0)[:k], shape[0] * shape[1])):
            if len(case) > 3 and i % 4 != case[3]:
                continue
            V = np.array(w).reshape(shape)
            for al, st in ((0.5, 0.5), (1.0, 0.6)) if ctx.thorough else (((0.5, 0.5),) if i % 2 else ((1.0, 0.6),)):
                tv2_case(ctx, V, al, st)
    elif kind == "tv2pat":
        r, c = case[1]
        for p in ("weyl", "mod", "step", "spike", "inc", "const"):
            for al, st in ((0.5, 0.2), (1.0, 1.0)):
                tv2_case(ctx, gen.pattern(p, r * c).reshape(r, c), al, st)
    elif kind == "tracepat":
        r, c = case[1]
        for p in gen.PATTERNS:
            for al, st in STEPS:
                trace_case(ctx, gen.pattern(p, r * c).reshape(r, c), al, st)
    elif kind == "rowscols":
        r, c = case[1]
        for p in gen.PATTERNS:
            for lam in (0.2, 1.0, 3.0):
                a = gen.pattern(p, r * c)
                keep = a.copy()
                R = np.asarray(cp.tv_prox.prox_tv1d_rows(lam, a, r, c)).reshape(r, c)
                C = np.asarray(cp.tv_prox.prox_tv1d_cols(lam, a, r, c)).reshape(r, c)
                A = keep.reshape(r, c)
                for i in range(r):
                    tv1_ok(ctx, R[i], A[i], lam, 1e-9, "row-wise TV")
                for j in range(c):
                    tv1_ok(ctx, C[:, j], A[:, j], lam, 1e-9, "column-wise TV")
                ctx.evaluation("rc", a, lam)
        D = cp.tv_prox.tv2d_linear_operator(r, c)
        E = ref_tv2_operator(r, c)
        for p in gen.PATTERNS:
            v = gen.pattern(p, r * c)
            ctx.close(np.sort(np.abs(np.asarray(D) @ v)), np.sort(np.abs(E @ v)), 1e-12, "2-D difference operator")
    elif kind == "sweep":
        for n in case[1]:
            for p in gen.PATTERNS:
                v = gen.pattern(p, n)
                for al, st in STEPS[:5]:
                    l1_case(ctx, v, al, st)
                third = max(1, n // 3)
                for groups in ([list(range(n))], [list(range(0, third)), list(range(third, n))] if n > 1 else [[0]],
                               [[j] for j in range(min(n, 20))], [list(range(n // 2, n))]):
                    group_case(ctx, v, [g for g in groups if g], 0.7, 1.3)
                lams = ((0.3, 1.0), (2.0, 1.0), (0.5, 20.0)) if n <= 130 else ((0.7, 1.0),)
                for al, st in lams:
                    tv1_case(ctx, v, al, st, 1e-9)
                if p in ("weyl", "mod", "walk"):
                    x = cp.tv_prox.prox_tv1d(v.astype(np.float32), 0.6)
                    tv1_ok(ctx, x, v.astype(np.float32).astype(float), 0.6, 1e-4, "float32 TV")
    elif kind == "magn":
        for e in case[1:]:
            for p in gen.PATTERNS:
                for n in (1, 2, 5, 11, 66, 129) + ((257,) if e % 4 == 0 else ()):
                    v = gen.pattern(p, n) * 10.0 ** e
                    for f in (-2, 0, 1):
                        al = 10.0 ** (e + f) * 0.37
                        scaled(ctx, v, al, 10.0 ** e, n)
    elif kind == "tracenear":
        r, c = case[1]
        m = min(r, c)
        Q1 = np.linalg.qr(gen.pattern("weyl", r * r).reshape(r, r) + np.eye(r))[0][:, :m]
        Q2 = np.linalg.qr(gen.pattern("mod", c * c).reshape(c, c) + 3 * np.eye(c))[0][:, :m]
        for lam in (0.37, 2.0):
            for e in (0.0, 1e-12, -1e-12, 1e-9, 1e-8, -1e-8, 1e-7, 1e-6, -1e-6, 1e-5, 1e-4, 1e-3):
                for top in (0.0, 1e-7, 1e-3, 1.0, 50.0):
                    sv = lam + e + top * 0.5 ** np.arange(m)
                    sv[-1] = lam + e
                    sv = np.maximum(sv, 0.0)
                    for unit in (1.0, 1e-6, 1e6):
                        x = cp.penalty.TraceNorm(lam * unit, (r, c)).prox(((Q1 * sv) @ Q2.T).ravel() * unit, 1.0) / unit
                        ctx.close(x, ((Q1 * np.maximum(sv - lam, 0)) @ Q2.T).ravel(), 1e-10,
                                  lambda: "trace prox of a %d x %d matrix with singular values %s, weight %g, times %g" % (r, c, sv.tolist(), lam, unit))
                        ctx.evaluation("tracenear", r, c, lam, sv, unit)
    elif kind == "local":
        run_local(ctx, *case[1:])
    elif kind == "warn":
        # an exhausted 2-D iteration warns; a converged one does not differ from the minimiser
        import warnings
        for (r, c) in ((3, 3), (4, 5), (6, 4)):
            for unit in (1.0, 200.0, 1e4):
                V = gen.pattern("weyl", r * c).reshape(r, c) * unit
                for lam in (0.8, 0.8 * unit, 0.05 * unit):
                    ref = tv2_ref(V.ravel(), lam, r, c)
                    for tol in (1e-10, 1e-6, 1e-2):
                        if tol < 1e-12 * unit:
                            continue
                        for mi in (1, 2, 3, 5, 10, 40, 200, 4000):
                            pen = cp.penalty.TotalVariation2D(lam, (r, c), max_iter=mi, tol=tol)
                            with warnings.catch_warnings(record=True) as w:
                                warnings.simplefilter("always")
                                x = pen.prox(V.ravel(), 1.0)
                            e = np.abs(x - ref).max()
                            ctx.require(bool(w) or e < 10 * tol + 1e-8 * unit,
                                        lambda: "TV2D neither converged nor warned: shape %s, magnitude %g, weight %g, max_iter %d, tol %g: off by %.3g" % ((r, c), unit, lam, mi, tol, e))
                            ctx.evaluation("warn", r, c, mi, unit, lam, tol)


def run_local(ctx, size, k):
    """a large image whose pixels all decouple (steep checkerboard) except a k x k corner, which alone decides when the iteration has converged;
    the decoupled pixels have a closed form and the corner is a small problem of its own"""
    import warnings
    R = Cc = size
    for pat in ("weyl", "mod", "walk"):
        for lam in (0.05, 0.3, 0.8):
            V = 50.0 * (np.add.outer(np.arange(R), np.arange(Cc)) % 2)
            V[:k, :k] = 120 + gen.pattern(pat, k * k).reshape(k, k)
            shifted = V.copy()
            for i, j in itertools.product(range(R), range(Cc)):
                for di, dj in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                    a, b = i + di, j + dj
                    if 0 <= a < R and 0 <= b < Cc and not (i < k and j < k and a < k and b < k):
                        shifted[i, j] -= lam * np.sign(V[i, j] - V[a, b])
            ref = shifted.copy()
            ref[:k, :k] = tv2_ref(shifted[:k, :k].ravel(), lam, k, k).reshape(k, k)
            for tol in (1e-2, 1e-3, 1e-4, 1e-6, 1e-8):
                for mi in (1, 3, 10, 4000):
                    pen = cp.penalty.TotalVariation2D(lam, (R, Cc), max_iter=mi, tol=tol)
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter("always")
                        x = pen.prox(V.ravel(), 1.0)
                    e = np.abs(x - ref.ravel()).max()
                    ctx.require(bool(w) or e < 10 * tol + 1e-8,
                                lambda: "TV2D of a %d x %d image neither converged nor warned: corner %d x %d (%s), weight %g, max_iter %d, tol %g: off by %.3g" % (R, Cc, k, k, pat, lam, mi, tol, e))
                    ctx.evaluation("local", size, k, pat, lam, tol, mi)


def scaled(ctx, v, al, unit, n):
    """Same oracles in units of the input's magnitude."""
    x = cp.penalty.L1Norm(al).prox(v, 1.0) / unit
    ctx.close(x, np.sign(v) * np.maximum(np.abs(v) - al, 0) / unit, 1e-10, "L1 prox at magnitude %g" % unit)
    g = cp.penalty.GroupL1(al, [list(range(n))])
    nv = np.linalg.norm(v / unit) * unit
    ref = v / unit * (1 - al / nv) if nv > al else 0 * v
    ctx.close(g.prox(v, 1.0) / unit, ref, 1e-10, "group prox at magnitude %g" % unit)
    x = cp.penalty.FusedLasso(al).prox(v, 1.0)
    tv1_ok(ctx, x / unit, v / unit, al / unit, 1e-9, "fused lasso prox at magnitude %g" % unit)
    x = cp.penalty.TraceNorm(al, (1, n)).prox(v, 1.0) / unit
    ctx.close(x, ref, 1e-9, "trace prox at magnitude %g" % unit)
    ctx.evaluation("magn", v / unit, al / unit, unit, nontrivial=bool(np.any(v)))
