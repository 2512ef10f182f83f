"""C03: linear minimisation oracles."""
import itertools
import numpy as np
from mc.core import import_copt, show
from mc import gen

cp = import_copt()
C = cp.constraint
PROPERTY = "C03"
LEVEL = "exploration"
RULE = ("every direction u over a small alphabet (ties, zeros, all-negative included) x every feasible point "
        "of a small family x radius; for the pairwise oracle every active set (subset of vertices with distinct "
        "weights, any insertion order); plus every length up to 130. Non-trivial: u is not zero. Oracle: "
        "maximum of <u, s> over the set computed as r*dual norm; membership of x+d; the vertex named by the representation")
BOUNDS = {"quick": "u: words n<=4 over 5 letters; active sets: all non-empty subsets of the 2n vertices, n<=2, all orders of up to 3; lengths 1..130; all 2n vertices active up to n=40; spectra with clustered and tiny singular values",
          "thorough": "u: words n<=5 over 5 letters; active sets also n=3 (subsets of size <=4); lengths 1..300,1000"}
ASSUMPTIONS = ["finite directions; agreement up to 1e-9 relative"]


def cases(tier, seed):
    th = tier == "thorough"
    for n in range(1, 6 if th else 5):
        for a in range(5):
            yield ["lmo", n, a]
    for n in (1, 2) + ((3,) if th else ()):
        for r in (1.0, 2.5):
            yield ["pair", n, r]
    yield ["pairn", 3]
    for s, k in (((1, 1), 3), ((1, 2), 3), ((2, 1), 3), ((1, 4), 3), ((4, 1), 3), ((2, 2), 4), ((2, 3), 3), ((3, 2), 3), ((3, 3), 2)):
        for i in range(4 if s == (2, 3) or s == (3, 2) else 1):
            yield ["trace", list(s), k, i, 4 if s in ((2, 3), (3, 2)) else 1]
    for ch in gen.chunks(list(range(1, 301 if th else 131)) + ([1000] if th else [257]), 12):
        yield ["sweep", ch]
    for s in ((4, 5), (5, 4), (12, 7), (2, 30), (30, 3)):
        yield ["tracepat", list(s)]
    for n in (5, 6, 8, 12, 20):
        yield ["pairbig", n]
    for s in ((9, 9), (20, 30), (40, 12), (60, 60), (150, 200)):
        yield ["cluster", list(s)]


def judge_move(ctx, what, d, u, x, best, feas, tol, sc):
    d = np.asarray(d, dtype=float)
    ctx.require(d.shape == x.shape, lambda: "%s: shape %s" % (what, d.shape))
    s = x + d
    ctx.require(feas(s) <= tol * sc, lambda: "%s: x+d leaves the set by %g: %s" % (what, feas(s), show(s)))
    got = (u * s).sum()
    t = tol * (1 + np.abs(u).max()) * sc
    ctx.require(got >= best - t, lambda: "%s: <u,s>=%.12g but the maximum is %.12g (s=%s)" % (what, got, best, show(s)))
    return s


def l1_points(n, r):
    yield np.zeros(n)
    v = np.zeros(n)
    v[0] = r
    yield v
    v = np.zeros(n)
    v[-1] = -r
    yield v
    yield np.full(n, r / n) * np.where(np.arange(n) % 2, -1, 1)
    yield np.full(n, r / (2 * n))


def simplex_points(n, r):
    v = np.zeros(n)
    v[0] = r
    yield v
    v = np.zeros(n)
    v[-1] = r
    yield v
    yield np.full(n, r / n)


def l1_case(ctx, u, x, r, ball=None):
    ball = ball or C.L1Ball(r)
    n = u.size
    d, rep, away, mx = ball.lmo(u, x)
    what = "L1 oracle, u=%s x=%s r=%g" % (show(u), show(x), r)
    s = judge_move(ctx, what, d, u, x, r * np.abs(u).max(),
                   lambda s: max(0.0, np.abs(s).sum() - r), 1e-9, 1 + r)
    ctx.require(mx == 1, "%s: maximum step %s" % (what, mx))
    if np.any(u):
        check_rep(ctx, what, rep, s, r)
    ctx.evaluation("l1", u, x, r, nontrivial=bool(np.any(u)))


def check_rep(ctx, what, rep, s, r):
    sign, idx = rep
    hash(rep)
    e = np.zeros(s.size)
    e[idx] = sign * r
    ctx.close(s, e, 1e-9, "%s: vertex named %s" % (what, rep))


def simplex_case(ctx, u, x, r):
    con = C.SimplexConstraint(r)
    for res in (con.lmo(u, x), con.lmo(u, x, None)):
        d, rep, away, mx = res
        what = "simplex oracle, u=%s x=%s r=%g" % (show(u), show(x), r)
        s = judge_move(ctx, what, d, u, x, r * u.max(),
                       lambda s: max(abs(s.sum() - r), -s.min(), 0.0), 1e-9, 1 + r)
        ctx.require(mx == 1, "%s: maximum step %s" % (what, mx))
        hash(rep)
        e = np.zeros(s.size)
        e[rep] = r
        ctx.close(s, e, 1e-9, "%s: vertex named %s" % (what, rep))
    ctx.evaluation("sx", u, x, r, nontrivial=bool(np.any(u)))


def trace_case(ctx, U, X, r):
    ball = C.TraceBall(r, U.shape)
    u, x = U.ravel().copy(), X.ravel().copy()
    d, rep, away, mx = ball.lmo(u, x)
    what = "nuclear oracle, u=%s r=%g" % (U.tolist() if U.size < 13 else U.shape, r)
    top = np.linalg.svd(U, compute_uv=False)[0]
    got = float((u * (x + np.asarray(d))).sum())
    ctx.require(got >= r * top * (1 - 1e-9) - 1e-300, lambda: "%s: <u,s>=%.12g but the maximum is %.12g" % (what, got, r * top))
    judge_move(ctx, what, d, u, x, r * top,
               lambda s: max(0.0, np.linalg.svd(s.reshape(U.shape), compute_uv=False).sum() - r), 1e-9, 1 + r)
    ctx.require(mx == 1, "%s: maximum step %s" % (what, mx))
    ctx.evaluation("tr", U, X, r, nontrivial=bool(np.any(U)))


def pair_case(ctx, ball, u, active, n, r):
    """active: list of ((sign, idx), weight) in insertion order"""
    x = np.zeros(n)
    for (s_, i_), w in active:
        x[i_] += s_ * w * r
    a = dict(active)
    before = list(a.items())
    d, fw, aw, mx = ball.lmo_pairwise(u, x, a)
    what = "pairwise oracle, u=%s active=%s r=%g" % (show(u), active, r)
    ctx.require(list(a.items()) == before, "%s: active set modified" % what)
    ctx.require(aw in a, "%s: away vertex %s not active" % (what, aw))
    corr = {v: v[0] * u[v[1]] * r for v in a}
    ctx.require(corr[aw] <= min(corr.values()) + 1e-12, "%s: away vertex %s is not the least correlated" % (what, aw))
    ctx.require(mx == a[aw], "%s: maximum step %s instead of the weight of %s" % (what, mx, aw))
    av = np.zeros(n)
    av[aw[1]] = aw[0] * r
    d = np.asarray(d, dtype=float)
    s = d + av
    ctx.require(d.shape == (n,), "%s: shape" % what)
    ctx.require(np.abs(s).sum() <= r * (1 + 1e-9), lambda: "%s: target %s outside the set" % (what, show(s)))
    ctx.require((u * s).sum() >= r * np.abs(u).max() - 1e-9, lambda: "%s: target %s not optimal" % (what, show(s)))
    if np.any(u):
        check_rep(ctx, what, fw, s, r)
    ctx.evaluation("pw", u, str(active), r, nontrivial=bool(np.any(u)))


ALPHA = (-1.0, 0.0, 1.0, 2.0, -2.0)


def run(case, ctx):
    kind = case[0]
    if kind == "lmo":
        _, n, a = case
        for w in gen.words(ALPHA, n - 1):
            u = np.array((ALPHA[a],) + w)
            for r in (1.0, 0.3, 5.0):
                for x in l1_points(n, r):
                    l1_case(ctx, u, x, r)
                for x in simplex_points(n, r):
                    simplex_case(ctx, u, x, r)
    elif kind == "pair":
        _, n, r = case
        ball = C.L1Ball(r)
        verts = [(np.sign(s), i) for i in range(n) for s in (1.0, -1.0)]
        for k in range(1, min(len(verts), 4) + 1):
            wts = np.array([0.5, 0.25, 0.15, 0.1][:k])
            wts = wts / wts.sum()
            lists = [wts]
            for eps in (1e-6, 1e-9, 1e-12, 1e-15, 1e-100) if k > 1 else ():
                lists += [np.r_[eps, wts[1:]], np.r_[wts[1:], eps]]
            for wts, sub in itertools.product(lists, itertools.permutations(verts, k) if (k <= 3 and n <= 2) else itertools.combinations(verts, k)):
                for u in gen.words(ALPHA, n):
                    pair_case(ctx, ball, np.array(u), list(zip(sub, wts.tolist())), n, r)
    elif kind == "pairn":
        n = case[1]
        ball = C.L1Ball(1.0)
        verts = [(s, i) for i in range(n) for s in (1.0, -1.0)]
        for sub in itertools.permutations(verts, 2):
            for u in gen.words((-1.0, 0.0, 2.0), n):
                for wt in ((0.75, 0.25), (1 - 1e-11, 1e-11), (1e-16, 1.0)):
                    pair_case(ctx, ball, np.array(u), list(zip(sub, wt)), n, 1.0)
    elif kind == "trace":
        _, shape, k, part, parts = case
        m = shape[0] * shape[1]
        for i, w in enumerate(gen.words((0.0, 1.0, -2.0, 1e-3)[:k], m)):
            if i % parts != part:
                continue
            U = np.array(w).reshape(shape)
            trace_case(ctx, U, np.zeros(shape), 1.0 if i % 2 else 2.5)
    elif kind == "tracepat":
        r_, c_ = case[1]
        for p in gen.PATTERNS:
            U = gen.pattern(p, r_ * c_).reshape(r_, c_)
            X = np.zeros((r_, c_))
            X[0, 0] = 0.5
            for r in (0.5, 3.0):
                trace_case(ctx, U, X, r)
    elif kind == "pairbig":
        # all 2n vertices active (or all but the least correlated one), every rotation of the insertion order
        n = case[1]
        ball = C.L1Ball(2.0)
        verts = [(s, i) for i in range(n) for s in (1.0, -1.0)]
        for p in gen.PATTERNS:
            u = gen.pattern(p, n)
            for size in (2 * n, n + 1, 9):
                size = min(size, 2 * n)
                for rot in range(2 * n):
                    vs = (verts[rot:] + verts[:rot])[:size]
                    w = np.arange(1.0, size + 1)
                    w /= w.sum()
                    pair_case(ctx, ball, u, list(zip(vs, w.tolist())), n, 2.0)
    elif kind == "cluster":
        # leading singular values separated by every relative gap of a list
        r_, c_ = case[1]
        m = min(r_, c_)
        Q1 = np.linalg.qr(gen.pattern("weyl", r_ * r_).reshape(r_, r_) + np.eye(r_))[0][:, :m]
        Q2 = np.linalg.qr(gen.pattern("mod", c_ * c_).reshape(c_, c_) + 3 * np.eye(c_))[0][:, :m]
        for gap in (0.0, 1e-8, 1e-4, 1e-2, 0.05, 0.1, 0.3, 0.9):
            for decay in (1.0, 0.99, 0.9, 0.5):
                sv = (1 - gap) * decay ** np.arange(m)
                sv[0] = 1.0
                for unit in (1.0, 1e-5, 1e4, 1e-12, 1e-40, 1e12):
                    for r in (0.5, 3.0):
                        trace_case(ctx, (Q1 * (sv * unit)) @ Q2.T, np.zeros((r_, c_)), r)
    elif kind == "sweep":
        for n in case[1]:
            for p in gen.PATTERNS:
                u = gen.pattern(p, n)
                for r in (1.0, 4.2):
                    for x in l1_points(n, r):
                        l1_case(ctx, u, x, r)
                        l1_case(ctx, -u, x, r)
                    for x in simplex_points(n, r):
                        simplex_case(ctx, u, x, r)
                        simplex_case(ctx, -u - 0.1, x, r)
                if n > 1:
                    act = [((1.0, i), 1.0) for i in range(min(n, 6))]
                    tot = sum(j + 1 for j in range(len(act)))
                    act = [(v, (j + 1) / tot) for j, (v, _) in enumerate(act)]
                    pair_case(ctx, C.L1Ball(1.5), u, act, n, 1.5)
                    act = [((-1.0, n - 1 - i), w) for (_, i), w in act]
                    pair_case(ctx, C.L1Ball(1.5), u, act, n, 1.5)
