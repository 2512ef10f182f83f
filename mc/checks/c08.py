"""C08: Frank-Wolfe progress and certificate."""
import itertools
import numpy as np
from mc.core import import_copt, show
from mc import ref
from mc.checks.c07 import make_set, starts_of

cp = import_copt()
PROPERTY = "C08"
LEVEL = "exploration"
TECHNIQUE = ("bounded-exhaustive exploration: every problem over a grid x set x start vertex x step rule is run on the real "
             "solver and each visited point is compared with the reference optimum and the method's rate")
RULE = ("problems: all quadratics over a family of curvature matrices (identity, ill-scaled, singular, zero) x linear terms "
        "over a grid, Huber, logistic and squared fits; sets: L1 ball, simplex, nuclear-norm ball, and harness-owned pairwise "
        "simplex; starts: all vertices and interior points; step rules: backtracking (three ways of giving the "
        "estimate), Demyanov-Rubinov, oblivious, exact line search. Non-trivial: the start is not optimal. Every iterate is judged")
BOUNDS = {"quick": "n=2,3,4; the length of every move for the documented rules (120 iterations; 6 estimates) and every word of 3 caller-chosen lengths out of 7; linear terms over 3 letters; 60 iterations for the rate, up to 3000 for reaching 1e-4; radii 1..40",
          "thorough": "linear terms over 5 letters; 400 iterations for the rate, up to 20000 for reaching 1e-5"}
ASSUMPTIONS = ["the backtracking bound is the O(1/k) bound with the estimate's growth factor and the documented float32 slack per step",
               "reference optimum by accelerated projected gradient with certified residual"]
EPS = np.finfo(np.float32).eps


def problems(n, th):
    qs = {2: [np.eye(2), np.diag([5.0, 0.1]), np.array([[1.0, 1], [1, 1]]), np.zeros((2, 2)), np.array([[2.0, -1.2], [-1.2, 1.0]])],
          3: [np.eye(3), np.diag([3.0, 1, 0]), np.array([[2.0, 1, 0], [1, 2, -1], [0, -1, 1.5]])],
          4: [np.eye(4), np.diag([2.0, 0.5, 0, 1])]}[n]
    al = (-1.5, 0.2, 0.9) if not th else (-1.5, 0.2, 0.9, 0.0, 3.0)
    if n == 2:
        cs = list(itertools.product(al, repeat=2))
    elif n == 3:
        cs = list(itertools.product(al[:3], repeat=3))[:: (2 if th else 4)] + [(0.0, 0.0, 0.0)]
    else:
        cs = [(0.4, -0.3, 0.1, 0.2), (2.0, 0, 0, -1), (0.05, 0.05, 0.4, -0.4)]
    for i, Q in enumerate(qs):
        for c in cs:
            yield ["quad", Q.tolist(), list(c)]


def fits(n, th):
    As = {2: [[[1, 0], [0, 1]], [[1, 2], [3, -1], [0.5, 0.5]], [[1, 1], [2, 2]]],
          3: [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 2, 0], [0, 1, -1]], [[1, -1, 0.5], [2, 0, 1], [0, 1, 1], [1, 1, 1]]],
          4: [[[1, 0, 0, 1], [0, 1, -1, 0]]]}[n]
    for A in As:
        m = len(A)
        for kind in ("log", "square", "huber"):
            for b in ((1, 0, 1, 1), (0, 0, 1, 0)) if kind == "log" else ((0.4, 0, -2.0, 1), (1, -1, 0.3, 0.2)):
                for delta in (0.01, 1.0) if kind == "huber" else (1.0,):
                    for al in (0.0, 0.1) if th else (0.0,):
                        yield [kind, A, list(b[:m]), al, delta]


STEPS = ["bt", "btL", "btlow", "btzero", "DR", "sublinear", "exact"]
SETS = [("l1", 1.0, 2), ("l1", 3.0, 2), ("l1", 1.0, 3), ("simplex", 1.0, 2), ("simplex", 2.0, 3), ("trace", 1.0, 4),
        ("l1pair", 1.0, 2), ("l1pair", 2.0, 3), ("spair", 1.0, 3), ("spair", 2.0, 2), ("simplex", 25.0, 2), ("spair", 40.0, 3)]


def cases(tier, seed):
    th = tier == "thorough"
    for s in SETS:
        for rule in ("sublinear", "DR", "callable"):
            yield [list(s), ["rule", rule]]
        probs = list(problems(s[2], th)) + list(fits(s[2], th))
        for p in probs:
            yield [list(s), p]


def line_min(f, x, d, hi):
    """minimiser of the convex f along x + t d, t in [0, hi], by bisection on the slope"""
    slope = lambda t: float(f.grad(x + t * d) @ d)
    if slope(hi) <= 0:
        return hi
    a, b = 0.0, hi
    for _ in range(60):
        c = (a + b) / 2
        if slope(c) > 0:
            b = c
        else:
            a = c
    return (a + b) / 2


def diameter2(name, r, n):
    # squared Euclidean diameter of the set
    return {"l1": 4 * r * r, "l1pair": 4 * r * r, "simplex": 2 * r * r, "spair": 2 * r * r, "trace": 4 * r * r}[name]


LENGTHS = (0.3, 0.9995, 1 - 1e-12, 1.0, 1e-3, 1e-12, 0.0)


def rules(ctx, case, name, r, n, rule):
    """every move has the length its rule prescribes: the documented 2/(k+2), the Demyanov-Rubinov length for every estimate, or whatever the
    caller's function answers (every word of 3 answers)"""
    lmo, T, verts = make_set(name, r, n)
    pw = name.endswith("pair")
    fs = [spec for spec in list(problems(n, False))[::3] + list(fits(n, False))[::3]]
    for spec in fs:
        f = ref.smooth(spec)
        fun = lambda x: (f.value(x), f.grad(x))
        for x0, rep in starts_of(name, verts, r, n):
            if rule == "sublinear":
                jobs = [(None, {}, 120)] if not pw else []
            elif rule == "DR":
                jobs = [(None, {"lipschitz": max(f.L, 1e-9) * q}, 40) for q in (1.0, 0.5, 0.03, 1.01, 4.0, 100.0)]
            else:
                words = list(itertools.product(LENGTHS, repeat=3)) if spec is fs[0] else [tuple(np.roll(LENGTHS, k)) for k in range(len(LENGTHS))]
                jobs = [(w, {}, len(w)) for w in words]
            for word, kw, lim in jobs:
                log = []
                gam = []

                def watched(u, x, active):
                    out = lmo(u, x, active)
                    log.append((np.array(x, dtype=float), np.array(u, dtype=float), np.array(out[0], dtype=float), float(out[3])))
                    return out

                def st(d):
                    g = word[len(gam)]
                    if pw:
                        g = g * log[-1][3]
                    gam.append(g)
                    return g

                what = lambda: "%s r=%g, %s, x0=%s, %s steps %s %s" % (name, r, spec, show(x0), rule, kw, word or "")
                res = cp.minimize_frank_wolfe(fun, x0, watched, x0_rep=rep, variant="pairwise" if pw else "vanilla",
                                              step=st if rule == "callable" else rule, max_iter=lim, tol=0, **kw)
                pts = [q[0] for q in log] + [np.array(res.x)]
                for k, (x, u, d, mx) in enumerate(log):
                    if rule == "sublinear":
                        g = 2.0 / (k + 2)
                    elif rule == "DR":
                        g = min(float(u @ d) / (float(d @ d) * kw["lipschitz"]), mx) if np.any(d) else 0.0
                    elif k < len(gam):
                        g = gam[k]
                    if u @ d <= 0 and k == len(log) - 1:
                        g = 0.0  # stopped here
                    err = np.abs(pts[k + 1] - x - g * d).max()
                    ctx.require(err <= 1e-12 * (1 + r), lambda: "%s: iteration %d moves from %s to %s instead of by %.17g times %s" % (
                        what(), k, show(x), show(pts[k + 1]), g, show(d)))
                    ctx.step()
                ctx.state(name, r, spec, x0, rule, kw, word)
                ctx.evaluation(name, r, spec, x0, rule, str(kw), word)


def run(case, ctx):
    (name, r, n), spec = case
    if spec[0] == "rule":
        return rules(ctx, case, name, r, n, spec[1])
    th = ctx.thorough
    f = ref.smooth(spec)
    lmo, T, verts = make_set(name, r, n)
    pw = name.endswith("pair")
    xs, res = ref.solve2(f, T, n, iters=20000)
    fs = f.value(xs)
    # certify the reference by its own Frank-Wolfe gap
    g = f.grad(xs)
    if name.startswith("l1"):
        gap = g @ xs + r * np.abs(g).max()
    elif name.startswith("s"):
        gap = g @ xs - r * g.min()
    else:
        gap = g @ xs + r * np.linalg.svd(g.reshape(2, 2), compute_uv=False)[0]
    fs_low = fs - max(gap, 0)
    if gap > 1e-6:
        raise AssertionError("reference not certified")
    D2 = diameter2(name, r, n)
    for si, (x0, rep) in enumerate(starts_of(name, verts, r, n)):
        for step in STEPS:
            if pw and step == "sublinear":
                continue
            one(ctx, case, name, r, n, f, lmo, x0, rep, step, pw, fs, fs_low, D2, th)


def setup(f, lmo, step):
    last = [None]
    pts = []

    def watched(u, x, active):
        pts.append(np.array(x, dtype=float))
        last[0] = (np.array(x, dtype=float),) + tuple(lmo(u, x, active))
        return last[0][1:]

    kw = {}
    Lup = f.L
    if step == "exact":
        def st(d):
            x, dirn, _, _, mx = last[0]
            return line_min(f, x, dirn, mx)
    elif step == "DR":
        st = "DR"
        kw["lipschitz"] = max(f.L, 1e-9)
    elif step == "sublinear":
        st = "sublinear"
    else:
        st = "backtracking"
        if step == "btL":
            kw["lipschitz"] = max(f.L, 1e-9)
        elif step == "btlow":
            kw["lipschitz"] = max(f.L, 1e-3) / 64
        elif step == "btzero":
            kw["lipschitz"] = 1e-12
        Lup = 2 * max(f.L, 1e-9)
    return watched, pts, st, kw, Lup


def one(ctx, case, name, r, n, f, lmo, x0, rep, step, pw, fs, fs_low, D2, th):
    what = "%s r=%g, %s, x0=%s, step %s" % (name, r, case[1], show(x0), step)
    fun = lambda x: (f.value(x), f.grad(x))
    f0 = f.value(x0)
    # ---- rate
    K = 400 if th else 60
    if not pw:
        watched, pts, st, kw, Lup = setup(f, lmo, step)
        out = cp.minimize_frank_wolfe(fun, x0, watched, x0_rep=rep, step=st, max_iter=K, tol=0, **kw)
        pts.append(out.x)
        sc = 1e-9 * (1 + abs(fs))
        for k in range(1, len(pts)):
            h = f.value(pts[k]) - fs
            bound = 2 * Lup * D2 / (k + 2) + sc + (k + 2) * EPS * (step[:2] == "bt")
            if step[:2] != "sub":
                bound = min(bound, max(0.0, f0 - fs) + sc + k * EPS) if step != "sublinear" else bound
            if h > bound:
                ctx.fail("%s: objective error %.3g after %d iterations exceeds the bound %.3g" % (what, h, k, bound))
            ctx.state(pts[k])
            ctx.step()
    # ---- tolerance
    if pw or step in ("bt", "DR", "exact"):
        tol = (1e-4 if not th else 1e-5) * (1 if r < 10 else r * r)
        if not pw:
            tol = 0.05 * max(f.L, 0.02) * D2
        elif case[1][0] == "huber":
            # kinks: only the sublinear rate holds
            tol = 0.01 * f.L * D2
        if step[:2] == "bt":
            # below this the documented float32 slack of the line search decides
            tol = max(tol, 5 * np.sqrt(2 * max(f.L, 0.02) * D2 * EPS))
        watched, pts, st, kw, Lup = setup(f, lmo, step)
        maxit = 3000 if not th else 20000
        out = cp.minimize_frank_wolfe(fun, x0, watched, x0_rep=rep, variant="pairwise" if pw else "vanilla",
                                      step=st, max_iter=maxit, tol=tol, **kw)
        cert = float(out.certificate)
        err = f.value(out.x) - fs
        if cert <= tol:
            ctx.require(err <= max(cert, 0) + 1e-9 * (1 + abs(fs)),
                        lambda: "%s: certificate %.3g but the objective error is %.3g" % (what, cert, err))
            # (the weaker side: no better than float allows)
            ctx.require(cert >= -1e-9, lambda: "%s: negative certificate %g" % (what, cert))
        else:
            ctx.fail("%s: certificate %.3g after %d iterations, tolerance %.3g never reached (objective error %.3g)" % (what, cert, maxit, tol, err))
        ctx.count("tolerance_runs")
        ctx.count("iterations_to_tolerance", len(pts))
    else:
        # stops on a loose tolerance
        watched, pts, st, kw, Lup = setup(f, lmo, step)
        tol = 0.2 * max(f.L, 0.02) * D2
        out = cp.minimize_frank_wolfe(fun, x0, watched, x0_rep=rep, step=st, max_iter=K, tol=tol, **kw)
        cert = float(out.certificate)
        err = f.value(out.x) - fs
        if cert <= tol:
            ctx.require(err <= max(cert, 0) + 1e-9 * (1 + abs(fs)),
                        lambda: "%s: certificate %.3g but the objective error is %.3g" % (what, cert, err))
    ctx.evaluation(what, nontrivial=f0 - fs > 1e-9)
