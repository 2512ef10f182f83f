"""C02: projections onto the constraint sets."""
import numpy as np
from mc.core import import_copt, show
from mc import gen

cp = import_copt()
C = cp.constraint
PROPERTY = "C02"
LEVEL = "exploration"
RULE = ("every word over an alphabet with ties, zeros, signs and points exactly on the boundary up to a length "
        "bound x every radius, plus one vector per qualitative pattern for every length up to 130 (some larger) and "
        "magnitudes 1e-8..1e8; non-trivial: the input lies outside the set (the projection moves it). Oracle: "
        "variational inequality <v - p, s - p> <= 0 for every s of the set, through the set's support function")
BOUNDS = {"quick": "words n<=5 over 6 letters, matrices up to 2x3 (3 letters) and 3x3 (2), lengths 1..130,257,1000; every input class moved to 1e-3..1e-12 inside and outside the boundary",
          "thorough": "words n<=6 over 7 letters, matrices up to 3x4, lengths 1..300,513,1000,2049"}
ASSUMPTIONS = ["finite inputs of magnitude at most 1e8 times the radius (beyond ~1e16 the simplex projection loses the radius to rounding)",
               "agreement up to 1e-9 relative to the input's scale"]
RADII = (1.0, 0.5, 2.0, 3.7, 1e-3, 10.0)


def cases(tier, seed):
    th = tier == "thorough"
    for n in range(1, 7 if th else 6):
        for a in range(7 if th else 6):
            yield ["words", n, a]
    for s, k in (((1, 1), 3), ((1, 2), 3), ((2, 1), 3), ((2, 2), 3), ((2, 3), 3), ((3, 2), 3), ((3, 3), 2)) + ((((3, 4), 2), ((4, 3), 2)) if th else ()):
        yield ["mats", list(s), k]
    for s in ((4, 5), (5, 4), (1, 9), (9, 1), (12, 7), (30, 20), (3, 40)):
        yield ["matpat", list(s)]
    sizes = list(range(1, 301 if th else 131)) + ([513, 1000, 2049] if th else [257, 1000])
    for ch in gen.chunks(sizes, 12):
        yield ["sweep", ch]
    for shape in ((2, 2), (3, 2), (3, 5), (6, 6), (20, 7)):
        yield ["spectra", list(shape)]
    yield ["magn"]
    yield ["indicator"]
    for name in ("linf", "l2", "l1", "simplex", "trace"):
        yield ["near", name]


def support(name, g, r):
    """max <g, s> over the set of radius r"""
    if name == "linf":
        return r * np.abs(g).sum()
    if name == "l2":
        return r * np.sqrt((g * g).sum())
    if name == "l1":
        return r * np.abs(g).max()
    if name == "simplex":
        return r * g.max()


def excess(name, p, r):
    """how far p is from satisfying the set's definition (0 inside)"""
    if name == "linf":
        return max(0.0, np.abs(p).max() - r)
    if name == "l2":
        return max(0.0, np.sqrt((p * p).sum()) - r)
    if name == "l1":
        return max(0.0, np.abs(p).sum() - r)
    if name == "simplex":
        return max(abs(p.sum() - r), -p.min(), 0.0)


def make(name, r):
    return {"linf": C.LinfBall, "l2": C.L2Ball, "l1": C.L1Ball, "simplex": C.SimplexConstraint}[name](r)


def judge(ctx, name, v, p, r, tol=1e-9):
    p = np.asarray(p, dtype=float)
    what = "%s projection of %s, radius %g" % (name, show(v), r)
    ctx.require(p.shape == v.shape, lambda: "%s: shape %s" % (what, p.shape))
    ctx.require(np.all(np.isfinite(p)), lambda: "%s: %s" % (what, show(p)))
    n = v.size
    sc = max(np.abs(v).max(), r)
    t = tol * sc * (1 + 0.02 * n)
    ctx.require(excess(name, p, r) <= t, lambda: "%s is infeasible by %g: %s" % (what, excess(name, p, r), show(p)))
    g = v - p
    vi = support(name, g, r) - (g * p).sum()
    ctx.require(vi <= t * max(sc, np.sqrt(n) * sc), lambda: "%s is not the nearest point (%g): %s" % (what, vi, show(p)))
    inside = excess(name, v, r) == 0.0 and (name != "simplex")
    if name == "simplex" and excess(name, v, r) == 0.0:
        inside = True
    if inside:
        ctx.require(np.abs(p - v).max() <= 1e-12 * sc, lambda: "%s: feasible input changed to %s" % (what, show(p)))
    ctx.evaluation(name, v, r, nontrivial=not inside)


def all_sets(ctx, v, r, step=1.0):
    for name in ("linf", "l2", "l1", "simplex"):
        judge(ctx, name, v, make(name, r).prox(v, step), r)
    ctx.close(C.euclidean_proj_simplex(v, r), make("simplex", r).prox(v, 1.0), 1e-12, "euclidean_proj_simplex")
    ctx.close(C.euclidean_proj_l1ball(v, r), make("l1", r).prox(v, 1.0), 1e-12, "euclidean_proj_l1ball")
    if r == 1:
        # the documented default radius
        ctx.close(C.SimplexConstraint().prox(v, step), C.SimplexConstraint(1.0).prox(v, step), 1e-12, "simplex of default radius")
        ctx.close(C.euclidean_proj_simplex(v), C.SimplexConstraint(1.0).prox(v, step), 1e-12, "euclidean_proj_simplex with default radius")
        ctx.close(C.euclidean_proj_l1ball(v), C.L1Ball(1.0).prox(v, step), 1e-12, "euclidean_proj_l1ball with default radius")


def trace_case(ctx, V, r):
    ball = C.TraceBall(r, V.shape)
    p = np.asarray(ball.prox(V.ravel(), 1.0))
    what = "nuclear ball projection of %s, radius %g" % (V.tolist() if V.size < 13 else V.shape, r)
    ctx.require(p.shape == (V.size,), "%s: shape %s" % (what, p.shape))
    P = p.reshape(V.shape)
    sc = max(r, np.abs(V).max() * np.sqrt(V.size))
    nuc = np.linalg.svd(P, compute_uv=False).sum()
    ctx.require(nuc <= r + 1e-8 * sc, lambda: "%s infeasible (%g)" % (what, nuc))
    G = V - P
    vi = r * np.linalg.svd(G, compute_uv=False)[0] - (G * P).sum()
    ctx.require(vi <= 1e-8 * sc * sc, lambda: "%s is not the nearest point (%g): %s" % (what, vi, P.tolist()))
    nv = np.linalg.svd(V, compute_uv=False).sum()
    if nv <= r:
        ctx.close(P, V, 1e-8 * sc, "%s: feasible input changed" % what)
    if sc < 10:
        # (documented by the tests: the indicator forgives rounding of the size of a float32)
        ctx.require(ball(p) == 0, lambda: "%s: the projection is outside according to the indicator" % what)
    if abs(nv - r) > 1e-5 * sc:
        ctx.require(ball(V.ravel()) == (0 if nv < r else np.inf), "%s: indicator %s" % (what, ball(V.ravel())))
    ctx.evaluation("trace", V, r, nontrivial=nv > r)


def run_spectra(ctx, r_, c_):
    """matrices of known singular values, down to 1e-14 of the largest, inside and outside the ball: the projection acts on the singular values"""
    m = min(r_, c_)
    Q1 = np.linalg.qr(gen.pattern("weyl", r_ * r_).reshape(r_, r_) + np.eye(r_))[0][:, :m]
    Q2 = np.linalg.qr(gen.pattern("mod", c_ * c_).reshape(c_, c_) + 3 * np.eye(c_))[0][:, :m]
    for tiny in (0.0, 1e-14, 1e-12, 1e-10, 1e-8, 1e-7, 1e-6, 1e-5, 1e-3, 0.1, 1.0):
        for k in range(1, m + 1):
            if k not in (1, 2, m // 2, m - 1, m):
                continue
            sv = np.where(np.arange(m) < k, 1.0 - 0.1 * np.arange(m) / m, tiny)
            nuc = sv.sum()
            radii = [2 * nuc, nuc * (1 + 1e-9), 0.5 * nuc, 0.01]
            # thresholds that leave the tiny values barely positive, or exactly cut them
            for theta in (tiny / 2, tiny, tiny * 0.999):
                if theta > 0:
                    radii.append(float(np.maximum(sv - theta, 0).sum()))
            for unit in (1.0, 1e-6, 1e5):
                for rad in radii:
                    if rad < 1e-9:
                        continue
                    s = sv if nuc <= rad else None
                    if s is None:
                        # threshold by bisection on the sorted values
                        d = np.sort(sv)[::-1]
                        cs = (np.cumsum(d) - rad) / np.arange(1, m + 1)
                        s = np.maximum(sv - cs[np.nonzero(d > cs)[0][-1]], 0)
                    V = (Q1 * (sv * unit)) @ Q2.T
                    P = np.asarray(C.TraceBall(rad * unit, (r_, c_)).prox(V.ravel(), 1.0)).reshape(r_, c_)
                    ctx.require(np.abs(P / unit - (Q1 * s) @ Q2.T).max() <= 2e-14 * m * max(1.0, rad),
                                lambda: "nuclear ball projection of a %d x %d matrix with singular values %s times %g, radius %g: off by %.3g" % (
                                    r_, c_, show(sv), unit, rad * unit, unit * np.abs(P / unit - (Q1 * s) @ Q2.T).max()))
                    ctx.evaluation("spectra", r_, c_, sv, unit, rad, nontrivial=nuc > rad)


def run(case, ctx):
    kind = case[0]
    alphabet = (0.0, 1.0, -1.0, 0.5, 2.0, -0.25, 0.125)
    if kind == "words":
        _, n, a = case
        letters = alphabet if ctx.thorough else alphabet[:6]
        for w in gen.words(letters, n - 1):
            v = np.array((letters[a],) + w)
            for r in RADII[:4] if n > 3 else RADII:
                all_sets(ctx, v, r, 0.3)
    elif kind == "mats":
        _, shape, k = case
        for w in gen.words((0.0, 1.0, -1.5)[:k], shape[0] * shape[1]):
            for r in (1.0, 0.5, 3.0):
                trace_case(ctx, np.array(w).reshape(shape), r)
    elif kind == "matpat":
        r_, c_ = case[1]
        for p in gen.PATTERNS:
            V = gen.pattern(p, r_ * c_).reshape(r_, c_)
            nuc = np.linalg.svd(V, compute_uv=False).sum()
            for r in (1.0, 0.1, 0.5 * nuc + 0.01, 1.5 * nuc + 0.01):
                trace_case(ctx, V, r)
    elif kind == "sweep":
        for n in case[1]:
            for p in gen.PATTERNS:
                v = gen.pattern(p, n)
                s = np.abs(v).sum()
                for r in (1.0, 0.37, 0.5 * s + 0.1, 1.25 * s + 0.1, float(np.abs(v).max()) + 0.05, 7.0):
                    all_sets(ctx, v, r)
                # already feasible for the simplex
                w = np.abs(v) + 0.01
                w /= w.sum()
                judge(ctx, "simplex", w, make("simplex", 1.0).prox(w, 1.0), 1.0)
    elif kind == "spectra":
        run_spectra(ctx, *case[1])
    elif kind == "magn":
        for e in range(-8, 9):
            for p in gen.PATTERNS:
                for n in (1, 2, 5, 11):
                    v = gen.pattern(p, n) * 10.0 ** e
                    for r in (1.0, 10.0 ** e, 2.5 * 10.0 ** e):
                        if max(1.0, np.abs(v).max()) / r <= 1e8:
                            all_sets(ctx, v, r)
    elif kind == "near":
        # inputs barely outside (or inside) the set: no relative slack
        name = case[1]
        for n in (1, 2, 3, 6, 40):
            for p in gen.PATTERNS:
                v = gen.pattern(p, n)
                if name == "simplex":
                    v = np.abs(v)
                nu = {"linf": np.abs(v).max(), "l2": np.linalg.norm(v)}.get(name, np.abs(v).sum())
                if name == "trace":
                    nu = np.linalg.norm(v)
                if nu == 0:
                    continue
                for r in (1e-3, 1.0, 42.0):
                    for e in range(-1, -13, -1):
                        for sign in (1, -1):
                            w = v / nu * r * (1 + sign * 10.0 ** e)
                            if name != "trace":
                                judge(ctx, name, w, make(name, r).prox(w, 1.0), r, 1e-11)
                            elif n > 1:
                                P = np.asarray(C.TraceBall(r, (1, n)).prox(w, 1.0))
                                ctx.require(np.abs(P - w / max(1.0, np.linalg.norm(w) / r)).max() <= 1e-11 * r,
                                            lambda: "nuclear ball projection of %s, radius %g: %s" % (show(w), r, show(P)))
                                ctx.evaluation("near", w, r, nontrivial=sign > 0)
    elif kind == "indicator":
        for n in range(1, 6):
            for w in gen.words((0.0, 0.25, -0.5, 1.0), n):
                v = np.array(w)
                for r in (0.25, 0.5, 1.0, 1.75):
                    want = 0 if np.abs(v).sum() <= r else np.inf  # exact in binary
                    got = C.L1Ball(r)(v)
                    ctx.require(got == want, lambda: "L1 indicator of %s radius %g: %s" % (show(v), r, got))
                    ctx.evaluation("ind", v, r, nontrivial=want != 0)
