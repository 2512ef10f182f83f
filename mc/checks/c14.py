"""C14: stochastic Frank-Wolfe, every batch draw, in lock-step with a dense model of each variant."""
import itertools
import numpy as np
from scipy import sparse
from mc.core import import_copt, show
from mc import ref, vr
from mc.draws import Draws, answering
from mc.checks.c07 import SimplexPair, judge_active, make_set

cp = import_copt()
PROPERTY = "C14"
LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking: the harness answers every batch draw, enumerates all of them, owns the linear oracle and "
             "compares every direction asked of it and every iterate with a dense reference model of the variant")
BOUNDS = {
    "quick": "4 variants x 3 step rules x {l1, simplex, pairwise l1, pairwise simplex}; 2-4 samples, 2-3 features, batch sizes 1, 2, "
             "all; all draws of 2 epochs (729 for 3 samples; for batches of 2 out of 4: 1296); losses square, logistic, and one with wild derivatives; "
             "integral data in 14 representations, all draws of one epoch; walks of several epochs on larger instances, also with exactly vanishing derivatives and scaled data",
    "thorough": "all draws of 3 epochs for 2 samples, 2 epochs for 4 single samples, more matrices"}
ASSUMPTIONS = ["agreement with the model up to 1e-9", "the MHK aggregate is the per-sample running mean of the derivatives"]

MATS = [
    [[1.0, -2.0], [0.5, 1.0]],
    [[1.0, 0.0], [0.0, 0.0], [-1.5, 2.0]],
    [[1.0, -2.0, 0.5], [0.0, 1.5, 0.0], [-0.7, 0.0, 2.0]],
    [[1.0, 2.0], [0.0, 1.0], [-1.0, 0.5], [2.0, 0.0]],
    [[1.0, 2.0], [-1.0, 0.5], [0.7, 0.0]],
]
TARGET = np.array([1.0, -0.5, 2.0, 0.25])


def deriv(kind):
    if kind == "square":
        return lambda p, y: p - y
    if kind == "hinge":
        return lambda p, y: np.maximum(p - y, 0.0)  # exactly zero on a half-line
    if kind == "log":
        return lambda p, y: 0.5 * (1 + np.tanh(p / 2)) - np.clip(y, 0, 1)
    return lambda p, y: 5 * np.sin(3 * p + 5 * y)


def cases(tier, seed):
    th = tier == "thorough"
    for mi in range(len(MATS)):
        m = len(MATS[mi])
        for bs in sorted({1, 2, m}):
            if not th and (mi, bs) == (4, 1):
                continue
            for variant in ("SAG", "SAGA", "MHK", "LF"):
                for step in ("sublinear", "DR", "callable"):
                    for name in ("l1", "simplex", "l1pair", "spair"):
                        yield [mi, bs, variant, step, name]
    for variant in ("SAG", "SAGA", "MHK", "LF"):
        for step in ("sublinear", "DR", "callable"):
            yield ["types", variant, step]
    for m, n in ((7, 4), (12, 6), (30, 5), (9, 40)) + (((70, 12), (130, 3)) if th else ()):
        for variant in ("SAG", "SAGA", "MHK", "LF"):
            yield ["long", m, n, variant]


def draws_per_epoch(m, bs):
    if bs == 1:
        return list(itertools.product(range(m), repeat=m))
    one = [list(c) for c in itertools.combinations(range(m), bs)]
    # also one batch listed in another order
    one.append(one[0][::-1])
    return [tuple(map(tuple, c)) for c in itertools.product(one, repeat=m // bs)]


class ModelSfw:
    def __init__(self, A, b, x0, variant, step, bs, f, lip):
        self.A, self.b, self.x = A, b, x0.copy()
        self.m, self.n = A.shape
        self.variant, self.stepname, self.bs, self.f, self.lip = variant, step, bs, f, lip
        self.dual = np.zeros(self.m)
        self.t = 0
        self.sigma = A @ x0

    def sizes(self):
        t = self.t
        if self.stepname == "callable":
            return 1.0 / (t + 3), 0.5 / (1 + t)
        if self.variant in ("SAG", "SAGA"):
            return 2.0 / (t + 2), None
        if self.variant == "MHK":
            g = 2.0 / (t + 8)
            return g, g ** (2 / 3)
        q = self.m / self.bs
        return 2 * (2 * q + t) / ((t + 1) * (4 * q + t)), 2 * q / (2 * q + t + 1)

    def agg(self):
        return self.A.T @ self.dual

    def direction(self, batch):
        """what the oracle must be asked; for LF before the samples are seen"""
        self.gx, self.ga = self.sizes()
        Ab, bb = self.A[batch], self.b[batch]
        if self.variant == "LF":
            return -self.agg()
        old = self.dual[batch].copy()
        new = self.f(Ab @ self.x, bb)
        if self.variant == "MHK":
            self.dual[batch] = old + self.ga * (new - old)
            return -self.agg()
        self.dual[batch] = new / self.m
        if self.variant == "SAG":
            return -self.agg()
        return -(self.agg() + (self.m / len(batch) - 1) * (Ab.T @ (self.dual[batch] - old)))

    def move(self, batch, d, mx):
        if self.variant == "LF":
            s = d + self.x
            Ab = self.A[batch]
            self.sigma[batch] = self.sigma[batch] + self.ga * (Ab @ s - self.sigma[batch])
            self.dual[batch] = self.f(self.sigma[batch], self.b[batch]) / self.m
        g = self.gx
        if self.stepname == "DR":
            c = -self.agg() @ d
            g = min(c / ((d @ d) * self.lip), mx) if c > 0 else 0.0
        self.x = self.x + g * d
        self.t += 1
        return g


def types(ctx, case):
    """integral data in every number type and sparse layout"""
    _, variant, step = case
    for k, V in enumerate((vr.INTEGRAL[:3, :2], np.array([[1, 1], [0, 0], [0, 1]]))):
        for name in ("l1", "spair"):
            _, T, verts = make_set(name, 1.5, 2)
            rep0, x0 = next(iter(verts.items()))
            for ti, (rep, As, b) in enumerate(vr.typed(V, vr.INT_TARGETS[:3])):
                for bs in (1, 3):
                    per = draws_per_epoch(3, bs)
                    for seq in itertools.product(per, repeat=1 if bs == 1 else 2):
                        one(ctx, case, V.astype(float), 3, 2, bs, variant, step, name, name.endswith("pair"), 1.5, T, verts,
                            "log" if (ti + k) % 2 else "square", (x0, rep0), seq, rep, As, b)


def long_walk(ctx, case):
    """larger instances, batch sizes that do not divide the number of samples, more epochs, families of draws"""
    _, m, n, variant = case
    A, b = vr.big(m, n)
    As = sparse.csr_matrix(A)
    epochs = 9 if m < 20 else 4
    for step in ("sublinear", "DR", "callable"):
        for name in ("l1", "simplex", "l1pair", "spair"):
            _, T, verts = make_set(name, 1.5, n)
            keys = list(verts)
            for bs in sorted({1, 2, 3, m - 1, m} if ctx.thorough else {1, 3, m}):
                for fam in range(3):
                    def draw(e, k):
                        if fam == 0:
                            return (e * m + k) % m
                        if fam == 1:
                            return (m - 1 - k + 3 * e) % m
                        return (k * k + e) % m if bs == 1 else (k * (5 if m % 5 else 7) + e) % m
                    if bs == 1:
                        seq = tuple(tuple(draw(e, k) for k in range(m)) for e in range(epochs))
                    else:
                        seq = tuple(tuple(tuple(draw(e + j, (j * bs + i)) for i in range(bs)) for j in range(m // bs)) for e in range(epochs))
                    rep0 = keys[(fam + bs) % len(keys)]
                    for kind in ("square", "log", "hinge")[:3 if fam == 0 else 1]:
                        bb = (b > 0).astype(float) if kind == "log" else b
                        # the magnitude of the data: the same trajectory at another scale
                        unit = 1.0 if kind == "log" else (1e-6, 1.0, 1e4)[(fam + bs) % 3]
                        one(ctx, case, A * unit, m, n, bs, variant, step, name, name.endswith("pair"), 1.5, T, verts, kind,
                            (verts[rep0].copy(), rep0), seq, "", As * unit, bb * unit, unit)


def run(case, ctx):
    if case[0] == "long":
        return long_walk(ctx, case)
    if case[0] == "types":
        return types(ctx, case)
    mi, bs, variant, step, name = case
    A = np.array(MATS[mi])
    m, n = A.shape
    pw = name.endswith("pair")
    r = 1.5
    per = draws_per_epoch(m, bs)
    epochs = 2
    if ctx.thorough and len(per) <= 8:
        epochs = 3
    if len(per) > 60 and not ctx.thorough:
        epochs = 1
    kinds = ("square", "log", "wild")
    for ki, kind in enumerate(kinds):
        if not ctx.thorough and (mi, ki) in ((1, 1), (2, 0), (3, 1)):
            continue
        _, T, verts = make_set(name, r, n)
        starts = [(v, k) for k, v in verts.items()]
        starts = [starts[0], starts[-1]]
        if not pw:
            starts.append((np.full(n, r / n), None))
        for si, st in enumerate(starts):
            if not ctx.thorough and m > 2 and ((si + ki) % len(starts) != 0) and len(per) ** epochs > 100:
                continue
            for seq in itertools.product(per, repeat=epochs):
                one(ctx, case, A, m, n, bs, variant, step, name, pw, r, T, verts, kind, st, seq)


def one(ctx, case, A, m, n, bs, variant, step, name, pw, r, T, verts, kind, start, seq, how="", As=None, b=None, unit=1.0):
    x0, rep = start
    if As is None:
        As, b = sparse.csr_matrix(A), TARGET[:m]
    f = deriv(kind)
    lip = 2.0 * unit ** 2
    model = ModelSfw(A, np.array(b, dtype=float), x0, variant, step, bs, f, lip)
    if bs == 1:
        flat = [[np.array([i])] for ep in seq for i in ep]
        batches = [q[0] for q in flat]
    else:
        batches = [np.array(bt) for ep in seq for bt in ep]
    what = lambda: "%s, %s steps, %s r=%g, %s, A=%s %s, batches of %d: %s" % (variant, step, name, r, kind, A.tolist(), how, bs, seq)
    lmo, _, _ = make_set(name, r, n)
    k = [0]
    pending = []
    oversize = []

    def watched(u, x, active):
        t = k[0]
        if t >= len(batches):
            ctx.fail("%s: oracle asked %d times" % (what(), t + 1))
        ctx.close(x, model.x, 1e-9, lambda: "%s: iterate %d" % (what(), t))
        d = T.dist(np.asarray(x))
        if not d <= 1e-9:
            ctx.fail("%s: iterate %d outside the set: %s" % (what(), t, show(x)))
        if pw:
            judge_active(ctx, active, verts, np.asarray(x), lambda: "%s, iterate %d" % (what(), t))
        want = model.direction(batches[t])
        ctx.close(np.asarray(u) / unit ** 2, want / unit ** 2, 1e-9 * max(1, np.abs(A).max() / unit), lambda: "%s: direction asked at step %d" % (what(), t))
        res = lmo(np.array(u), np.array(x), active)
        g = model.move(batches[t], np.asarray(res[0]), res[3])
        if pw and g > active[res[2]]:
            oversize.append(1)
        ctx.step()
        ctx.state(variant, step, name, model.x, model.dual, model.t)
        k[0] += 1
        return res

    shown = []

    def cb(d):
        shown.append(np.array(d["x"], dtype=float))
        if len(shown) == k[0] + 1:
            ctx.close(shown[-1], model.x, 1e-9, lambda: "%s: callback %d" % (what(), len(shown)))

    ep = [0]
    nb = [0]

    def index(hi, size):
        # single samples, drawn one epoch (or one sample) at a time
        flat = [i for e in seq for i in e]
        out = flat[ep[0]: ep[0] + size]
        ep[0] += size
        return out

    def batch(hi, size):
        out = batches[nb[0]]
        nb[0] += 1
        return out

    st = step if step != "callable" else (lambda d: (1.0 / (model.t + 3), 0.5 / (1 + model.t)))
    # (size of the step is asked for after the batch is drawn and before the model moves)
    kw = dict(lipschitz=lip) if step == "DR" else {}
    try:
        with answering(Draws(index=index, batch=batch)):
            res = cp.minimize_sfw(f, As, b, x0.copy(), watched, x0_rep=rep, batch_size=bs,
                                  step_size=st, max_iter=len(seq), tol=0, callback=cb, variant=variant,
                                  lmo_variant="pairwise" if pw else "vanilla", **kw)
    except ValueError:
        if not oversize:
            raise
        ctx.count("oversized_steps_rejected")
        ctx.trace()
        return
    ctx.close(res.x, model.x, 1e-9, lambda: "%s: result" % what())
    ctx.require(k[0] == len(batches), lambda: "%s: %d steps instead of %d" % (what(), k[0], len(batches)))
    ctx.require(T.dist(res.x) <= 1e-9, lambda: "%s: result outside the set" % what())
    ctx.trace()
