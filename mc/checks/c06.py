"""C06: block-wise proximal operators."""
import itertools
import numpy as np
from scipy import sparse
from mc.core import import_copt, show
from mc import gen

cp = import_copt()
PROPERTY = "C06"
LEVEL = "exploration"
RULE = ("every feature count and every admissible group structure (partial contiguous partitions, also given as "
        "tuples/arrays/ranges) x every support (subset of blocks, both orders, in any row of the support matrix) x "
        "vectors over an alphabet that reaches every branch x block weights x steps; every order of creating up to 3 operators with different "
        "parameters and using each at once and at the end; blocks on, just inside and outside the threshold at magnitudes 1e-100..1e100. Non-trivial: the support is not "
        "empty. Oracle: the penalty's proximal operator on each touched block, by closed form")
BOUNDS = {"quick": "n<=4 all group structures (n=5,6: full ones), supports: all subsets of <=6 blocks; lengths to 40 and 63..257 for structure, blocks up to the whole vector",
          "thorough": "n<=6 all group structures"}
ASSUMPTIONS = ["agreement up to 1e-12"]


def cases(tier, seed):
    th = tier == "thorough"
    for n in range(1, 7):
        gs = list(gen.partial_partitions(n))
        if n > 4 and not th:
            gs = [g for g in gs if sum(map(len, g)) >= n - 1]
        for ch in gen.chunks(gs, 12):
            yield ["group", n, ch]
        yield ["l1", n]
        yield ["fused", n]
    for n in range(7, 41):
        yield ["large", n]
    for kind in ("l1", "group", "fused"):
        for n in (1, 2, 3, 4, 5):
            yield ["several", n, kind]
            yield ["edges", n, kind]
    for n in (63, 64, 65, 100, 128, 129, 257) + ((513, 1000, 2049) if th else ()):
        yield ["large", n]


def blocks_of(ctx, B, n, what):
    """list of (features, penalised?) from the accompanying block structure"""
    B = sparse.csr_matrix(B)
    ctx.require(B.shape[1] == n, "%s: block structure has %d columns for %d features" % (what, B.shape[1], n))
    blocks = []
    for h in range(B.shape[0]):
        feats = B.indices[B.indptr[h]:B.indptr[h + 1]]
        blocks.append((feats.tolist(), bool(np.all(B.data[B.indptr[h]:B.indptr[h + 1]] > 0))))
    allf = sorted(f for b, _ in blocks for f in b)
    ctx.require(allf == list(range(n)), "%s: blocks %s do not assign each feature to exactly one block" % (what, [b for b, _ in blocks]))
    # what the solvers read: block number of each feature
    r = B.T.tocsr()
    ctx.require(len(r.indices) == n, "%s: reverse map" % what)
    return blocks


def apply(prox, x, support, d, step, row):
    """call the factory's operator for a sample whose support is the given list of blocks"""
    rows = [[], [0], support, [0], []]
    order = [rows[0], rows[1], rows[2]] if row == 2 else [support] if row == 0 else [rows[1], support, rows[3]]
    at = {2: 2, 0: 0, 1: 1}[row]
    indptr = np.cumsum([0] + [len(r) for r in order])
    indices = np.array([h for r in order for h in r], dtype=np.int64)
    prox(x, at, indices, indptr, d, step)
    return x


def check_op(ctx, what, prox, blocks, n, prox_block, letters, weights, supports=None, stride=1):
    nb = len(blocks)
    d = np.array([weights[h % len(weights)] for h in range(nb)])
    if supports is None:
        supports = [list(s) for k in range(nb + 1) for s in itertools.combinations(range(nb), k)]
    for si, support in enumerate(supports):
        for step in (0.5, 2.0):
            for wi, w in enumerate(gen.words(letters, n)):
                if stride > 1 and (wi + si) % stride:
                    continue
                v = np.array(w)
                ref = v.copy()
                for h in support:
                    feats, pen = blocks[h]
                    if pen:
                        ref[feats] = prox_block(v[feats], step * d[h])
                d0 = d.copy()
                x = apply(prox, v.copy(), support if wi % 2 else support[::-1], d, step, si % 3)
                ctx.close(x, ref, 1e-12, lambda_msg(what, v, support, d, step))
                ctx.require(np.array_equal(d, d0), "%s: block weights modified" % what)
                ctx.evaluation(what, v, str(support), step, nontrivial=bool(support))


class lambda_msg:
    """lazy message"""
    def __init__(self, *a):
        self.a = a

    def __str__(self):
        what, v, support, d, step = self.a
        return "%s applied to %s for blocks %s, weights %s, step %g" % (what, show(v), support, show(d), step)


def soft(t):
    return lambda v, s: np.sign(v) * np.maximum(np.abs(v) - t * s, 0)


def bsoft(t):
    def f(v, s):
        nv = np.sqrt((v * v).sum())
        return v * (1 - t * s / nv) if nv > t * s else 0 * v
    return f


def pair_tv(t):
    def f(v, s):
        if len(v) == 1:
            return v
        m, h = (v[0] + v[1]) / 2, (v[0] - v[1]) / 2
        h = np.sign(h) * max(abs(h) - t * s, 0)
        return np.array([m + h, m - h])
    return f


def variants(kind, n):
    """operators of the same kind over the same features with different parameters: name, how to make it, blocks, block operator"""
    P = cp.penalty
    single = [([j], True) for j in range(n)]
    out = []
    for al in (0.4, 1.1, 0.0):
        if kind == "l1":
            out.append(("L1(%g)" % al, lambda al=al: P.L1Norm(al).prox_factory(n), single, soft(al)))
        elif kind == "group":
            for groups in ([list(range(n))], [[j] for j in range(n)], [list(range(n // 2, n))])[: 2 if al == 0.0 else 3]:
                bl = [([j], False) for j in range(groups[0][0])] + [(list(g), True) for g in groups]
                out.append(("GroupL1(%g, %s)" % (al, groups), lambda al=al, groups=groups: P.GroupL1(al, groups).prox_factory(n), bl, bsoft(al)))
        else:
            first = [(list(range(j, min(j + 2, n))), j + 1 < n) for j in range(0, n, 2)]
            second = [([0], False)] + [(list(range(j, min(j + 2, n))), j + 1 < n) for j in range(1, n, 2)]
            out.append(("FusedLasso(%g) half 1" % al, lambda al=al: P.FusedLasso(al).prox_1_factory(n), first, pair_tv(al)))
            out.append(("FusedLasso(%g) half 2" % al, lambda al=al: P.FusedLasso(al).prox_2_factory(n), second, pair_tv(al)))
    return out


def expect(blocks, prox_block, v, d, step):
    ref = v.copy()
    for h, (feats, pen) in enumerate(blocks):
        if pen:
            ref[feats] = prox_block(v[feats], step * d[h])
    return ref


def run_several(ctx, n, kind):
    """every order of creating up to 3 operators that differ in their parameters, each used right after its creation and again at the end"""
    vs = variants(kind, n)
    made = 0
    for k in (1, 2, 3):
        for word in itertools.product(range(len(vs)), repeat=k):
            live = []
            for q, i in enumerate(word):
                name, make, blocks, pb = vs[i]
                prox, B = make()
                live.append((prox, blocks, pb, name))
                made += 1
                # the structure as delivered: the same blocks in the order of the features
                got = blocks_of(ctx, B, n, name)
                ctx.require(sorted(b for b, _ in got) == sorted(b for b, _ in blocks if b), lambda: "%s after %s: blocks %s" % (name, [vs[j][0] for j in word[:q]], got))
                for j, (prox, blocks, pb, name) in enumerate(live if q == k - 1 else live[-1:]):
                    nb = len(blocks)
                    d = 1 + 0.5 * np.arange(nb)
                    v = gen.pattern("weyl", n) * 2
                    x = apply(prox, v.copy(), list(range(nb)), d, 0.5, j)
                    ctx.close(x, expect(blocks, pb, v, d, 0.5), 1e-12,
                              lambda: "%s used after the creation of %s" % (name, [vs[i][0] for i in word[:q + 1]]))
                    ctx.step()
            ctx.trace()
            ctx.state(kind, n, word)


def run_edges(ctx, n, kind):
    """blocks on, just inside and just outside the threshold, at every magnitude of the problem"""
    for (name, make, blocks, pb), mag in itertools.product(variants(kind, n), (1e-100, 1e-12, 1e-8, 1e-4, 1.0, 1e4, 1e8, 1e100)):
        al = float(name.split("(")[1].split(",")[0].split(")")[0])
        if al == 0.0:
            continue
        prox, B = make()
        nb = len(blocks)
        d = 1 + 0.5 * np.arange(nb)
        step = mag  # the thresholds scale with the step
        for rel in (0.0, 1e-15, 1e-13, 1e-11, 1e-9, 1e-7, 1e-5, 1e-3, 0.1):
            for sign in (1, -1):
                for dirn in (1, -1):
                    v = np.zeros(n)
                    for h, (feats, pen) in enumerate(blocks):
                        thr = al * step * d[h] * (1 + sign * rel)
                        if kind == "fused":
                            v[feats] = np.array([thr, -thr])[:len(feats)] * dirn + mag * (h % 2)
                        else:
                            w = gen.pattern("weyl", len(feats)) + 2
                            v[feats] = w * (thr / np.sqrt((w * w).sum()) * dirn)
                    x = apply(prox, v.copy(), list(range(nb)), d, step, 0)
                    ctx.close(x / mag, expect(blocks, pb, v, d, step) / mag, 1e-14 * 100,
                              lambda: "%s at magnitude %g, blocks at the threshold times %r: %s" % (name, mag, 1 + sign * rel, show(v)))
                    ctx.evaluation(name, mag, rel, sign, dirn)


def run(case, ctx):
    kind, n = case[:2]
    if kind in ("several", "edges"):
        return globals()["run_" + kind](ctx, n, case[2])
    if kind == "l1":
        for al in (0.7, 0.0, 2.0):
            prox, B = cp.penalty.L1Norm(al).prox_factory(n)
            blocks = blocks_of(ctx, B, n, "L1")
            ctx.require(all(p and len(b) == 1 for b, p in blocks), "L1 blocks")
            check_op(ctx, "L1 weight %g n=%d" % (al, n), prox, [([h], True) for h in range(n)], n, soft(al),
                     (-2.0, 0.0, 0.5, 3.0) if n < 4 else (-2.0, 0.5, 3.0), (1.0, 2.5, 1.25, 4.0), stride=1 if n < 5 else 7 if n < 6 else 31)
    elif kind == "group":
        for gi, groups in enumerate(case[2]):
            al = (0.7, 0.3)[gi % 2]
            for form in range(4 if n < 4 else 1):
                gg = [groups, tuple(tuple(g) for g in groups), [np.array(g) for g in groups], [range(g[0], g[-1] + 1) for g in groups]][form]
                if not groups and form:
                    continue
                prox, B = cp.penalty.GroupL1(al, gg).prox_factory(n)
                what = "group lasso %s n=%d" % (groups, n)
                blocks = blocks_of(ctx, B, n, what)
                # the expected blocks: the groups, every other feature on its own and unpenalised
                want = sorted([(tuple(g), True) for g in groups] + [((j,), False) for j in range(n) if not any(j in g for g in groups)])
                got = sorted((tuple(b), p) for b, p in blocks)
                ctx.require(got == want, "%s: blocks %s" % (what, got))
                check_op(ctx, what, prox, blocks, n, bsoft(al), (-2.0, 0.0, 0.6), (1.0, 2.5, 1.25, 4.0, 3.0),
                         stride=1 if n < 3 else 2 if n < 4 else 11 if n < 5 else 97)
    elif kind in ("fused", "large"):
        al = 0.4
        pen = cp.penalty.FusedLasso(al)
        pairs = []
        for half, fac in ((1, pen.prox_1_factory), (2, pen.prox_2_factory)):
            prox, B = fac(n)
            what = "fused lasso half %d n=%d" % (half, n)
            blocks = blocks_of(ctx, B, n, what)
            for b, p in blocks:
                ctx.require(len(b) in (1, 2) and b == list(range(b[0], b[0] + len(b))), "%s: block %s" % (what, b))
            # which neighbours are penalised is observed, not read off the structure
            probe = np.arange(n, dtype=float) * 100
            d = np.ones(len(blocks))
            x = apply(prox, probe.copy(), list(range(len(blocks))), d, 1.0, 0)
            moved = np.nonzero(np.abs(x - probe) > 1e-9)[0].tolist()
            ctx.require(len(moved) % 2 == 0, "%s moves features %s" % (what, moved))
            for a, b in zip(moved[::2], moved[1::2]):
                ctx.require(b == a + 1, "%s moves features %s" % (what, moved))
                pairs.append((a, b))
                ctx.close(x[[a, b]], probe[[a, b]] + [al, -al], 1e-12, what)
            if kind == "fused":
                check_op(ctx, what, prox, [(b, len(b) == 2) for b, p in blocks], n, pair_tv(al),
                         (-2.0, 0.0, 0.6, 1.0) if n < 4 else (-2.0, 0.6, 1.0), (1.0, 2.5, 0.75), stride=1 if n < 5 else 5 if n < 6 else 13)
            else:
                allb = list(range(len(blocks)))
                sup = [allb, allb[::2], allb[1::2], allb[-1:], allb[:1]]
                big_check(ctx, what, prox, [(b, len(b) == 2) for b, p in blocks], n, pair_tv(al), sup)
        ctx.require(sorted(pairs) == [(j, j + 1) for j in range(n - 1)],
                    "fused lasso n=%d: pairs penalised %s" % (n, sorted(pairs)))
        if kind == "large":
            for k in (1, 2, 3, 5) + ((8, 9, 17, n - 1) if n > 40 else (n,)):
                groups = [list(range(i, min(i + k, n))) for i in range(n % 3, n, k + (n % 2))]
                groups = [g for i, g in enumerate(groups)]
                prox, B = cp.penalty.GroupL1(0.5, groups).prox_factory(n)
                what = "group lasso %s n=%d" % (groups, n)
                blocks = blocks_of(ctx, B, n, what)
                want = sorted([(tuple(g), True) for g in groups] + [((j,), False) for j in range(n) if not any(j in g for g in groups)])
                ctx.require(sorted((tuple(b), p) for b, p in blocks) == want, "%s: blocks" % what)
                allb = list(range(len(blocks)))
                big_check(ctx, what, prox, blocks, n, bsoft(0.5), [allb, allb[::2], allb[1::2], allb[-1:], allb[:1]])
            prox, B = cp.penalty.L1Norm(0.5).prox_factory(n)
            allb = list(range(n))
            big_check(ctx, "L1 n=%d" % n, prox, [([h], True) for h in range(n)], n, soft(0.5), [allb, allb[::2], allb[1::2], allb[-1:]])


def big_check(ctx, what, prox, blocks, n, prox_block, supports):
    d = 1 + (np.arange(len(blocks)) % 4) * 0.75
    for i, support in enumerate(supports):
        for p, scale in (("weyl", 1), ("mod", 1), ("walk", 1), ("weyl", 1e6), ("weyl", 1e-6), ("weyl", 0.3)):
            v = scale * gen.pattern(p, n)
            ref = v.copy()
            for h in support:
                if blocks[h][1]:
                    ref[blocks[h][0]] = prox_block(v[blocks[h][0]], 0.8 * d[h])
            x = apply(prox, v.copy(), support, d, 0.8, i % 3)
            ctx.close(x, ref, 1e-12 * max(1, scale), "%s pattern %s times %g, blocks %s" % (what, p, scale, show(support)))
            ctx.evaluation(what, p, scale, str(support))
