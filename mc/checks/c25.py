"""C25: compiled and interpreted execution agree."""
import itertools
import os
import numpy as np
from mc import twin
from mc.core import import_copt, HarnessError
from mc.catalog import CONFIGS
from mc.checks.c19 import BASE, axes
from mc.data import FORMATS  # noqa: F401
from mc.world import DATA, OPS

cp = import_copt()
PROPERTY = "C25"
LEVEL = "exploration"
TECHNIQUE = ("bounded-exhaustive differential exploration: the same enumerated inputs, sampling orders and argument representations are executed by the real code with the "
             "just-in-time compiler (child process) and without it, and compared number by number")
RULE = "a run counts when the child process really compiled copt's kernels; distinct by (job, label of the output)"
BOUNDS = {"quick": "all 4-vectors over 5 values x 4 weights (1-D TV), all 2x3 and 3x1 images over 3 values, all 3x3 sparsity patterns x row sequences <= 3, derivatives on 16 margins x <= 3 samples, "
                   "block operators on all supports of <= 4 blocks, 39 stochastic problems over all sampling orders of 3 samples, 121 operations x 1-2 data sets, kernels and stochastic solvers x single changes of representation",
          "thorough": "all four data sets, all single changes of representation for every operation, 5-vectors"}
ASSUMPTIONS = ["the compiler is numba from " + twin.COMPILER, "draws made inside compiled code (batch sampler) cannot be chosen: for the solvers using it the sampler is interpreted, "
               "the compiled sampler is judged by validity of its batches"]
CASE_CPU_S = 600


def chunks(jobs, n):
    return [["jobs"] + jobs[i:i + n] for i in range(0, len(jobs), n)]


def cases(tier, seed):
    th = tier == "thorough"
    out = []
    for k in range(4):
        out.append(["jobs", ["tv1d", 4, k], ["tv1d", 2, k], ["tv1d", 3, k], ["tv1d", 1, k], ["tv2d", 2, 3, k], ["tv2d", 3, 1, k], ["tv2d", 1, 4, k], ["csr", k], ["csr", k + 4]]
                   + ([["tv1d", 5, k], ["tv2d", 2, 4, k], ["tv2d", 3, 3, k]] if th else []))
    out.append(["jobs", ["deriv", "log"], ["deriv", "square"]] + [["block", w, n] for w in ("group", "l1", "f1", "f2") for n in (1, 2, 3, 4)])
    out.append(["jobs"] + [["batches", n, s, nb] for n in (1, 2, 3, 5) for s in range(1, n + 1) for nb in (0, 1, 3)])
    vr = []
    for which in range(3):
        for s in ("saga", "svrg"):
            for pen in (None, "l1", "group", "f1"):
                vr.append(["vr", s, which, pen, 0.1 if pen == "l1" else 0.0, 1 if pen else 0])
        for pens in ((None, None), ("l1", "group"), ("f1", "f2"), ("group", None), (None, "l1")):
            vr.append(["vr", "vrtos", which, list(pens), 0.0 if pens[0] != "l1" else 0.1, 1])
    out += chunks(vr, 6)
    out += chunks([["config", n, 12] for n in CONFIGS if CONFIGS[n].random], 5)
    rand = [n for n in OPS if OPS[n].random]
    rest = [n for n in OPS if not OPS[n].random]
    for i in range(4 if th else 2):
        out += chunks([["op", i, n, list(BASE)] for n in rest], 40)
    for i in range(4 if th else 1):
        out += chunks([["op", i, n, list(BASE)] for n in rand], 6)
    # representations
    for i in ((0, 1, 2, 3) if th else (0,)):
        for n in OPS:
            o = OPS[n]
            if o.solver and not o.random and not th:
                continue
            ax = axes(i, o)
            todo = []
            for j, a in enumerate(ax):
                for t, r in enumerate(a):
                    c = list(BASE)
                    c[j] = r
                    if c != list(BASE):
                        todo.append(c)
            if o.random and not th:
                todo = [c for t, c in enumerate(todo) if (t + rand.index(n)) % len(rand) in (0, 5)]
            out.append([n] + [["op", i, n, c] for c in todo])
    # small groups are run together
    merged, cur = [], ["jobs"]
    for c in out:
        if c[0] == "jobs":
            merged.append(c)
            continue
        random = c[0] in rand
        for j in c[1:]:
            cur.append(j)
            if len([x for x in cur[1:] if x[2] in rand]) >= 7 or len(cur) > 120:
                merged.append(cur)
                cur = ["jobs"]
    if len(cur) > 1:
        merged.append(cur)
    # the long ones first
    return sorted(merged, key=lambda c: -sum(8 if (j[0] in ("vr", "config") or j[0] == "op" and j[2] in rand) else 1 for j in c[1:]))


def thaw(job):
    return tuple(tuple(a) if isinstance(a, list) else a for a in job)


def run(case, ctx):
    jobs = [thaw(j) for j in case[1:]]
    if not twin.available():
        # no compiler: there is only one way of execution, which must work
        for j in jobs:
            res = twin.guarded(j)
            ctx.require(res[0] == "ok", lambda: "%s: %s" % (j, res[1]))
            ctx.evaluation(j, nontrivial=False)
        ctx.count("without_compiler")
        return
    got, err = twin.compiled(jobs, 850)
    if got is None:
        ctx.fail("the compiled execution died: %s" % err)
    if not got["compiled"]:
        ctx.fail("with the compiler installed copt does not use it")
    for j, c in zip(jobs, got["answers"]):
        m = twin.guarded(j)
        if m[0] != "ok":
            ctx.fail("%s: interpreted execution: %s" % (list(j), m[1]))
        if c[0] != "ok":
            ctx.fail("%s: compiled execution: %s" % (list(j), c[1]))
        if [l for l, _ in c[1]] != [l for l, _ in m[1]]:
            ctx.fail("%s: compiled execution gives %s, interpreted %s" % (list(j), [l for l, _ in c[1]][:9], [l for l, _ in m[1]][:9]))
        low = j[0] == "op" and any("float32" in r for r in j[3])
        for (l, u), (_, v) in zip(c[1], m[1]):
            ctx.evaluation(j, l)
            scale = 1 + (np.abs(v).max() if np.size(v) and np.all(np.isfinite(v)) else 0)
            ctx.close(np.asarray(u, dtype=float) / scale, np.asarray(v, dtype=float) / scale, 1e-5 if low else 1e-9, lambda: "%s: %s differs in compiled execution" % (list(j), l))
