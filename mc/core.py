"""Bounded-exhaustive model checking of copt: common machinery.

A check module enumerates *cases* (each a small JSON-able description of one
corner of its bounded space); `run(case, ctx)` then explores everything under
that case on the real code and compares every step with the check's reference
model or invariant.  Cases are farmed out to processes, their measurements
merged into the evidence file, and the first violating case is written out so
that `--replay` runs exactly it again.
"""
import os
import sys

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True

import contextlib
import hashlib
import importlib
import io
import itertools
import json
import multiprocessing
import signal
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("COPT_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)


def import_copt():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import copt
    where = os.path.realpath(copt.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError("copt imported from %s" % where)
    return copt


class HarnessError(Exception):
    """The machinery itself is at fault: never reported as a violation."""


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Budget(Exception):
    """Raised inside callbacks when the code under test exceeds its bound."""


class Timeout(BaseException):
    pass


def digest(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        if isinstance(p, np.ndarray):
            # + 0.0 merges the two zeros; rounding merges reordered arithmetic
            h.update(np.round(np.asarray(p, dtype=float), 9).__add__(0.0).tobytes())
        else:
            h.update(repr(p).encode())
        h.update(b"|")
    return int.from_bytes(h.digest(), "little")


class Ctx:
    """Measurements of one case."""

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.known = []  # (key, msg)
        self.sample = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    # .. measurements ..
    def state(self, *parts):
        self.states.add(digest(*parts))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def evaluation(self, *parts, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(digest(*parts))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    # .. verdicts ..
    def fail(self, msg, key=None):
        if key is not None and key in KNOWN_KEYS:
            self.known.append((key, msg))
            return
        raise Violation(msg, key)

    def require(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)

    def close(self, a, b, tol, msg, key=None):
        """a and b agree within tol * (1 + |b|); non-finite values only match themselves."""
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            msg = msg() if callable(msg) else msg
            self.fail("%s: shape %s instead of %s" % (msg, a.shape, b.shape), key)
            return
        with np.errstate(all="ignore"):
            ok = (np.abs(a - b) <= tol * (1 + np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))
        if not np.all(ok):
            msg = msg() if callable(msg) else msg
            self.fail("%s: got %s, expected %s" % (msg, show(a), show(b)), key)


def show(a, n=8):
    a = np.asarray(a)
    if a.size > n:
        return "[%s, ... %d entries]" % (", ".join("%.10g" % v for v in a.ravel()[:n]), a.size)
    return str([float("%.12g" % v) for v in a.ravel()]) if a.ndim else "%.12g" % float(a)


# ---------------------------------------------------------------- choices
DIVERGED = "the code under test remembers something of its earlier calls"


class Chooser:
    """Depth-first enumeration of the choice sequences of a body.

    `for ch in explore(): body(ch)` runs body once per complete sequence of
    answers to ch.choose(n); answer 0 is the default, the number of non-default
    answers ("deviations") per run may be bounded.
    """

    def __init__(self, prefix, max_dev):
        self.prefix = prefix
        self.points = []  # (n, chosen)
        self.dev = 0
        self.max_dev = max_dev

    def choose(self, n):
        i = len(self.points)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Violation("repeating an execution with the same answers took another course: " + DIVERGED)
        else:
            c = 0
        if c:
            self.dev += 1
        self.points.append((n, c))
        return c

    @property
    def choices(self):
        return [c for _, c in self.points]


def explore(max_dev=None, prefix=()):
    stack = [list(prefix)]
    while stack:
        p = stack.pop()
        ch = Chooser(p, max_dev)
        yield ch
        if len(ch.points) < len(p):
            raise Violation("repeating an execution with the same answers ended earlier: " + DIVERGED)
        dev = 0
        news = []
        for i, (n, c) in enumerate(ch.points):
            if i >= len(p) and (max_dev is None or dev < max_dev):
                for alt in range(1, n):
                    news.append(ch.choices[:i] + [alt])
            dev += c != 0
        stack.extend(reversed(news))


# ---------------------------------------------------------------- runner
KNOWN_KEYS = {}


def load_known(prop):
    KNOWN_KEYS.clear()
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        with open(path) as f:
            for e in json.load(f)["findings"]:
                if e["property"] == prop:
                    KNOWN_KEYS[e["key"]] = e["what"]


_MOD = None
_TIER = None
_SEED = None
CASE_CPU_S = 150


def _on_alarm(signum, frame):
    raise Timeout()


def run_case(mod, case, tier, seed):
    """-> (ctx, None | (message, traceback))"""
    ctx = Ctx(tier, seed)
    limit = getattr(mod, "CASE_CPU_S", CASE_CPU_S)
    if tier == "thorough":
        limit *= 8
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    err = None
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            mod.run(case, ctx)
    except Violation as e:
        err = (str(e), None)
    except HarnessError:
        raise
    except Timeout:
        err = ("no answer within %d s of CPU time" % limit, traceback.format_exc())
    except Budget as e:
        err = ("bound exceeded: %s" % e, traceback.format_exc())
    except MemoryError:
        raise
    except Exception as e:  # raised by the code under test
        err = ("%s: %s" % (type(e).__name__, e), traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return ctx, err


def _worker(item):
    i, case = item
    try:
        ctx, err = run_case(_MOD, case, _TIER, _SEED)
    except BaseException:
        return i, case, None, ("HARNESS", traceback.format_exc())
    out = dict(
        states=ctx.states, transitions=ctx.transitions, traces=ctx.traces,
        evaluations=ctx.evaluations, distinct=ctx.distinct, counters=ctx.counters,
        known=ctx.known[:5], sample=ctx.sample,
    )
    return i, case, out, err


def short(case, n=600):
    s = json.dumps(case, default=str)
    return case if len(s) <= n else s[:n] + "..."


def main(argv=None):
    global _MOD, _TIER, _SEED
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(argv)
    prop = args.property
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    load_known(prop)
    try:
        import_copt()
    except HarnessError:
        raise
    except Exception:
        # the package cannot even be imported: nothing holds
        path = write_replay(prop, None, "import copt failed:\n" + traceback.format_exc(), 0)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    mod = importlib.import_module("mc.checks." + prop.lower())
    _MOD, _TIER, _SEED = mod, tier, seed

    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        ctx, err = run_case(mod, rec["case"], rec.get("tier", tier), seed)
        if err is None:
            print("replay passes")
            return 0
        print(err[0])
        if err[1]:
            print(err[1])
        print("VIOLATION property=%s replay=%s" % (prop, args.replay))
        return 1

    jobs = args.jobs or min(8, os.cpu_count() or 1)
    tot = dict(states=set(), transitions=0, traces=0, evaluations=0, distinct=set(), counters={})
    known = {}
    samples = []
    violations = []
    n_cases = 0
    harness_error = None

    def absorb(res):
        nonlocal n_cases, harness_error
        i, case, out, err = res
        if err is not None and err[0] == "HARNESS":
            harness_error = err[1]
            return False
        n_cases += 1
        tot["states"] |= out["states"]
        tot["distinct"] |= out["distinct"]
        for k in ("transitions", "traces", "evaluations"):
            tot[k] += out[k]
        for k, v in out["counters"].items():
            tot["counters"][k] = tot["counters"].get(k, 0) + v
        for key, msg in out["known"]:
            known.setdefault(key, msg)
        if len(samples) < 3 and (i in (0,) or n_cases % 7 == 3):
            samples.append(out["sample"] if out["sample"] is not None else short(case))
        if err is not None:
            violations.append((i, case, err))
            return False
        return True

    items = enumerate(mod.cases(tier, seed))
    if hasattr(mod, "prepare"):
        mod.prepare(tier, seed)
    if jobs == 1:
        for it in items:
            if not absorb(_worker(it)):
                break
    else:
        items = list(items)
        with multiprocessing.get_context("fork").Pool(jobs) as pool:
            chunk = getattr(mod, "CHUNK", 1)
            it = pool.imap_unordered(_worker, items, chunksize=chunk)
            t_first = None
            while True:
                try:
                    # once something failed, wait a little for a simpler case and then report
                    res = it.next() if t_first is None else it.next(max(0.1, t_first + 10 - time.time()))
                except (StopIteration, multiprocessing.TimeoutError):
                    break
                if not absorb(res):
                    if harness_error or len(violations) >= 3:
                        break
                    t_first = t_first or time.time()
            pool.terminate()
    wall = time.time() - t0
    if harness_error:
        sys.stderr.write(harness_error)
        return 2
    if n_cases == 0:
        sys.stderr.write("no cases\n")
        return 2

    level = mod.LEVEL
    cov = dict(cases=n_cases, bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS)
    cov["samples"] = samples or ["(none)"]
    if level == "model_checking":
        cov.update(states=len(tot["states"]), transitions=tot["transitions"],
                   traces_validated_against_impl=tot["traces"])
        if tot["evaluations"]:
            cov["input_evaluations"] = tot["evaluations"]
    else:
        cov.update(evaluations=tot["evaluations"], distinct_nontrivial=len(tot["distinct"]),
                   rule=mod.RULE)
        if tot["states"]:
            cov["distinct_states"] = len(tot["states"])
    cov["exhaustive"] = not violations
    cov.update({"n_" + k: v for k, v in sorted(tot["counters"].items())})
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2),
              violations=len(violations))
    if not args.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(path + ".tmp", path)

    for key, msg in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, KNOWN_KEYS[key], key))
    if violations:
        violations.sort(key=lambda v: v[0])
        for n, (i, case, err) in enumerate(violations[:3]):
            path = write_replay(prop, case, err[0] + ("\n" + err[1] if err[1] else ""), n, tier)
            print("case %s" % json.dumps(case, default=str)[:400])
            print("  %s" % err[0][:1500])
            if err[1]:
                print("  " + "\n  ".join(err[1].strip().splitlines()[-6:]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    main_count = (cov.get("transitions"), cov.get("evaluations"))
    print("%s: held on %d cases (states %s, transitions %s, evaluations %s) in %.1f s" % (
        prop, n_cases, len(tot["states"]), tot["transitions"], tot["evaluations"], wall))
    return 0


def write_replay(prop, case, msg, n, tier="quick"):
    d = os.path.join(VERIF, "out")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(path, "w") as f:
        json.dump(dict(property=prop, tier=tier, case=case, message=msg), f, indent=1, default=str)
    return path
