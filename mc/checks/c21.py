"""C21: dataset loading survives interruption at any point."""
import builtins
import bz2
import copy
import errno
import gc
import gzip
import hashlib
import io
import itertools
import os
import pickle
import shutil
import signal
import sys
import tarfile
import tempfile
import traceback
import urllib.error
import urllib.request
import numpy as np
from scipy import sparse
import sklearn.datasets
from mc.core import import_copt, digest

cp = import_copt()
ds = cp.datasets
PROPERTY = "C21"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the real loaders with fault injection: the state is the content of the data folder, the transitions are calls "
             "that are interrupted at any executed line, inside any write (torn), or by any download fault; from every reachable state every later request is judged")
BOUNDS = {"quick": "9 loaders, fresh folder; crash (process ends), KeyboardInterrupt and I/O error at every line/write/rename of the first call; every request from every "
                   "distinct state left behind; a second crash from every distinct state of madelon, url, covtype and criteo; every download cut at 24 lengths, 48 byte flips; "
                   "crashes with 4 other file orders in the archive; every loss of one, two, all but one or all files of a complete folder; larger files of sizes around multiples of 5000 bytes; requests with and without verification; 10 ways of naming the folder",
          "thorough": "second interruption for all loaders, third for madelon; cuts and flips at every byte; every loss of files"}
ASSUMPTIONS = ["a process crash loses what it has buffered but not what it has written", "downloads come from a stand-in for urllib, archives and md5 sums from the harness",
               "the machine does not lose power (no missing fsync is judged)"]

# ------------------------------------------------------------ data sets
rs = np.random.RandomState(3)


def _mat(n, seed):
    r = np.random.RandomState(seed)
    M = r.randint(-2, 3, size=(n, 4)).astype(float)
    M[:, 3] = 1 + seed  # the last feature is present in every subset
    return M


STORAGE = ("madelon", "rcv1", "gisette", "covtype", "news20")
DATA = {}
ARCHIVE = {}


def _npy(a):
    f = io.BytesIO()
    np.save(f, a)
    return f.getvalue()


def pack(name, parts):
    raw = io.BytesIO()
    with tarfile.open(fileobj=raw, mode="w") as t:
        d = tarfile.TarInfo(name)
        d.type = tarfile.DIRTYPE
        d.mode = 0o777
        t.addfile(d)
        for fn, a in parts:
            b = _npy(a)
            ti = tarfile.TarInfo("%s/%s.npy" % (name, fn))
            ti.size = len(b)
            t.addfile(ti, io.BytesIO(b))
    return gzip.compress(raw.getvalue(), mtime=0)


ORDERS = {}


def text_archive(name, url, M, y):
    zero_one = name in ("kdd10", "criteo")
    lab = (y + 1) // 2 if zero_one else y
    text = "".join("%d %s\n" % (l, " ".join("%d:%g" % (j + 1, v) for j, v in enumerate(r) if v)) for l, r in zip(lab, M)).encode()
    DATA[name] = {None: (M, (y + 1) // 2)}
    DATA[name]["unchecked"] = DATA[name][None]
    if name == "criteo":
        raw = io.BytesIO()
        with tarfile.open(fileobj=raw, mode="w") as t:
            ti = tarfile.TarInfo("criteo.kaggle2014.train.svm")
            ti.size = len(text)
            t.addfile(ti, io.BytesIO(text))
        ARCHIVE[url] = gzip.compress(raw.getvalue(), mtime=0)
    else:
        ARCHIVE[url] = bz2.compress(text)


URLS = {"url": "/url_combined.bz2", "kdd10": "/kddb.bz2", "kdd12": "/kdd12.bz2", "criteo": "/criteo.kaggle2014.svm.tar.gz"}


def build():
    for k, name in enumerate(STORAGE):
        tr, te = _mat(3, 10 * k + 1), _mat(2, 10 * k + 2)
        ytr, yte = np.array([1, 0, 1]), np.array([0, 1])
        DATA[name] = {"train": (tr, ytr), "test": (te, yte), "full": (np.vstack([tr, te]), np.concatenate([ytr, yte]))}
        parts = []
        for sub, (M, y) in (("train", (tr, ytr)), ("test", (te, yte))):
            S = sparse.csr_matrix(M)
            parts += [("X_%s.data" % sub, S.data), ("X_%s.indices" % sub, S.indices), ("X_%s.indptr" % sub, S.indptr), ("y_%s" % sub, y)]
        ARCHIVE["/%s.tar.gz" % name] = pack(name, parts)
        # the order in which the archive lists its files is nobody's promise
        ORDERS[name] = [pack(name, [parts[i] for i in o]) for o in ((7, 6, 5, 4, 3, 2, 1, 0), (3, 0, 2, 1, 7, 4, 6, 5), (0, 3, 4, 7, 1, 2, 5, 6), (4, 0, 7, 3, 5, 1, 6, 2))]
    for k, (name, url) in enumerate(URLS.items()):
        M = _mat(4, 100 + k)
        text_archive(name, url, M, np.array([1, -1, -1, 1]) if k % 2 == 0 else np.array([-1, 1, 1, -1]))


build()
SUBSETS = {"madelon": ("train", "test", "full"), "rcv1": ("train", "test", "full"), "gisette": ("train", "test", "full"),
           "covtype": ("train",), "news20": ("train",), "url": (None,), "kdd10": (None,), "kdd12": (None,), "criteo": (None,)}


def loader(name, subset, folder):
    f = getattr(ds, "load_" + name)
    if name in STORAGE:
        if len(SUBSETS[name]) > 1:
            return f(subset, folder)
        return f(data_dir=folder)
    return f(md5_check=False) if subset == "unchecked" else f()


# ------------------------------------------------------------ the child process
class Interrupted(BaseException):
    pass


class FakeMD5:
    """a sum that equals the expected one exactly for the right content"""

    def __init__(self, data=b"", **k):
        self.buf = bytes(data)

    def update(self, d):
        self.buf += bytes(d)

    def hexdigest(self):
        good = self.buf in ARCHIVE.values()

        class H(str):
            def __eq__(self, o):
                return good

            def __ne__(self, o):
                return not good
            __hash__ = str.__hash__
        return H(hashlib.sha256(self.buf).hexdigest()[:32])

    @property
    def name(self):
        return "md5"


DS_FILE = os.path.abspath(ds.__file__)


STATE = {"n": 0, "plan": [], "at": -1, "mode": "", "folder": "/nonexistent", "album": None, "photos": {}}


def photograph(k):
    c = content(STATE["folder"])
    if c not in STATE["photos"]:
        STATE["photos"][c] = k
        STATE["mode"] = ""  # the copying is no part of the run
        if os.path.exists(STATE["folder"]):
            shutil.copytree(STATE["folder"], os.path.join(STATE["album"], str(k)))
        STATE["mode"] = "exit"


def event(partial=None):
    """a point at which the running call may be interrupted"""
    k = STATE["n"]
    STATE["n"] += 1
    mode = STATE["mode"]
    if mode == "exit":
        # a process that ends here leaves behind exactly what is on disk now
        if partial:
            partial()
        photograph(k)
        return
    if k != STATE["at"]:
        return
    if mode == "interrupt":
        if partial:
            partial()
        raise KeyboardInterrupt()
    if mode == "io" and partial is not None:
        partial()
        raise OSError(errno.ENOSPC, "No space left on device")


class W:
    """a file being written; every write is a point of interruption that leaves half of it behind"""

    def __init__(self, f):
        self._f = f

    def write(self, b):
        done = []

        def half():
            self._f.write(b[: len(b) // 2])
            self._f.flush()
            done.append(len(b) // 2)
        event(half)
        self._f.write(b[sum(done):])
        return len(b)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()
        return False

    def __iter__(self):
        return iter(self._f)


REAL_OPEN = builtins.open


def install():
    """puts the stand-ins in place (only ever in a child process)"""
    def fopen(file, mode="r", *a, **k):
        if isinstance(file, (str, bytes, os.PathLike)) and any(c in mode for c in "wax+") and os.fspath(file).startswith(STATE["folder"]):
            event(lambda: None)
            return W(REAL_OPEN(file, mode, *a, **k))
        return REAL_OPEN(file, mode, *a, **k)

    builtins.open = fopen
    tarfile.bltn_open = fopen
    for fn in ("replace", "rename", "remove", "unlink", "makedirs", "mkdir"):
        def make(real):
            def g(*a, **k):
                event(lambda: None)
                return real(*a, **k)
            return g
        setattr(os, fn, make(getattr(os, fn)))

    def fetch(url, filename=None, *a, **k):
        event(lambda: None)
        kind = STATE["plan"].pop(0) if STATE["plan"] else "ok"
        body = next((v for u, v in ARCHIVE.items() if url.endswith(u)), None)
        if body is None:
            raise urllib.error.HTTPError(url, 404, "not found", None, None)
        if kind == "fail":
            raise urllib.error.URLError("network is unreachable")
        if filename is None:
            fd, filename = tempfile.mkstemp(dir=STATE["folder"].split("/data")[0] + "/tmp")
            os.close(fd)
        kind = kind if isinstance(kind, (list, tuple)) else (kind,)
        if kind[0] == "cut":
            body = body[: kind[1]]
        elif kind[0] == "flip":
            body = body[: kind[1]] + bytes([body[kind[1]] ^ kind[2]]) + body[kind[1] + 1:]
        with REAL_OPEN(filename, "wb") as f:
            def half():
                f.seek(0)
                f.write(body[: len(body) // 2])
                f.flush()
            event(half)
            if kind[0] == "short":
                half()
                raise urllib.error.ContentTooShortError("retrieval incomplete", (filename, None))
            f.seek(0)
            f.write(body)
        return filename, None

    urllib.request.urlretrieve = fetch

    def fake_urlopen(url, *a, **k):
        url = url if isinstance(url, str) else url.full_url
        fd, fn = tempfile.mkstemp(dir=STATE["folder"].split("/data")[0] + "/tmp")
        os.close(fd)
        fetch(url, fn)
        return REAL_OPEN(fn, "rb")

    urllib.request.urlopen = fake_urlopen
    real_new = hashlib.new
    hashlib.md5 = FakeMD5
    hashlib.new = lambda n, *a, **k: FakeMD5(*a) if n == "md5" else real_new(n, *a, **k)

    def file_digest(f, d, **k):
        m = FakeMD5()
        m.update(f.read())
        return m
    hashlib.file_digest = file_digest
    sys.setrecursionlimit(400)


def local(frame, ev, arg):
    if ev == "line":
        event()
    return local


def glob(frame, ev, arg):
    return local if frame.f_code.co_filename == DS_FILE else None


def child_body(name, subset, folder, plan, at, mode, traced, album):
    """runs one call; `at`: number of the event at which it is interrupted; `album`: where every content the folder goes through is kept"""
    STATE.update(n=0, plan=list(plan), at=at, mode="exit" if album else mode, folder=folder, album=album, photos={})
    ds.DATA_DIR = folder
    os.environ["HOME"] = os.path.dirname(folder)
    if traced:
        sys.settrace(glob)
    try:
        X, y = loader(name, subset, folder)
    finally:
        sys.settrace(None)
        STATE["at"], STATE["mode"] = -1, ""
    return sparse.csr_matrix(X).toarray() if sparse.issparse(X) else np.asarray(X), np.asarray(y), STATE["n"], STATE["photos"]


def attempt(job):
    try:
        return ("ok",) + child_body(*job)
    except BaseException as e:
        return ("error", "%s: %s" % (type(e).__name__, str(e)[:300]))


def serve(r, w):
    """answers calls one after the other, each as if in a process of its own"""
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    try:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    except OSError:
        pass
    install()
    sys.stdout = io.StringIO()
    gc.collect()
    gc.freeze()
    keep = {k: copy.deepcopy(v) if isinstance(v, (dict, list, set)) and not k.startswith("__") else v for k, v in vars(ds).items()}
    while True:
        try:
            job = pickle.load(r)
        except EOFError:
            return
        signal.alarm(60)
        res = attempt(job)
        # what the call kept in memory dies with its process
        for k in list(vars(ds)):
            if k not in keep:
                del vars(ds)[k]
        for k, v in keep.items():
            vars(ds)[k] = copy.deepcopy(v) if isinstance(v, (dict, list, set)) and not k.startswith("__") else v
            if hasattr(v, "cache_clear"):
                v.cache_clear()
        if res[0] == "error":
            gc.collect()
        sys.stdout = io.StringIO()
        signal.alarm(0)
        pickle.dump(res, w)
        w.flush()


SERVER = []


def start():
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(w1)
            os.close(r2)
            serve(os.fdopen(r1, "rb"), os.fdopen(w2, "wb"))
        except BaseException:
            traceback.print_exc(file=sys.__stderr__)
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    SERVER[:] = [pid, os.fdopen(r2, "rb"), os.fdopen(w1, "wb")]


def stop():
    if SERVER:
        pid, r, w = SERVER
        SERVER[:] = []
        try:
            w.close()
        except OSError:
            pass
        r.close()
        os.waitpid(pid, 0)


def call(name, subset, folder, plan=(), at=-1, mode="", traced=False, album=None):
    """-> ("ok", X, y, events, {content: event}) | ("error", text)"""
    if not SERVER:
        start()
    pid, r, w = SERVER
    try:
        pickle.dump((name, subset, folder, list(plan), at, mode, traced or at >= 0, album), w)
        w.flush()
        return pickle.load(r)
    except (EOFError, OSError):
        SERVER[:] = []
        r.close()
        status = os.waitpid(pid, 0)[1]
        return ("error", "killed by signal %d" % os.WTERMSIG(status) if os.WIFSIGNALED(status) else "the process ended")


class Box:
    """scratch folders holding states"""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="c21_")
        os.chmod(self.root, 0o777)
        self.n = 0

    def folder(self, src=None):
        self.n += 1
        base = os.path.join(self.root, str(self.n))
        os.mkdir(base)
        os.chmod(base, 0o777)
        os.mkdir(os.path.join(base, "tmp"))
        os.chmod(os.path.join(base, "tmp"), 0o777)
        d = os.path.join(base, "data")
        if src is not None and os.path.exists(src):
            shutil.copytree(src, d)
            for p, _, fs in os.walk(d):
                os.chmod(p, 0o777)
                for f in fs:
                    os.chmod(os.path.join(p, f), 0o666)
        return d

    def drop(self, d):
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


def content(d):
    out = []
    for p, ds_, fs in os.walk(d):
        for f in sorted(fs):
            with open(os.path.join(p, f), "rb") as g:
                out.append((os.path.relpath(os.path.join(p, f), d), hashlib.sha1(g.read()).hexdigest()))
        for s in ds_:
            out.append((os.path.relpath(os.path.join(p, s), d), "dir"))
    return tuple(sorted(out))


def right(name, subset, res):
    if res[0] != "ok":
        return "%s" % (res[1] if len(res) > 1 else res[0])
    M, y = DATA[name][subset]
    X, t = res[1], res[2]
    if X.shape != M.shape or not np.array_equal(X, M) or t.shape != y.shape or not np.array_equal(t, y):
        return "wrong data: %s labels %s" % (X.tolist(), t.tolist())
    return None


# ------------------------------------------------------------ cases
def cases(tier, seed):
    for name in SUBSETS:
        for mode in ("exit", "interrupt", "io"):
            for s in SUBSETS[name]:
                for shard in range(4):
                    yield ["crash", name, s, mode, shard, 4]
    for name in SUBSETS:
        yield ["faults", name]
        for shard in range(8):
            yield ["corrupt", name, shard]
        for k in range(4 if name in STORAGE else 0):
            if tier == "thorough" or name in ("madelon", "covtype"):
                yield ["order", name, k]
        for s in SUBSETS[name]:
            yield ["missing", name, s]
        for big in SIZES if name in STORAGE else SIZES[:3]:
            yield ["sizes", name, big]
        if name not in STORAGE:
            yield ["unchecked", name]
        else:
            yield ["folders", name]
    yield ["requests"]
    yield ["reject"]


def run(case, ctx):
    box = Box()
    try:
        globals()["run_" + case[0]](ctx, box, *case[1:])
    finally:
        stop()
        box.close()


def judge_state(ctx, box, name, d, how, seen):
    """every later request from the state left in folder d must succeed"""
    c = content(d)
    if c in seen:
        return False
    seen.add(c)
    ctx.state(name, c)
    for s in SUBSETS[name]:
        e = box.folder(d)
        err = right(name, s, call(name, s, e))
        ctx.step()
        if err:
            ctx.fail("load_%s(%s) after %s: %s\nfolder: %s" % (name, s, how, err, [f for f, _ in c]))
        # and once more, from the complete data
        for s2 in SUBSETS[name]:
            err = right(name, s2, call(name, s2, e, plan=["fail"] if name not in ("kdd10",) and (s != "train" or s2 == "train") else ()))
            ctx.step()
            if err:
                ctx.fail("load_%s(%s) after load_%s(%s) after %s: %s" % (name, s2, name, s, how, err))
        box.drop(e)
    return True


def interruptions(ctx, box, name, s, src, mode, how, seen, shard=0, shards=1):
    """all interruptions of one call from the state in src; -> new states (folder, how)"""
    out = []
    if mode == "exit":
        d = box.folder(src)
        base = os.path.dirname(d)
        album = os.path.join(base, "album")
        os.mkdir(album)
        os.chmod(album, 0o777)
        res = call(name, s, d, traced=True, album=album)
        err = right(name, s, res)
        if err:
            ctx.fail("load_%s(%s) %s: %s" % (name, s, how, err))
        ctx.step(res[3])
        for k, at in enumerate(sorted(res[4].values())):
            if k % shards != shard:
                continue
            e = box.folder(os.path.join(album, str(at)))
            h = "a crash at event %d of %d of load_%s(%s) %s" % (at, res[3], name, s, how)
            if judge_state(ctx, box, name, e, h, seen):
                out.append((e, h))
            else:
                box.drop(e)
        box.drop(d)
        return out
    d = box.folder(src)
    res = call(name, s, d, traced=True)
    err = right(name, s, res)
    if err:
        ctx.fail("load_%s(%s) %s: %s" % (name, s, how, err))
    total = res[3]
    box.drop(d)
    for at in range(shard, total, shards):
        d = box.folder(src)
        res = call(name, s, d, at=at, mode=mode)
        ctx.step()
        if res[0] == "ok":
            # the interruption did not reach the caller: the answer must be right all the same
            err = right(name, s, res)
            if err:
                ctx.fail("load_%s(%s) with %s at event %d of %d %s: %s" % (name, s, mode, at, total, how, err))
        h = "%s at event %d of %d of load_%s(%s) %s" % (mode, at, total, name, s, how)
        if judge_state(ctx, box, name, d, h, seen):
            out.append((d, h))
        else:
            box.drop(d)
    return out


def run_order(ctx, box, name, k):
    """crashes while an archive with its files in another order is unpacked"""
    url = "/%s.tar.gz" % name
    keep = ARCHIVE[url]
    ARCHIVE[url] = ORDERS[name][k]
    try:
        seen = set()
        for s in SUBSETS[name]:
            for mode in ("exit", "io"):
                interruptions(ctx, box, name, s, None, mode, "in a fresh folder (archive order %d)" % k, seen)
    finally:
        ARCHIVE[url] = keep
    ctx.trace(len(seen))


# numbers of stored entries: files of 4992, 5000, 5008, 9992, 10000 and 10008 bytes, and well beyond
SIZES = (608, 609, 610, 1233, 1234, 1235, 3000, 8192 - 16, 20000)


def run_sizes(ctx, box, name, m):
    """larger data sets, of sizes around multiples of what a reader might take at once"""
    keep = dict(ARCHIVE), DATA[name]
    try:
        n = 7
        rows = -(-m // n)

        def mat(seed):
            # m stored entries; the last column occurs
            M = np.zeros(rows * n)
            M[:m] = 1 + (np.arange(m) * 37 + seed) % 101
            return M.reshape(rows, n)
        y = 1 - 2 * (np.arange(rows) % 3 % 2)
        if name in STORAGE:
            tr, te = mat(1), mat(2)
            ytr, yte = (y + 1) // 2, (1 - y) // 2
            DATA[name] = {"train": (tr, ytr), "test": (te, yte), "full": (np.vstack([tr, te]), np.concatenate([ytr, yte]))}
            parts = []
            for sub, (M, t) in (("train", (tr, ytr)), ("test", (te, yte))):
                S = sparse.csr_matrix(M)
                parts += [("X_%s.data" % sub, S.data), ("X_%s.indices" % sub, S.indices), ("X_%s.indptr" % sub, S.indptr), ("y_%s" % sub, t)]
            ARCHIVE["/%s.tar.gz" % name] = pack(name, parts)
        else:
            text_archive(name, URLS[name], mat(1), y)
        seen = set()
        for s in SUBSETS[name]:
            d = box.folder()
            for s2 in [s] + list(SUBSETS[name]):
                err = right(name, s2, call(name, s2, d))
                if err:
                    ctx.fail("load_%s(%s) with %d stored entries: %s" % (name, s2, m, err[:300]))
                ctx.step()
            ctx.state(name, m, content(d))
            box.drop(d)
            body = next(v for u, v in ARCHIVE.items() if (u == "/%s.tar.gz" % name if name in STORAGE else u == URLS[name]))
            for plan in (["fail"], ["short"], [["cut", len(body) // 2]], [["cut", len(body) - 1]], [["flip", len(body) // 2, 4]]):
                d = box.folder()
                res = call(name, s, d, plan=plan)
                if res[0] == "ok" and right(name, s, res):
                    ctx.fail("load_%s(%s) with %d stored entries and a download with %s: %s" % (name, s, m, plan, right(name, s, res)[:300]))
                judge_state(ctx, box, name, d, "a download with %s (%d stored entries)" % (plan, m), seen)
                box.drop(d)
    finally:
        stop()
        ARCHIVE.clear()
        ARCHIVE.update(keep[0])
        DATA[name] = keep[1]
    ctx.trace()


def run_unchecked(ctx, box, name):
    """sequences of requests with and without verification of the download"""
    for seq in itertools.product((None, "unchecked"), repeat=3):
        for first in ("ok", "fail", "short"):
            d = box.folder()
            for k, s in enumerate(seq):
                res = call(name, s, d, plan=[first] if k == 0 else [])
                if k == 0 and first != "ok" and res[0] != "ok":
                    continue
                err = right(name, s, res)
                if err:
                    ctx.fail("request %d of %s of load_%s, first download %s: %s" % (k, seq, name, first, err))
                ctx.step()
            ctx.state(name, content(d))
            box.drop(d)
            ctx.trace()


def run_folders(ctx, box, name):
    """the ways of naming the data folder, existing or not"""
    for s in SUBSETS[name]:
        for sub in ("", "/", "/a", "/a/b/c/", "/a b", "/.hidden", "/" + name, "/x/../y", "/%s.npy" % name, "/\u00e9"):
            d = box.folder()
            for k in range(2):
                err = right(name, s, call(name, s, d + sub))
                if err:
                    ctx.fail("load_%s(%s) in folder data%s, request %d: %s" % (name, s, sub, k, err))
                ctx.step()
            ctx.state(name, sub, content(d))
            box.drop(d)
    ctx.trace()


def run_missing(ctx, box, name, s):
    """files of the complete data set disappear"""
    d = box.folder()
    err = right(name, s, call(name, s, d))
    if err:
        ctx.fail("load_%s(%s) in a fresh folder: %s" % (name, s, err))
    files = [f for f, h in content(d) if h != "dir"]
    seen = set()
    for r in range(1, len(files) + 1):
        for gone in itertools.combinations(files, r):
            if 2 < r < len(files) - 1 and not ctx.thorough:
                continue
            e = box.folder(d)
            for f in gone:
                os.remove(os.path.join(e, f))
            judge_state(ctx, box, name, e, "load_%s(%s) and the loss of %s" % (name, s, ", ".join(gone)), seen)
            box.drop(e)
    ctx.trace(len(seen))


TWICE = (("madelon", "test"), ("url", None), ("covtype", "train"), ("criteo", None))


def run_crash(ctx, box, name, s, mode, shard, shards):
    seen = set()
    depth = 1 + (ctx.thorough or (mode == "exit" and (name, s) in TWICE)) + (ctx.thorough and name == "madelon" and mode == "exit")
    level = [(None, "in a fresh folder")]
    for k in range(depth):
        new = []
        for d, how in level:
            for s2 in (SUBSETS[name] if k and ctx.thorough else (s,)):
                new += interruptions(ctx, box, name, s2, d, mode, how, seen, shard if k == 0 else 0, shards if k == 0 else 1)
        level = new
    ctx.trace(len(seen))


FAULTS = ["fail", "short", ["cut", 0], ["cut", 20]]


def run_faults(ctx, box, name):
    """sequences of download faults, then a good one"""
    md5 = name not in STORAGE
    for n in (1, 2, 3 if ctx.thorough else 2):
        for plan in itertools.product(FAULTS, repeat=n):
            for s in SUBSETS[name]:
                d = box.folder()
                used = list(plan)
                for tries in range(n):
                    before = len(used)
                    res = call(name, s, d, plan=used)
                    ctx.step()
                    if res[0] == "ok":
                        err = right(name, s, res)
                        if err:
                            ctx.fail("load_%s(%s) with downloads %s: %s" % (name, s, plan, err))
                        break
                    if not md5:
                        used = used[1:]
                    else:
                        # a corrupted download is fetched again within the same call
                        while used and isinstance(used[0], list):
                            used = used[1:]
                        used = used[1:]
                for s2 in SUBSETS[name]:
                    err = right(name, s2, call(name, s2, d))
                    if err:
                        ctx.fail("load_%s(%s) after downloads %s: %s" % (name, s2, plan, err))
                    ctx.step()
                ctx.state(name, s, content(d))
                box.drop(d)
                ctx.trace()


def run_corrupt(ctx, box, name, shard):
    """one corrupted download: the call fails or is right, the next one is right"""
    body = next(v for u, v in ARCHIVE.items() if name in u or (name == "kdd10" and "kddb" in u))
    cuts = range(0, len(body), max(1, len(body) // (len(body) if ctx.thorough else 24)))
    flips = range(0, len(body), max(1, len(body) // (len(body) if ctx.thorough else 48)))
    seen = set()
    for k, plan in enumerate([["cut", c] for c in cuts] + [["flip", f, m] for f in flips for m in ((1, 128) if ctx.thorough else (1 << (f % 8),))]):
        if k % 8 != shard:
            continue
        s = SUBSETS[name][k // 8 % len(SUBSETS[name])]
        d = box.folder()
        res = call(name, s, d, plan=[plan])
        ctx.step()
        if res[0] == "ok":
            err = right(name, s, res)
            if err:
                ctx.fail("load_%s(%s) with a download corrupted by %s: %s" % (name, s, plan, err))
        elif name not in STORAGE:
            ctx.fail("load_%s(): a corrupted download (%s) is not fetched again: %s" % (name, plan, res[1:]))
        judge_state(ctx, box, name, d, "a download corrupted by %s" % plan, seen)
        box.drop(d)
        ctx.trace()


def run_requests(ctx, box):
    """every sequence of three requests in one folder, also across data sets"""
    reqs = [(n, s) for n in SUBSETS for s in SUBSETS[n]]
    seen = set()
    for a in reqs:
        d1 = box.folder()
        err = right(a[0], a[1], call(a[0], a[1], d1))
        if err:
            ctx.fail("load_%s(%s): %s" % (a + (err,)))
        for b in reqs:
            if b[0] != a[0] and not ctx.thorough and (reqs.index(a) + reqs.index(b)) % 3:
                continue
            d2 = box.folder(d1)
            err = right(b[0], b[1], call(b[0], b[1], d2))
            if err:
                ctx.fail("load_%s(%s) after load_%s(%s): %s" % (b + a + (err,)))
            err = right(a[0], a[1], call(a[0], a[1], d2))
            if err:
                ctx.fail("load_%s(%s) again after load_%s(%s): %s" % (a + b + (err,)))
            ctx.step(2)
            ctx.state(content(d2))
            box.drop(d2)
        box.drop(d1)
        ctx.trace()


def run_reject(ctx, box):
    for name in ("madelon", "rcv1", "gisette"):
        for src in (None, "complete"):
            d = box.folder()
            if src:
                call(name, "full", d)
            for s in ("", "foo", "Train", "train ", "training", "tests", "all", None, 0, "full,train"):
                before = content(d)
                res = call(name, s, d)
                ctx.step()
                ctx.require(res[0] == "error" and res[1].startswith("ValueError"), lambda: "load_%s(%r) gives %s" % (name, s, res))
                ctx.require(content(d) == before, lambda: "load_%s(%r) changes the data folder" % (name, s))
                ctx.state(name, s, src)
            box.drop(d)
    ctx.trace()
