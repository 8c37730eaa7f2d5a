"""Data sets: what is downloaded is what is returned, whatever went wrong before."""
import bz2
import contextlib
import hashlib
import importlib
import io
import os
import shutil
import sys
import tarfile
import tempfile
import urllib.error
import urllib.request

import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from .. import gens
from ..core import Sub, arr, ensure, fail

RULE = ("random data sets served by a simulated network; sequences of calls with connection failures, dropped and "
        "truncated transfers, corrupted files, and interruptions at any executed line, all in a scratch directory.")

NPY = {"madelon": True, "rcv1": True, "gisette": True, "covtype": False, "news20": False}
# checksums published by the LIBSVM site
SVM = {"url": ("url_combined.bz2", "83673b8f4224c81968af2fb6022ee487"),
       "kdd10": ("kddb.bz2", "bc5b630fef6989c2f201039fef497e14"),
       "kdd12": ("kdd12.bz2", "c6fc57735c3cf687dd182d60a7b51cda"),
       "criteo": ("criteo.kaggle2014.svm.tar.gz", "d852b491d1b3afa26c1e7b49594ffc3e")}


class Interrupt(KeyboardInterrupt):
    """the user presses Ctrl-C"""


class Response:
    """what urlopen returns; can stop in the middle"""

    def __init__(self, data, fault):
        self.f, self.size, self.fault = io.BytesIO(data), len(data), fault
        self.cut = len(data) * 2 // 3
        self.headers = self
        self.status = 200

    def info(self):
        return self

    def items(self):
        return [("Content-Length", str(self.size))]

    def __contains__(self, k):
        return k.lower() == "content-length"

    def __getitem__(self, k):
        return self.get(k)

    def get(self, k, default=None):
        return str(self.size) if k.lower() == "content-length" else default

    getheader = get

    def read(self, n=-1):
        if self.fault == "truncated":
            n = self.size if n is None or n < 0 else n
            return self.f.read(max(0, min(n, self.cut - self.f.tell())))
        if self.fault == "drop":
            if self.f.tell() > 0:
                raise ConnectionResetError("connection reset by peer")
            return self.f.read(max(1, self.cut))
        return self.f.read(n)

    def geturl(self):
        return "http://simulated"

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class World:
    """scratch directory, simulated network and checksums"""

    def __init__(self, content, good):
        self.content = content            # file name -> bytes
        self.good = good                  # bytes -> published checksum
        self.faults = []
        self.requests = []

    def urlopen(self, url, *a, **kw):
        url = getattr(url, "full_url", url)
        self.requests.append(url)
        fault = self.faults.pop(0) if self.faults else "ok"
        if fault == "offline":
            raise urllib.error.URLError("network is unreachable")
        name = url.split("/")[-1]
        ensure(name in self.content, "unexpected request %s", url)
        data = self.content[name]
        if fault == "corrupt":
            data = data[:len(data) // 2] + bytes(b ^ 0x5a for b in data[len(data) // 2:])
        return Response(data, fault)

    def md5(self, data=b"", **kw):
        world = self

        class Digest:
            def __init__(self):
                self.b = bytes(data)

            def update(self, more):
                self.b += bytes(more)

            def hexdigest(self):
                return world.good.get(self.b) or REAL_MD5(self.b).hexdigest()
        return Digest()

    @contextlib.contextmanager
    def __call__(self):
        import copt.datasets
        self.dir = tempfile.mkdtemp(prefix="c24-", dir=os.environ.get("VF_SCRATCH"))
        saved = urllib.request.urlopen, hashlib.md5, tempfile.tempdir, dict(os.environ), hashlib.new
        try:
            self.tmp, self.data = os.path.join(self.dir, "tmp"), os.path.join(self.dir, "data")
            os.makedirs(self.tmp)
            os.makedirs(os.path.join(self.dir, "cwd"))
            os.environ["COPT_DATA_DIR"] = self.data
            os.environ["HOME"] = os.path.join(self.dir, "home")
            tempfile.tempdir = self.tmp
            urllib.request.urlopen, hashlib.md5 = self.urlopen, self.md5
            hashlib.new = lambda name, data=b"", **kw: self.md5(data) if name.lower() == "md5" else saved[4](name, data, **kw)
            importlib.reload(copt.datasets)
            yield copt.datasets
            ensure(sorted(set(os.listdir(self.dir)) - {"cwd", "tmp"}) in ([], ["data"]), "files written outside of the "
                   "data directory: %s", os.listdir(self.dir))
        finally:
            urllib.request.urlopen, hashlib.md5, tempfile.tempdir = saved[:3]
            hashlib.new = saved[4]
            os.environ.clear()
            os.environ.update(saved[3])
            urllib.request.urlcleanup()
            shutil.rmtree(self.dir, ignore_errors=True)


REAL_MD5 = hashlib.md5


class interrupt_at:
    """raises Interrupt when the k-th line of copt is about to run"""

    def __init__(self, module, k):
        self.file, self.k, self.n = module.__file__, k, 0

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename != self.file:
            return None
        if event == "line":
            self.n += 1
            if self.n == self.k:
                raise Interrupt()
        return self.trace

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


# ------------------------------------------------------------- generators

@st.composite
def csr(draw, d):
    n = draw(st.integers(1, 5))
    M = draw(gens.matrix(n, d, zero_cols=True))
    M[draw(st.integers(0, n - 1))][d - 1] = 1.5     # the loaders infer the number of features
    # files longer than any buffer
    return M * draw(st.sampled_from([1, 1, 1, 1, 300, 2500]))


FAULTS = ["offline", "drop", "truncated", "interrupt", "interrupt", "interrupt", "ok"]


@st.composite
def npy_case(draw):
    d = draw(st.integers(1, 4))
    names = draw(st.lists(st.sampled_from(sorted(NPY)), min_size=1, max_size=2, unique=True))
    c = {"sets": {k: {"train": draw(csr(d)), "test": draw(csr(d)) if NPY[k] else None, "order": draw(
        st.permutations(list(range(8 if NPY[k] else 4)))), "folder": draw(st.booleans())} for k in names}}
    c["calls"] = draw(st.lists(st.tuples(st.sampled_from(names), st.sampled_from(["full", "full", "train", "test"]),
                                         st.sampled_from(FAULTS), st.integers(1, 220)), min_size=1, max_size=4))
    c["explicit"] = draw(st.booleans())
    return c


def npy_bytes(a):
    f = io.BytesIO()
    np.save(f, a)
    return f.getvalue()


def labels(M, seed):
    return np.array([(i * 7 + seed) % 2 for i in range(len(M))], dtype=float)


def archive(name, spec):
    files = {}
    for part in ("train", "test") if spec["test"] is not None else ("train",):
        S = sparse.csr_matrix(np.array(spec[part]))
        for k in ("data", "indices", "indptr"):
            files["X_%s.%s.npy" % (part, k)] = npy_bytes(getattr(S, k))
        files["y_%s.npy" % part] = npy_bytes(labels(spec[part], part == "test"))
    names = sorted(files)
    out = io.BytesIO()
    with tarfile.open(fileobj=out, mode="w:gz") as tar:
        if spec["folder"]:
            m = tarfile.TarInfo(name)
            m.type, m.mode = tarfile.DIRTYPE, 0o755
            tar.addfile(m)
        for k in spec["order"]:
            m = tarfile.TarInfo(name + "/" + names[k])
            m.size = len(files[names[k]])
            tar.addfile(m, io.BytesIO(files[names[k]]))
    return out.getvalue()


def expected(spec, subset):
    parts = ["train", "test"] if subset == "full" else [subset]
    return (np.vstack([np.array(spec[p]) for p in parts]),
            np.concatenate([labels(spec[p], p == "test") for p in parts]))


def compare(got, want, what):
    ensure(isinstance(got, tuple) and len(got) == 2, "%s: returned %r", what, type(got))
    X, y = got
    ensure(sparse.issparse(X) and X.format == "csr", "%s: the data are %r", what, type(X))
    ensure(X.shape == want[0].shape and np.array_equal(X.toarray(), want[0]), "%s: data %s, expected %s", what,
           X.toarray().tolist(), want[0].tolist())
    ensure(np.array_equal(arr(y, want[1].shape, what + " labels"), want[1]), "%s: labels %s, expected %s", what,
           np.asarray(y).tolist(), want[1].tolist())


def check_npy(case, t):
    world = World({k + ".tar.gz": archive(k, s) for k, s in case["sets"].items()}, {})
    present, broken = set(), set()
    with world() as ds:
        def call(name, subset):
            kw = {"data_dir": world.data} if case["explicit"] else {}
            if NPY[name]:
                kw["subset"] = subset
            return quiet(getattr(ds, "load_" + name), **kw)
        faults = 0
        for name, subset, fault, k in case["calls"]:
            if not NPY[name]:
                subset = "train"
            want = expected(case["sets"][name], subset)
            what = "%s (%s, %s)" % (name, subset, fault)
            before = len(world.requests)
            world.faults = [] if fault in ("ok", "interrupt") else [fault]
            try:
                if fault == "interrupt":
                    with interrupt_at(ds, k):
                        got = call(name, subset)
                else:
                    got = call(name, subset)
            except (Interrupt, OSError):
                ensure(fault != "ok", "%s: failed without any fault", what)
                faults += 1
                if fault == "interrupt":
                    broken.add(name)
                ensure(fault == "interrupt" or (name, subset) not in present, "%s: needs the network although it was "
                       "downloaded before", what)
                continue
            # no fault, or one that did not matter: never wrong data
            compare(got, want, what)
            if (name, subset) in present:
                ensure(len(world.requests) == before, "%s: downloaded twice", what)
            if fault != "interrupt" and name not in broken:
                ensure((name, subset) in present or fault == "ok", "%s: returned data without network", what)
            # after an interrupted extraction the training part may stand alone
            both = subset != "train" or name not in broken
            present |= {(name, k) for k in (("train", "test", "full") if both else ("train",))}
        world.faults = []
        for name in case["sets"]:
            for subset in ("full", "train", "test") if NPY[name] else ("train",):
                compare(call(name, subset), expected(case["sets"][name], subset), "%s (%s) at the end" % (name, subset))
        n = len(world.requests)
        world.faults = ["offline"] * 9
        for name in case["sets"]:
            if NPY[name]:
                compare(call(name, "full"), expected(case["sets"][name], "full"), name + " from the cache")
                try:
                    call(name, "validation")
                except ValueError:
                    pass
                else:
                    fail("%s: unknown subset accepted", name)
        ensure(len(world.requests) == n, "a cached data set was downloaded again")
    t.hit(True, "+".join(sorted(case["sets"])) if len(case["sets"]) < 2 else "two sets")
    t.label(*["fault " + c[2] for c in case["calls"]])
    t.label("failed calls" if faults else "")


# ------------------------------------------------------------- svmlight

@st.composite
def labels_of(draw, n):
    y = draw(st.lists(st.integers(0, 1), min_size=min(n, 7), max_size=min(n, 7)))
    return (y * n)[:n]


@st.composite
def svm_case(draw):
    names = draw(st.lists(st.sampled_from(sorted(SVM)), min_size=1, max_size=3, unique=True))
    sets = {}
    for name in names:
        M = draw(csr(draw(st.integers(1, 4))))
        sets[name] = {"M": M, "signs": draw(st.booleans()),
                      "y": draw(labels_of(len(M)))}
    return {"sets": sets, "calls": draw(st.lists(st.tuples(
        st.sampled_from(names), st.sampled_from(FAULTS + ["corrupt", "corrupt", "corrupt twice"]), st.booleans(), st.integers(1, 60)),
        min_size=1, max_size=2 + len(names)))}


def svmlight(M, y):
    lines = []
    for r, v in zip(M, y):
        lines.append(" ".join(["%d" % v] + ["%d:%r" % (j + 1, float(a)) for j, a in enumerate(r) if a != 0]))
    return ("\n".join(lines) + "\n").encode()


def svm_blob(name, spec):
    """the published file, and the data that the loader returns"""
    y01 = np.array(spec["y"], dtype=float)
    # url and kdd12 convert labels -1/1 (and leave 0/1 alone)
    signs = spec["signs"] and name in ("url", "kdd12")
    text = svmlight(spec["M"], 2 * y01 - 1 if signs else y01)
    if name == "criteo":
        out = io.BytesIO()
        with tarfile.open(fileobj=out, mode="w:gz") as tar:
            m = tarfile.TarInfo("criteo.kaggle2014.train.svm")
            m.size = len(text)
            tar.addfile(m, io.BytesIO(text))
        blob = out.getvalue()
    else:
        # unique content: distinct files have distinct checksums
        blob = bz2.compress(("# %s\n" % name).encode() + text)
    return blob, (np.array(spec["M"]), y01)


def check_svm(case, t):
    content, good, want = {}, {}, {}
    for name, spec in case["sets"].items():
        blob, want[name] = svm_blob(name, spec)
        content[SVM[name][0]], good[blob] = blob, SVM[name][1]
    world = World(content, good)
    present, failed = set(), 0
    with world() as ds:
        for name, fault, check, k in case["calls"]:
            load = getattr(ds, "load_" + name)
            wrong = {"corrupt": 1, "corrupt twice": 2}.get(fault, 0)
            if wrong and not check:
                check = True        # without the checksum nobody can tell
            before = len(world.requests)
            world.faults = [] if fault in ("ok", "interrupt") else ["corrupt"] * wrong or [fault]
            what = "%s (%s, %s)" % (name, fault, check)
            try:
                if fault == "interrupt":
                    with interrupt_at(ds, k):
                        got = quiet(load, md5_check=check)
                else:
                    got = quiet(load, md5_check=check)
            except (Interrupt, OSError):
                ensure(fault in ("offline", "drop", "truncated", "interrupt"), "%s: failed although the network works",
                       what)
                ensure(fault == "interrupt" or name not in present, "%s: needs the network although it was downloaded",
                       what)
                failed += 1
                continue
            compare(got, want[name], what)
            if name in present:
                ensure(len(world.requests) == before, "%s: downloaded twice", what)
            elif wrong and len(world.requests) > before:
                ensure(len(world.requests) == before + wrong + 1, "%s: %d downloads", what, len(world.requests) - before)
            present.add(name)
        for again in range(3):
            world.faults = ["offline"] * 9 if again else []
            for name in case["sets"]:
                load = getattr(ds, "load_" + name)
                compare(quiet(load, md5_check=bool(again % 2)), want[name], "%s at the end, %d" % (name, again))
    t.hit(True, *(case["sets"] if len(case["sets"]) == 1 else ["%d sets" % len(case["sets"])]))
    t.label(*["fault " + c[1] for c in case["calls"]])
    t.label("failed calls" if failed else "")


# ---------------------------------------------------------------- image

def check_img(case, t):
    import copt.datasets
    from PIL import Image
    r, c = case["shape"]
    got = arr(copt.datasets.load_img1(r, c), (r, c), "image")
    root = os.path.dirname(os.path.abspath(copt.datasets.__file__))
    grid = np.loadtxt(os.path.join(root, "data", "img1.csv"), delimiter=",")
    k = int(round(np.sqrt(grid.shape[0])))
    want = np.array(Image.fromarray(grid.reshape(k, k)).resize((c, r)))
    ensure(np.abs(got - want).max() <= 1e-9 * (1 + np.abs(want).max()), "image of shape %s differs from the stored one",
           (r, c))
    t.hit(r != c)


SUBS = [
    Sub("cached", npy_case(), check_npy, 900, rule="every case"),
    Sub("svmlight", svm_case(), check_svm, 700, rule="every case"),
    Sub("image", st.fixed_dictionaries({"shape": st.tuples(st.integers(1, 40), st.integers(1, 40))}), check_img, 60,
        rule="not square"),
]
