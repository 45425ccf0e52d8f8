"""C05: HDF files: what was written is what is read, in any order, cached or not; a crash never leaves a broken file under the final name."""
import os
import subprocess
import sys
from vlib import ds as D

RULE = (
    "case = randomly shaped/typed sequences (dense, sparse, multi-axis, empty extras, strings) written with SimpleHDFWriter (any batching, "
    "several files, extension of an existing file) or HDFDatasetWriter.dump_from_dataset, then read with HDFDataset (any order, any cache "
    "size, several epochs, random access); crash = writer process killed at every file system event or failing on a full disk. "
    "Distinct by case description."
)
ASSUMPTIONS = ["crash points are the Python audit events (open, rename, remove, copy, ...) of the writer process plus a file size limit for disk full"]
MIN_COUNTS = {"seqs_read": 3000, "crash_points": 20}
BUDGET = {"quick": 300, "thorough": 1800}
CASE_TIMEOUT = 240
HANG_IS_VIOLATION = True


def worker_init():
    D.quiet_log()


def _rand_tags(rng, n):
    base = rng.choice(["seq-%i", "corpus/rec.%i/seg.1", "ä/ß-%i", "a b %i"])
    tags = [base % i for i in range(n)]
    rng.shuffle(tags)
    return tags


def _gen(case, n):
    """specs: (dim, ndim, dtype, sparse) for data and the extras; and the data itself per seq"""
    import numpy

    rng = case.rng
    nr = case.np_rng()

    def arr(shape, dtype):
        if dtype == "bool":
            return nr.randint(0, 2, shape).astype(bool)
        if dtype.startswith("float"):
            return numpy.asarray(nr.randn(*shape)).astype(dtype)
        return numpy.asarray(nr.randint(0, 100, shape)).astype(dtype)

    maxlen = rng.choice([1, 5, 20])
    spec = {}
    r = rng.random()
    if r < 0.5:
        dim = rng.choice([1, 2, 5])
        spec["data"] = ("dense", dim, rng.choice(["float32", "float64", "int32", "uint8", "int16"]))
    elif r < 0.85:
        spec["data"] = ("sparse", rng.choice([None, 100]), rng.choice(["int32", "uint8", "int64", "float32"]))
    else:
        spec["data"] = ("multi", rng.choice([1, 3]), "float32")  # two dynamic axes
    for k in rng.sample(["classes", "other", "abc", "zz"], rng.randint(0, 3)):
        spec[k] = rng.choice(
            [("dense", rng.choice([1, 2, 4]), rng.choice(["float32", "int32", "float64"])), ("sparse", rng.choice([7, 100]), rng.choice(["int32", "uint16", "int64"])), ("scalar", 1, rng.choice(["int32", "float32"])), ("str", 1, "string")]
        )
    seqs = []
    for i in range(n):
        d = {}
        for k, (kind, dim, dtype) in spec.items():
            t = rng.randint(1, maxlen)
            if kind == "dense":
                d[k] = arr((t, dim), dtype)
            elif kind == "sparse":
                d[k] = arr((t,), dtype)
            elif kind == "multi":
                d[k] = arr((t, rng.randint(1, 4), dim), dtype)
            elif kind == "scalar":
                d[k] = arr((), dtype)
            else:
                d[k] = numpy.array(["txt %i ü" % i] * rng.randint(1, 2), dtype=object)
        seqs.append(d)
    return spec, seqs


def _write(rng, fn, spec, tags, seqs, ids, *, declare, extend=False, labels=None):
    import numpy
    from returnn.datasets.hdf import SimpleHDFWriter

    kind, dim, dtype = spec["data"]
    ndim = {"dense": 2, "sparse": 1, "multi": 3}[kind]
    extra_type = None
    extra_labels = None
    if declare:
        extra_type = {
            k: (dim_, {"dense": 2, "sparse": 1, "scalar": 0, "str": 1}[kd], dt)
            for k, (kd, dim_, dt) in spec.items()
            if k != "data"
        }
        extra_labels = {k: ["%s%i" % (k, i) for i in range(dim_)] for k, (kd, dim_, dt) in spec.items() if k != "data" and kd == "sparse" and labels}
    kw = {}
    if kind == "multi":
        extra_type = dict(extra_type or {})
        if declare:
            extra_type["sizes"] = (2, 1, "int32")
    w = SimpleHDFWriter(fn, dim=dim, ndim=ndim, extra_type=extra_type or None, extra_labels=extra_labels or None, extend_existing_file=extend, labels=labels if (labels and dim and len(labels) == dim) else None, **kw)
    pos = 0
    while pos < len(ids):
        m = rng.randint(1, 4)
        part = ids[pos : pos + m]
        # extras must be stackable
        ok = [part[0]]
        for i in part[1:]:
            if all(seqs[i][k].shape == seqs[part[0]][k].shape for k in spec if k != "data"):
                ok.append(i)
            else:
                break
        part = ok
        pos += len(part)
        arrs = [seqs[i]["data"] for i in part]
        nd = 2 if kind == "multi" else 1
        shape = [len(part)] + [max(a.shape[ax] for a in arrs) for ax in range(nd)] + list(arrs[0].shape[nd:])
        x = numpy.full(shape, 77, dtype=arrs[0].dtype)  # padding is not zero
        for j, a in enumerate(arrs):
            x[(j,) + tuple(slice(0, s) for s in a.shape)] = a
        seq_len = {ax: [a.shape[ax] for a in arrs] for ax in range(nd)}
        if nd == 1 and rng.random() < 0.5:
            seq_len = seq_len[0]
        extra = {k: numpy.stack([seqs[i][k] for i in part]) for k in spec if k != "data"}
        w.insert_batch(x, seq_len=seq_len, seq_tag=[tags[i] for i in part], extra=extra or None)
    w.close()


def _expected(spec, d):
    out = {}
    for k, v in d.items():
        kind = spec[k][0]
        if kind == "multi":
            out["sizes"] = (list(v.shape[:2]), "int32")
            out[k] = (v.reshape((-1,) + v.shape[2:]).tolist(), spec[k][2])
        elif kind == "scalar":
            out[k] = ([v.item()], spec[k][2])
        else:
            out[k] = (v.tolist(), spec[k][2])
    return out


def _norm(a):
    if a.dtype == object:
        return [x.decode("utf8") if isinstance(x, bytes) else x for x in a.tolist()]
    return a.tolist()


def _check_seq(case, ds, i, spec, tag, d, what):
    exp = _expected(spec, d)
    case.equal(ds.get_tag(i), tag, f"{what}: tag")
    ln = ds.get_seq_length(i)
    for k, (v, dt) in exp.items():
        got = ds.get_data(i, k)
        case.equal(_norm(got), v, f"{what}: content of {k} in {tag}")
        if dt != "string":
            case.equal(str(got.dtype), dt, f"{what}: dtype of {k}")
        case.equal(int(ln[k]), len(v), f"{what}: length of {k}")
    case.count("seqs_read")


def simple(case):
    import numpy

    rng = case.rng
    n = rng.choice([1, 2, rng.randint(3, 15)])
    spec, seqs = _gen(case, n)
    tags = _rand_tags(rng, n)
    td = case.tmpdir()
    nf = rng.choice([1, 1, 2, 3]) if n >= 3 else 1
    bounds = [n * j // nf for j in range(nf + 1)]
    declare = rng.random() < 0.6 or nf > 1
    labels = ["l%i" % i for i in range(spec["data"][1])] if spec["data"][1] and rng.random() < 0.3 else None
    extend = rng.random() < 0.3 and n >= 2
    cache = rng.choice([0, 0, 0, 1, 300, 2000, 10**8, -1])
    simple_types = spec["data"][0] == "dense" and all(v[0] in ("dense", "sparse", "scalar") for k, v in spec.items())
    if not simple_types:
        cache = 0
    case.desc(n=n, spec=str(spec), nf=nf, declare=declare, extend=extend, labels=bool(labels), cache=cache)
    files = []
    for j in range(nf):
        ids = list(range(bounds[j], bounds[j + 1]))
        fn = f"{td}/f{j}.hdf"
        if extend and len(ids) >= 2:
            m = rng.randint(1, len(ids) - 1)
            _write(rng, fn, spec, tags, seqs, ids[:m], declare=declare, labels=labels)
            _write(rng, fn, spec, tags, seqs, ids[m:], declare=rng.random() < 0.3, extend=True, labels=labels)
            case.count("extended")
        else:
            _write(rng, fn, spec, tags, seqs, ids, declare=declare, labels=labels)
        case.equal(sorted(os.listdir(td)), sorted(os.path.basename(x) for x in files + [fn]), "files in the directory after close")
        files.append(fn)
    so = rng.choice(["default", "random", "reverse", "sorted", "sorted_reverse", "laplace:.2"])
    ds = D.init_dataset({"class": "HDFDataset", "files": files, "seq_ordering": so, "cache_byte_size": cache})
    by_tag = dict(zip(tags, seqs))
    keys = set(spec) | ({"sizes"} if spec["data"][0] == "multi" else set())
    case.equal(set(ds.get_data_keys()), keys, "data keys")
    for k, (kind, dim, dt) in spec.items():
        if kind in ("dense",):
            case.equal(ds.get_data_dim(k), dim, "data dim " + k)
            case.equal(list(ds.get_data_shape(k)), [dim], "data shape " + k)
            case.require(not ds.is_data_sparse(k), "dense key is sparse", key=k)
        elif kind == "sparse":
            case.equal(list(ds.get_data_shape(k)), [], "data shape " + k)
            if dt.startswith(("int", "uint")):
                case.require(ds.is_data_sparse(k), "sparse key is not sparse", key=k)
            if (declare or k == "data") and dim:
                case.equal(ds.get_data_dim(k), dim, "data dim " + k)
        if dt != "string":
            case.equal(ds.get_data_dtype(k), dt, "dtype " + k)
    if labels and spec["data"][1]:
        case.equal(ds.labels.get("data"), labels, "labels")
    case.equal(ds.get_all_tags(), tags, "all tags")
    case.equal(ds.get_total_num_seqs(), n, "total num seqs")
    for epoch in rng.sample(range(1, 6), rng.randint(1, 3)):
        r = rng.random()
        if r < 0.2:
            order = [rng.randrange(n) for _ in range(rng.randint(1, n))] if cache == 0 else rng.sample(range(n), n)
            ds.init_seq_order(epoch=epoch, seq_order=order)
            exp = [tags[i] for i in order]
        elif r < 0.4:
            order = rng.sample(range(n), rng.randint(1, n)) if cache == 0 else rng.sample(range(n), n)
            ds.init_seq_order(epoch=epoch, seq_list=[tags[i] for i in order])
            exp = [tags[i] for i in order]
        else:
            ds.init_seq_order(epoch=epoch)
            exp = None
        num = ds.num_seqs
        got = []
        i = 0
        if cache == 0 and rng.random() < 0.3:
            # random access
            ds.load_seqs(0, num)
            for i in rng.sample(range(num), num):
                _check_seq(case, ds, i, spec, ds.get_tag(i), by_tag[ds.get_tag(i)], f"ep {epoch} random access")
            got = [ds.get_tag(i) for i in range(num)]
        else:
            while ds.is_less_than_num_seqs(i):
                j = min(num, i + rng.randint(1, 4))
                ds.load_seqs(i, j)
                for x in range(i, j):
                    t = ds.get_tag(x)
                    _check_seq(case, ds, x, spec, t, by_tag[t], f"ep {epoch} cache {cache}")
                    got.append(t)
                i = j
        if exp is not None:
            case.equal(got, exp, "predefined order")
        else:
            case.equal(sorted(got), sorted(tags), "all seqs once")
        case.equal([int(ds.get_corpus_seq_idx(i)) for i in range(num)], [tags.index(t) for t in got], "corpus seq idx")
    if cache == 0:
        for i in rng.sample(range(n), min(n, 4)):
            for k, (v, _) in _expected(spec, seqs[i]).items():
                case.equal(_norm(ds.get_data_by_seq_tag(tags[i], k)), v, "get_data_by_seq_tag")
            cs = ds.get_corpus_seq(i)
            case.equal(cs.seq_tag, tags[i], "get_corpus_seq tag")
            for k, (v, _) in _expected(spec, seqs[i]).items():
                case.equal(_norm(cs.get_data(k)), v, "get_corpus_seq content")


def cached(case):
    """the in-memory cache (background preload thread) delivers the same as without cache"""
    rng = case.rng
    n = rng.randint(1, 20)
    c = D.Corpus(rng, n, max_len=10)
    o = D.hdf_opts(c, case.tmpdir(), num_files=rng.choice([1, 2, 3]), seq_ordering=rng.choice(["default", "random", "sorted", "laplace:.3", "reverse"]))
    o["cache_byte_size"] = rng.choice([1, 100, 400, 1000, 3000, 10**6, 10**9, -1])
    if rng.random() < 0.3:
        o["repeat_epoch"] = rng.randint(2, 3)
    ref = D.init_dataset({**o, "cache_byte_size": 0})
    case.desc(n=n, cache=o["cache_byte_size"], so=o["seq_ordering"], files=len(o["files"]))
    ds = D.init_dataset(o)
    for ep in range(1, rng.randint(3, 5)):
        a = D.read_epoch(ref, ep)
        if rng.random() < 0.3:
            D.read_epoch(ds, ep, max_seqs=rng.randint(1, n))  # aborted epoch
        b = D.read_epoch(ds, ep, batch=rng.choice([1, 2, 5]))
        case.require(not D.diff_epoch(a, b), "with cache != without cache", diff=str(D.diff_epoch(a, b))[:500], epoch=ep)
        case.count("seqs_read", len(b))


def dump(case):
    """HDFDatasetWriter.dump_from_dataset"""
    import numpy
    from returnn.datasets.hdf import HDFDatasetWriter

    rng = case.rng
    n = rng.randint(1, 12)
    c = D.Corpus(rng, n, max_len=10)
    so = rng.choice(["default", "random", "reverse"])
    kind = rng.choice(["static", "hdf", "map"])
    if kind == "static":
        ds = D.init_dataset(D.static_opts(c, seq_ordering=so))
    elif kind == "hdf":
        ds = D.init_dataset(D.hdf_opts(c, case.tmpdir(), seq_ordering=so))
    else:
        ds = D.init_dataset({"class": "MapDatasetWrapper", "map_dataset": D.make_map_dataset(c), "seq_ordering": so})
    epoch = rng.randint(1, 4)
    start = rng.choice([0, 0, rng.randint(0, n - 1)])
    case.desc(n=n, kind=kind, so=so, epoch=epoch, start=start)
    fn = case.tmpdir() + "/out.hdf"
    w = HDFDatasetWriter(fn)
    w.dump_from_dataset(ds, epoch=epoch, start_seq=start, use_progress_bar=False)
    w.close()
    exp = D.read_epoch(ds, epoch)[start:]
    got_ds = D.init_dataset({"class": "HDFDataset", "files": [fn], "cache_byte_size": 0})
    got = D.read_epoch(got_ds, 1)
    case.count("seqs_read", len(got))
    case.equal([t for t, _ in got], [t for t, _ in exp], "tags of the dump")
    for (t, a), (_, b) in zip(got, exp):
        for k in ("data", "classes"):
            case.require(numpy.array_equal(a[k], b[k]) and a[k].dtype == b[k].dtype, "content of the dump", tag=t, key=k, got=a[k], exp=b[k])
    if kind == "map":
        return
    case.equal(got_ds.get_data_dim("classes"), ds.get_data_dim("classes"), "dim of classes")
    case.equal(got_ds.get_data_dim("data"), ds.get_data_dim("data"), "dim of data")


_CRASH = r"""
import os, sys, random
sys.path.insert(0, sys.argv[1])
out, mode, point, extend, n0, n1 = sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7])
import numpy, h5py, tempfile, shutil
from returnn.datasets.hdf import SimpleHDFWriter
os.chdir(os.path.dirname(out))
tempfile.tempdir = os.path.dirname(out) + "/tmp"
if mode == "full":
    import resource, signal
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
cnt = [0]
armed = [False]
NAMES = ("open", "os.rename", "os.remove", "shutil.copyfile", "shutil.move", "os.link", "os.truncate", "os.utime", "os.chmod", "shutil.copystat", "shutil.copymode", "tempfile.mkstemp")
def hook(name, args):
    if not armed[0] or name not in NAMES: return
    cnt[0] += 1
    if mode == "kill" and cnt[0] == point:
        os._exit(77)
sys.addaudithook(hook)
armed[0] = True
w = SimpleHDFWriter(out, dim=2, ndim=2, extend_existing_file=bool(extend))
for i in range(n0 if extend else 0, n0 + n1 if extend else n0):
    w.insert_batch(numpy.full((1, 50 + i, 2), i, dtype="float32"), seq_len=[50 + i], seq_tag=["seq-%i" % i])
if mode == "full":
    resource.setrlimit(resource.RLIMIT_FSIZE, (point, resource.RLIM_INFINITY))
w.close()
armed[0] = False
print("EVENTS", cnt[0])
"""


def crash(case):
    """writer killed at each file event / disk full while copying; the file under the final name is complete or absent/unchanged"""
    import h5py

    rng = case.rng
    extend = rng.random() < 0.5
    mode = rng.choice(["kill", "kill", "full"])
    n0, n1 = rng.randint(1, 3), rng.randint(1, 3)
    td = case.tmpdir()
    os.makedirs(td + "/tmp")
    sc = td + "/crash.py"
    with open(sc, "w") as f:
        f.write(_CRASH)
    repo = os.environ.get("VERIF_REPO", "/repo")

    def run(out, mode, point, ext, extra_env=None):
        return subprocess.run([sys.executable, sc, repo, out, mode, str(point), str(int(ext)), str(n0), str(n1)], capture_output=True, text=True, timeout=200)

    def content(fn):
        with h5py.File(fn, "r") as f:
            tags = [t.decode() if isinstance(t, bytes) else t for t in f["seqTags"][...]]
            lens = f["seqLengths"][:, 0].tolist()
            data = f["inputs"][...]
        exp_n = len(tags)
        return exp_n, tags, lens, data.shape, data

    def full_ok(fn, n):
        import numpy

        k, tags, lens, shape, data = content(fn)
        return k == n and tags == ["seq-%i" % i for i in range(n)] and lens == [50 + i for i in range(n)] and numpy.array_equal(
            data, numpy.concatenate([numpy.full((50 + i, 2), i, "float32") for i in range(n)])
        )

    out = td + "/ref.hdf"
    r = run(out, "none", 0, False)
    assert r.returncode == 0, r.stderr[-2000:]
    nev = int(r.stdout.split("EVENTS")[1])
    size = os.path.getsize(out)
    case.require(full_ok(out, n0), "reference file")
    points = list(range(1, nev + 2)) if mode == "kill" else [1, 100, size // 2, size - 1]
    if len(points) > 5:
        points = sorted(rng.sample(points, 5))
    case.desc(extend=extend, mode=mode, n0=n0, n1=n1, points=points, events=nev)
    for p in points:
        o = f"{td}/out{p}.hdf"
        if extend:
            import shutil

            shutil.copyfile(out, o)
        r = run(o, mode, p, extend)
        case.count("crash_points")
        if r.returncode == 0:
            case.require(full_ok(o, n0 + n1 if extend else n0), "after success the file is complete", point=p)
            continue
        case.count("crashed")
        if os.path.exists(o):
            ok = full_ok(o, n0 + n1 if extend else n0) or (extend and full_ok(o, n0))
            case.require(ok, "after a crash the file is neither the old nor the complete new one", point=p, mode=mode, extend=extend, err=r.stderr[-300:])
        else:
            case.require(not extend, "existing file lost by a crash", point=p, mode=mode)


KINDS = {
    "simple": {"func": simple, "quick": 500, "thorough": 6000},
    "cached": {"func": cached, "quick": 120, "thorough": 1500},
    "dump": {"func": dump, "quick": 120, "thorough": 1200},
    "crash": {"func": crash, "quick": 16, "thorough": 100},
}
