"""C07: DistributeFilesDataset gives every file to exactly one sub-epoch and shard."""
import copy
import os
import pickle
from vlib import ds as D

RULE = (
    "case = number, sizes and nesting of files x partition_epoch x shards x file order x order inside the sub-epoch x preloading x history of "
    "epoch requests; the delivered sequences name their file. Non-trivial: at least two files and one delivered sub-epoch."
)
ASSUMPTIONS = ["file sizes are given by sparse files", "a hang is judged after 300 s without any progress"]
MIN_COUNTS = {"sub_epochs": 100, "full_epochs": 15}
BUDGET = {"quick": 300, "thorough": 1500}
CASE_TIMEOUT = 300
HANG_IS_VIOLATION = True


def worker_init():
    D.quiet_log()


def _files(case, m):
    """:return: file trees, sizes"""
    rng = case.rng
    tmp = case.tmpdir()
    form = rng.choice(["plain", "plain", "tuple", "dict", "nested", "list"])
    style = rng.choice(["equal", "uniform", "skewed", "one_big", "small_first"])
    sizes, trees = [], []
    for i in range(m):
        if style == "equal":
            s = 1000
        elif style == "uniform":
            s = rng.randint(1, 1000)
        elif style == "skewed":
            s = int(1000 ** (1 + rng.random()))
        elif style == "one_big":
            s = 10 ** 6 if i == m // 2 else rng.randint(1, 100)
        else:
            s = 5 if i < m // 2 else 1000
        parts = [s] if form == "plain" else [rng.choice([0, 1]), s] if rng.random() < 0.5 else [s, rng.choice([0, 1])]
        names = []
        for j, x in enumerate(parts):
            fn = f"{tmp}/part{j}-{i}"
            with open(fn, "wb") as f:
                f.truncate(x)
            names.append(fn)
        sizes.append(sum(parts))
        trees.append(
            names[0] if form == "plain" else tuple(names) if form == "tuple" else list(names) if form == "list"
            else {"a": names[0], "b": names[1]} if form == "dict" else {"x": [names[0], {"y": names[1]}]}
        )
    case.desc(form=form, sizes=style)
    return trees, sizes


def _gen(case, max_parts=8):
    from vlib.mpfuncs import FilesSub

    rng = case.rng
    p = rng.randint(1, 4)
    shards = rng.choice([1, 1, 2, 3]) if p <= 3 else 1
    m = rng.choice([p * shards, p * shards + 1, rng.randint(p * shards, p * shards + 12)])
    m = max(m, 2)
    trees, sizes = _files(case, m)
    num_seqs = [rng.randint(1, 4) for _ in range(m)]
    so = rng.choice(["default", "random", "random"])
    sub_so = rng.choice(["default", "random", "sorted", "laplace:.3"])
    opts = {
        "class": "DistributeFilesDataset", "files": trees, "seq_ordering": so, "partition_epoch": p,
        "get_sub_epoch_dataset": FilesSub(num_seqs, sub_so),
        "preload_next_n_sub_epochs": rng.choice([0, 0, 1, 2]), "buffer_size": rng.choice([1, 2, 10]),
    }
    if rng.random() < 0.3:
        opts["random_seed_offset"] = rng.randrange(1000)
    case.desc(m=m, p=p, shards=shards, so=so, sub_so=sub_so, preload=opts["preload_next_n_sub_epochs"])
    return opts, num_seqs, sizes, m, p, shards, so, sub_so


def _read(case, ds, e):
    out = []
    for tag, d in D.read_epoch(ds, e):
        a = d["data"]
        f, j = int(a[0, 0]), int(a[0, 1])
        case.equal(tag, f"file-{f}-seq-{j}", "tag and content")
        case.require(a.shape == (1 + (f * 3 + j) % 4, 2) and (a == a[0]).all(), "content", a=a)
        out.append((f, j))
    case.count("sub_epochs")
    case.count("seqs", len(out))
    return out


def _check_sub(case, got, num_seqs, sub_so, what):
    """complete files only; returns the file ids"""
    case.require(got, f"{what}: empty sub-epoch")
    case.equal(len(set(got)), len(got), f"{what}: sequence delivered twice", seqs=got)
    files = []
    for f, j in got:
        if f not in files:
            files.append(f)
    case.equal(sorted(got), sorted((f, j) for f in files for j in range(num_seqs[f])), f"{what}: incomplete file")
    if sub_so == "default":
        case.equal(got, [(f, j) for f in files for j in range(num_seqs[f])], f"{what}: order inside the sub-epoch")
    return files


def _harmonic(n):
    return sum(1.0 / i for i in range(1, n + 1))


def full(case):
    """one or two full epochs over all sub-epochs and shards"""
    opts, num_seqs, sizes, m, p, shards, so, sub_so = _gen(case)
    rng = case.rng
    dss = [D.init_dataset({**opts, **({"_num_shards": shards, "_shard_index": i} if shards > 1 else {})}) for i in range(shards)]
    for ep in rng.sample([0, 1, 2], rng.choice([1, 2])):
        bins = []
        for i in range(shards):
            for sub in range(p):
                e = ep * p + sub + 1
                if sub and rng.random() < 0.3:  # restarted in between
                    dss[i] = D.init_dataset({**opts, **({"_num_shards": shards, "_shard_index": i} if shards > 1 else {})})
                    case.count("restarts")
                ds = dss[i]
                got = _read(case, ds, e)
                case.equal(ds.num_seqs, len(got), "num_seqs")
                bins.append(_check_sub(case, got, num_seqs, sub_so, f"epoch {e}"))
        flat = [f for b in bins for f in b]
        case.equal(sorted(flat), list(range(m)), f"full epoch {ep}: each file exactly once", bins=bins)
        if so == "default" and sub_so == "default":
            case.equal(flat, list(range(m)), "default file order")
        n = p * shards
        bs = [sum(sizes[f] for f in b) for b in bins]
        avg = sum(sizes) / n
        bound = avg + max(sizes) * (1 + _harmonic(n) / 2)
        case.require(max(bs) <= bound, "file sizes not distributed evenly", bins=bs, avg=avg, bound=bound)
        if len(set(sizes)) == 1:
            ls = [len(b) for b in bins]
            case.require(max(ls) - min(ls) <= 1, "equally sized files not distributed evenly", lens=ls)
        case.count("full_epochs")


def history(case):
    """the content and order of a sub-epoch does not depend on what was read before"""
    opts, num_seqs, sizes, m, p, shards, so, sub_so = _gen(case)
    rng = case.rng
    if shards > 1:
        opts.update(_num_shards=shards, _shard_index=rng.randrange(shards))
    epochs = rng.sample(range(1, 3 * p + 1), min(3, 3 * p))
    ref = {e: _read(case, D.init_dataset(opts), e) for e in epochs}
    for e in epochs:
        _check_sub(case, ref[e], num_seqs, sub_so, f"epoch {e}")
    ds = D.init_dataset(opts)
    steps = []
    for _ in range(rng.randint(4, 8)):
        e = rng.choice(epochs)
        r = rng.random()
        if r < 0.6:
            steps.append(e)
            case.equal(_read(case, ds, e), ref[e], f"epoch {e} depends on the history {steps}")
            case.count("histories_compared")
        elif r < 0.75:
            steps.append(("abort", e))
            D.read_epoch(ds, e, max_seqs=rng.randint(0, 2))
        elif r < 0.85:
            free = rng.random() < 0.5
            steps.append(("finish", free))
            ds.finish_epoch(free_resources=free)
        elif r < 0.9:
            steps.append("none")
            ds.init_seq_order(epoch=None)
        else:
            steps.append("copy")
            ds = pickle.loads(pickle.dumps(ds)) if rng.random() < 0.5 else copy.deepcopy(ds)
    e = rng.choice(epochs)
    case.equal(_read(case, ds, e), ref[e], f"epoch {e} depends on the history {steps}")
    case.desc(steps=[str(s) for s in steps])


def rand(case):
    """random file order: changes with the full epoch and the seed offset"""
    from vlib.mpfuncs import FilesSub

    rng = case.rng
    m, p = 12, 2
    tmp = case.tmpdir()
    files = []
    for i in range(m):
        fn = f"{tmp}/f-{i}"
        with open(fn, "wb") as f:
            f.truncate(100)
        files.append(fn)
    opts = {"class": "DistributeFilesDataset", "files": files, "seq_ordering": "random", "partition_epoch": p,
            "get_sub_epoch_dataset": FilesSub([1] * m), "preload_next_n_sub_epochs": 0}
    ds = D.init_dataset(opts)
    orders = {tuple(_read(case, ds, 1 + p * k)) for k in range(3)}
    case.require(len(orders) > 1, "random file order is the same in every full epoch", orders=orders)
    o2 = [tuple(_read(case, D.init_dataset({**opts, "random_seed_offset": s}), 1)) for s in rng.sample(range(1, 10 ** 6), 2)]
    case.require(len(set(o2)) > 1, "random file order does not depend on random_seed_offset", orders=o2)
    fixed = D.init_dataset({**opts, "fixed_random_seed": rng.randrange(1000)})
    fo = {tuple(_read(case, fixed, 1 + p * k)) for k in range(2)}
    case.equal(len(fo), 1, "fixed_random_seed gives one order")


def dedicated(case):
    """below a MultiProcDataset with dedicated workers"""
    opts, num_seqs, sizes, m, p, shards, so, sub_so = _gen(case)
    rng = case.rng
    w = rng.choice([1, 2, 3])
    while w * p > m:
        w -= 1
    if not w:
        w, opts["partition_epoch"], p = 1, 1, 1
    ds = D.init_dataset({"class": "MultiProcDataset", "dataset": opts, "num_workers": w, "buffer_size": rng.choice([1, 3]), "sharding_method": "dedicated"})
    case.desc(workers=w)
    all_ = []
    for sub in range(p):
        all_ += _read(case, ds, sub + 1)
    case.equal(sorted(all_), sorted((f, j) for f in range(m) for j in range(num_seqs[f])), "full epoch over dedicated workers: every sequence exactly once")
    case.count("full_epochs")


def fault(case):
    """a failing worker gives an exception, never a silently shorter sub-epoch"""
    from vlib.mpfuncs import FilesSub

    opts, num_seqs, sizes, m, p, shards, so, sub_so = _gen(case)
    rng = case.rng
    clean = D.init_dataset(opts)
    e = rng.randint(1, p)
    exp = _read(case, clean, e)
    at = rng.choice(exp)
    kind = rng.choice(["raise", "exit", "kill"])
    ds = D.init_dataset({**opts, "get_sub_epoch_dataset": FilesSub(num_seqs, sub_so, at, kind)})
    got, exc = [], None
    try:
        ds.init_seq_order(epoch=e)
        i = 0
        while ds.is_less_than_num_seqs(i):
            ds.load_seqs(i, i + 1)
            a = ds.get_data(i, "data")
            got.append((int(a[0, 0]), int(a[0, 1])))
            i += 1
    except Exception as ex:
        exc = ex
    case.count("faults_injected")
    case.require(exc is not None, f"worker failure ({kind} at {at}) went unnoticed, {len(got)} of {len(exp)} seqs")
    case.equal(got, exp[: len(got)], "data before the failure")


KINDS = {
    "full": {"func": full, "quick": 60, "thorough": 500},
    "history": {"func": history, "quick": 40, "thorough": 300},
    "rand": {"func": rand, "quick": 6, "thorough": 30},
    "dedicated": {"func": dedicated, "quick": 16, "thorough": 120},
    "fault": {"func": fault, "quick": 16, "thorough": 100},
}
