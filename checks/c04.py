"""C04: PyTorch data pipeline: conservation, limits, padding, lengths, tags."""
import collections
from vlib import ds as D

RULE = (
    "case = dataset (2-3 data keys, random lengths, optionally a scalar and a raw string key) x chunking x length filter x batching "
    "(int / dict / None / callable limits) or bucket batching x online shuffle x loader; items are followed from the dataset into the "
    "batches (and the extern data tensors) by content. Non-trivial: at least one sequence; distinct by case description."
)
ASSUMPTIONS = ["a single sequence which alone exceeds batch_size makes a batch of its own (documented greedy in-order batching)"]
MIN_COUNTS = {"batches": 300, "items": 1000}
BUDGET = {"quick": 300, "thorough": 1800}


def worker_init():
    D.quiet_log()
    import torch

    torch.set_num_threads(1)


def _dataset(case, n=None, *, extra_keys=True, ratio=None):
    """:return: StaticDataset opts, list of items (dict key->array) in order"""
    import numpy

    rng = case.rng
    n = n or rng.choice([1, 2, rng.randint(3, 15), rng.randint(15, 60)])
    ratio = ratio or rng.choice([1, 2, 3])
    maxlen = rng.choice([4, 12, 40])
    data = []
    for i in range(n):
        t = rng.randint(1, maxlen)
        d = {
            "data": (numpy.arange(t * 2, dtype="float32").reshape(t, 2) + 1000 * (i + 1)),
            "classes": (numpy.arange(t * ratio, dtype="int32") + 1000 * (i + 1)),
        }
        if extra_keys:
            d["other"] = numpy.arange(rng.randint(1, 9), dtype="int64") + 1000 * (i + 1)
        data.append(d)
    opts = {
        "class": "StaticDataset",
        "data": data,
        "output_dim": {"data": (2, 2), "classes": (10**6, 1), **({"other": (10**6, 1)} if extra_keys else {})},
        "seq_ordering": rng.choice(["default", "random", "sorted", "laplace:.4"]),
    }
    if rng.random() < 0.3 and n > 3:
        opts["partition_epoch"] = 2
    return opts, data, ratio


def _wrap(ds, epoch, case):
    from returnn.torch.data.returnn_dataset_wrapper import ReturnnDatasetIterDataPipe

    return ReturnnDatasetIterDataPipe(ds, reset_callback=_Reset(ds, epoch))


class _Reset:
    def __init__(self, ds, epoch):
        self.ds, self.epoch = ds, epoch

    def __call__(self):
        self.ds.init_seq_order(epoch=self.epoch)


def _ref_items(ds, epoch):
    return [(tag, d) for tag, d in D.read_epoch(ds, epoch)]


def _ident(item):
    """content identity of an item"""
    return tuple(
        (k, item[k].tobytes(), item[k].shape) for k in sorted(item) if k not in ("seq_idx", "complete_frac", "epoch", "num_seqs", "seq_tag")
    )


def _np_tag(x):
    return "".join(chr(c) for c in x.tolist()) if getattr(x, "dtype", None) is not None and x.dtype.kind in "iu" else str(x)


def _gen_limits(rng, maxlen=40):
    keys = ["data", "classes", "other"]
    r = rng.random()
    if r < 0.45:
        bs = rng.choice([1, rng.randint(2, 30), rng.randint(20, 400)])
    elif r < 0.7:
        bs = {k: rng.randint(1, 200) for k in rng.sample(keys, rng.randint(1, 3))}
    elif r < 0.8:
        bs = None
    else:
        bs = _BsFunc(rng.randint(1, 60), rng.randint(1, 20))
    r = rng.random()
    ms = rng.randint(1, 7) if r < 0.5 else None if r < 0.7 else -1 if r < 0.85 else _MsFunc(rng.randint(1, 5))
    return bs, ms


class _BsFunc:
    """batch size as a function of the position"""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.calls = []

    def __call__(self, *, epoch, seq_idx, epoch_continuous, **_):
        self.calls.append((epoch, seq_idx, epoch_continuous))
        return self.a + self.b * (seq_idx % 3)


class _MsFunc:
    def __init__(self, a):
        self.a = a
        self.calls = []

    def __call__(self, *, epoch, seq_idx, epoch_continuous, **_):
        self.calls.append((epoch, seq_idx, epoch_continuous))
        return self.a + seq_idx % 2


def _limit(bs, seq_idx):
    if callable(bs):
        bs = bs.a + bs.b * (seq_idx % 3)
    if bs is None:
        return {}
    return bs


def _max_seqs(ms, seq_idx):
    if callable(ms):
        return ms.a + seq_idx % 2
    return 10**9 if ms in (None, -1) else ms


def _padded(items):
    res = {}
    for k in items[0]:
        if items[0][k].ndim and k not in ("seq_tag",):
            res[k] = max(len(x[k]) for x in items) * len(items)
    return res


def _exceeds(items, bs, seq_idx):
    lim = _limit(bs, seq_idx)
    pad = _padded(items)
    if isinstance(lim, dict):
        return any(pad[k] > v for k, v in lim.items() if k in pad)
    return any(v > lim for v in pad.values())


def _chunk_ref(items, chunking, min_chunk):
    """reference chunker"""
    size, step = chunking if isinstance(chunking, tuple) else (chunking, None)
    step = step or size
    out = []
    for tag, d in items:
        keys = list(size.keys()) if isinstance(size, dict) else [k for k in d]
        per_key = {}
        for k in keys:
            sz = size[k] if isinstance(size, dict) else size
            st = step[k] if isinstance(step, dict) else step
            mc = min_chunk.get(k, 0) if isinstance(min_chunk, dict) else min_chunk
            ch = []
            s = 0
            while s < len(d[k]):
                c = d[k][s : s + sz]
                if len(c) >= mc:
                    ch.append(c)
                s += st
            per_key[k] = ch
        m = {len(v) for v in per_key.values()}
        if len(m) != 1:
            return None
        for j in range(m.pop()):
            out.append((tag, {k: (per_key[k][j] if k in per_key else d[k]) for k in d}))
    return out


def pipeline(case):
    import numpy
    import torch
    from returnn.torch.data import pipeline as dp
    from returnn.torch.data import extern_data as ed
    from returnn.config import Config

    rng = case.rng
    all_keys = rng.random() < 0.15  # chunking without naming the keys
    opts, data, ratio = _dataset(case, extra_keys=not all_keys, **({"ratio": 1} if all_keys else {}))
    ds = D.init_dataset(opts)
    epoch = rng.randint(1, 4)
    items = _ref_items(ds, epoch)
    src = items
    case.count("items", len(items))
    pipe = _wrap(ds, epoch, case)

    flt = None
    if rng.random() < 0.4:
        lo = rng.choice([None, rng.randint(0, 5), {"data": rng.randint(0, 6)}])
        hi = rng.choice([None, rng.randint(3, 60), {"classes": rng.randint(2, 40)}, {"data": 20} if all_keys else {"other": 5, "data": 20}])
        flt = (lo, hi)
        pipe = dp.LenFilterDataPipe(pipe, min_seq_length=lo, max_seq_length=hi)

        def ok(d):
            for k, v in d.items():
                a = lo.get(k) if isinstance(lo, dict) else lo
                b = hi.get(k) if isinstance(hi, dict) else hi
                if a is not None and len(v) < a:
                    return False
                if b is not None and len(v) > b:
                    return False
            return True

        items = [(t, d) for t, d in items if ok(d)]
        # a plain int limit also applies to the seq tag length etc; keep to the keys we have: avoid ambiguity
        if any(isinstance(x, int) for x in (lo, hi)):
            tl = [len(t) for t, _ in src]
            if (isinstance(lo, int) and min(tl) < lo) or (isinstance(hi, int) and max(tl) > hi):
                pass  # seq_tag is a scalar object/str array here, not affected
    chunking = None
    if all_keys or rng.random() < 0.45:
        r = rng.random()
        size = rng.randint(1, 10)
        step = rng.choice([size, rng.randint(1, size), size + 1])
        if all_keys:
            chunking = rng.choice([size, (size, step)])
        elif r < 0.5:
            chunking = ({"data": size, "classes": size * ratio}, {"data": step, "classes": step * ratio})
        elif r < 0.75:
            chunking = ({"data": size}, {"data": step})
        else:
            chunking = rng.choice([{"data": size}, {"classes": size}])
        mc = rng.choice([0, 0, {"data": rng.randint(1, 4)}, {"data": 2, "classes": 2 * ratio}])
        if all_keys:
            mc = rng.choice([0, 0, 1, 2, 3])
        elif isinstance(mc, dict) and not isinstance(chunking, dict) and "classes" in chunking[0]:
            mc = {"data": mc["data"], "classes": mc["data"] * ratio}
        if isinstance(mc, dict) and isinstance(chunking, dict):
            mc = {k: v for k, v in mc.items() if k in chunking} or 0
        ref = _chunk_ref(items, chunking, mc)
        if ref is not None:
            items = ref
            pipe = dp.ChunkingIterDataPipe(pipe, chunking, min_chunk_size=mc)
        else:
            chunking = None
    bs, ms = _gen_limits(rng)
    config = Config({"batch_size": bs, "max_seqs": ms})
    via_config = rng.random() < 0.4 and bs is not None and ms is not None
    if via_config:
        d = {"batch_size": bs, "max_seqs": ms}
        if rng.random() < 0.5:
            d = {"batch_size": 1, "batch_size_train": bs, "batch_size_dev": 17, "max_seqs": ms}
        batches = dp.get_batching_iterable_dataset_from_config(dataset=pipe, config=Config(d), train=True)
    else:
        batches = dp.BatchingIterDataPipe(pipe, batch_size=bs, max_seqs=ms)
    case.desc(
        n=len(data), flt=flt, chunking=chunking, bs=repr(bs)[:60] if not callable(bs) else ["f", bs.a, bs.b],
        ms=ms if not callable(ms) else ["f", ms.a], ordering=opts["seq_ordering"], epoch=epoch,
    )
    got = list(batches)
    case.count("batches", len(got))
    flat = [x for b in got for x in b]
    case.equal(len(flat), len(items), "number of items in the batches")
    for x, (tag, d) in zip(flat, items):
        case.equal(_ident(x), _ident(d), f"item content / order (tag {tag})")
        case.equal(str(x["seq_tag"]) if x["seq_tag"].dtype.kind in "USO" else _np_tag(x["seq_tag"]), tag, "tag of the item")
    # limits + greedy
    pos = 0
    for bi, b in enumerate(got):
        case.require(len(b) > 0, "empty batch")
        for j in range(1, len(b)):
            si = int(b[j]["seq_idx"])
            case.require(not _exceeds([_strip(x) for x in b[: j + 1]], bs, si), "batch exceeds batch_size", batch=bi, sizes=_padded([_strip(x) for x in b]), bs=bs)
            case.require(j < _max_seqs(ms, si), "batch exceeds max_seqs", n=len(b), ms=ms)
        if bi + 1 < len(got):
            nxt = got[bi + 1][0]
            si = int(nxt["seq_idx"])
            case.require(
                len(b) >= _max_seqs(ms, si) or _exceeds([_strip(x) for x in b + [nxt]], bs, si),
                "batch was closed although the next sequence fits", batch=bi,
            )
    for f in (bs, ms):
        if callable(f):
            n_epoch = len(src)
            for e, si, ec in f.calls:
                case.require(e == epoch and abs(ec - (epoch - 1 + (si + 1) / n_epoch)) < 1e-5, "kwargs of the callable limit", call=(e, si, ec), n=n_epoch, epoch=epoch)
    # complete_frac
    fr = [float(x["complete_frac"]) for x in flat]
    case.require(all(a <= b for a, b in zip(fr, fr[1:])) and all(0 <= a <= 1 for a in fr), "complete_frac monotonic in [0,1]", fr=fr)
    if items and items[-1][0] == src[-1][0]:
        case.require(abs(fr[-1] - 1) < 1e-5, "complete_frac of the last sequence is 1", fr=fr[-1])
    case.equal([int(x["num_seqs"]) for x in flat], [len(src)] * len(flat), "num_seqs")
    case.equal([int(x["epoch"]) for x in flat], [epoch] * len(flat), "epoch")

    # second pass gives the same again
    got2 = list(batches)
    case.equal([[_ident(x) for x in b] for b in got2], [[_ident(x) for x in b] for b in got], "second iteration")

    # collate + extern data
    template = ed.extern_data_template_from_config_opts(
        {
            "data": {"dim": 2, "dtype": "float32"},
            "classes": {"dim": 10**6, "sparse": True, "dtype": "int32"},
            **({"other": {"dim": 10**6, "sparse": True, "dtype": "int64"}} if not all_keys else {}),
        }
    )
    for b in got:
        raw = dp.collate_batch(b)
        _check_raw(case, raw, b)
        td = ed.raw_dict_to_extern_data(raw, extern_data_template=template, device="cpu")
        for k in [k_ for k_ in ("data", "classes", "other") if k_ in b[0]]:
            t = td[k]
            case.require(t.dims[0].get_dim_value() == len(b), "batch dim", key=k)
            sizes = t.dims[1].dyn_size_ext.raw_tensor.tolist()
            case.equal(sizes, [len(x[k]) for x in b], f"sequence lengths of extern data {k}")
            for j, x in enumerate(b):
                case.require(numpy.array_equal(t.raw_tensor[j, : sizes[j]].numpy(), x[k]), f"extern data {k} content", j=j)
        # split in parts
        if len(b) > 1:
            m = rng.randint(2, len(b))
            case.require(ed.raw_dict_can_split_batch(raw, num_splits=m), "can split")
            parts = ed.raw_dict_split_batch(raw, splits=m)
            case.equal(len(parts), m, "number of splits")
            off = 0
            for part in parts:
                sz = part["data"].shape[0]
                case.require(sz > 0, "empty split")
                _check_raw(case, part, b[off : off + sz], complete=raw["complete_frac"])
                off += sz
            case.equal(off, len(b), "split sizes sum up")


def _strip(x):
    return {k: v for k, v in x.items() if k not in ("seq_tag", "seq_idx", "num_seqs", "epoch", "complete_frac")}


def _check_raw(case, raw, b, complete=None):
    import numpy
    import torch

    for k in [k_ for k_ in ("data", "classes", "other") if k_ in b[0]]:
        a = raw[k].numpy()
        lens = raw[k + ":seq_len"].tolist()
        case.equal(lens, [len(x[k]) for x in b], f"collate: lengths {k}")
        case.equal(a.shape[:2], (len(b), max(lens)), f"collate: shape {k}")
        for j, x in enumerate(b):
            case.require(numpy.array_equal(a[j, : lens[j]], x[k]), f"collate: content {k}", j=j, got=a[j], exp=x[k])
            case.require(not numpy.any(a[j, lens[j] :]), f"collate: padding of {k} not zero", j=j)
            case.require(a.dtype == x[k].dtype, "collate: dtype", got=a.dtype, exp=x[k].dtype)
    tags = raw["seq_tag"]
    case.equal([str(t) for t in tags], [str(x["seq_tag"]) for x in b], "collate: tags")
    if complete is None:
        complete = max(x["complete_frac"] for x in b)
    case.equal(float(raw["complete_frac"]), float(complete), "collate: complete_frac is that of the furthest sequence")
    case.equal(int(raw["epoch"]), int(b[0]["epoch"]), "collate: epoch")
    case.equal(int(raw["num_seqs"]), int(b[0]["num_seqs"]), "collate: num_seqs")


def buckets(case):
    from returnn.torch.data import pipeline as dp
    from returnn.config import Config

    rng = case.rng
    opts, data, _ = _dataset(case)
    ds = D.init_dataset(opts)
    epoch = rng.randint(1, 3)
    items = _ref_items(ds, epoch)
    case.count("items", len(items))
    lims = sorted(rng.sample(range(1, 45), rng.randint(1, 5)))
    bk = [(l, rng.randint(1, 6)) for l in lims]
    if rng.random() < 0.5:  # as usual: longer sequences, smaller batches
        bk = list(zip(lims, sorted([rng.randint(1, 8) for _ in lims], reverse=True)))
    shuffled = rng.sample(bk, len(bk))
    prob = rng.choice([0.0, 0.0, 0.5, 1.0])
    key = rng.choice(["data", "classes"])
    case.desc(n=len(items), buckets=bk, prob=prob, key=key)
    if rng.random() < 0.5:
        cfg = Config({"torch_batching": {"class": "BucketOrderingIterDataPipe", "buckets": shuffled, "length_key": key, "random_bucket_prob": prob, "seed": 42}})
        batches = dp.get_batching_iterable_dataset_from_config(dataset=_wrap(ds, epoch, case), config=cfg, train=True)
    else:
        batches = dp.BucketOrderingIterDataPipe(_wrap(ds, epoch, case), buckets=shuffled, length_key=key, random_bucket_prob=prob, seed=42)
    got = list(batches)
    case.count("batches", len(got))
    keep = [d for _, d in items if len(d[key]) <= lims[-1]]
    exp = collections.Counter(_ident(d) for d in keep)
    have = collections.Counter(_ident(_strip(x)) for b in got for x in b)
    case.require(exp == have, "bucket batching must deliver every not-too-long sequence exactly once", missing=len(exp - have), extra=len(have - exp))
    fits = lambda l: [bi for bi, (lim, _) in enumerate(bk) if l <= lim]
    for b in got:
        case.require(len(b) > 0, "empty batch")
        cand = set(range(len(bk)))
        for x in b:
            cand &= {fits(len(x[key]))[0]} if prob == 0 else set(fits(len(x[key])))
        cand = {c for c in cand if len(b) <= bk[c][1]}
        case.require(cand, "batch does not belong to any bucket (length limit / max seqs)", lens=[len(x[key]) for x in b], buckets=bk)
        idx = [int(x["seq_idx"]) for x in b]
        case.require(idx == sorted(idx), "order within the bucket", idx=idx)
    if prob == 0:
        full = collections.Counter()
        part = collections.Counter()
        for b in got:
            c = fits(len(b[0][key]))[0]
            (full if len(b) == bk[c][1] else part)[c] += 1
        case.require(all(v <= 1 for v in part.values()), "more than one not full batch of a bucket", part=part)


def limit_kwargs(case):
    """what a callable limit gets, with and without known epoch length"""
    import numpy
    from returnn.torch.data import pipeline as dp

    rng = case.rng
    epoch = rng.randint(1, 5)
    n = rng.randint(1, 12)
    known_n, known_frac = rng.random() < 0.6, rng.random() < 0.4
    fr = sorted(rng.random() for _ in range(n))
    case.desc(n=n, known_n=known_n, known_frac=known_frac, epoch=epoch)
    items = [
        {
            "data": numpy.zeros((rng.randint(1, 5), 1), dtype="float32"),
            "seq_tag": numpy.array("t%i" % i, dtype=object),
            "seq_idx": numpy.array(i), "epoch": numpy.array(epoch), "num_seqs": numpy.array(n if known_n else -1),
            "complete_frac": numpy.array(fr[i] if known_frac else -1, dtype="float32"),
        }
        for i in range(n)
    ]
    a, b = _MsFunc(rng.randint(1, 3)), _BsFunc(rng.randint(3, 10), rng.randint(0, 3))
    got = list(dp.BatchingIterDataPipe(items, batch_size=b, max_seqs=a))
    case.equal([int(x["seq_idx"]) for bb in got for x in bb], list(range(n)), "all items in order")
    for f in (a, b):
        case.equal([c[:2] for c in f.calls], [(epoch, i) for i in range(n)], "epoch and seq_idx for the callable limit")
        for (_, i, ec) in f.calls:
            exp = epoch - 1 + fr[i] if known_frac else (epoch - 1 + (i + 1) / n if known_n else None)
            case.require((ec is None) == (exp is None) and (exp is None or abs(ec - exp) < 1e-5), "epoch_continuous for the callable limit", got=ec, expected=exp)
    case.count("items", n)
    case.count("batches", len(got))


def shuffle(case):
    """online shuffling of batches"""
    import torch
    from returnn.torch.data import pipeline as dp

    rng = case.rng
    opts, data, _ = _dataset(case)
    ds = D.init_dataset(opts)
    epoch = rng.randint(1, 3)
    bs = rng.randint(1, 60)
    ms = rng.choice([1, 2, 3, None])
    buf = rng.choice([1, 2, 3, 5, 8, 100])
    base = [[dict(x) for x in b] for b in dp.BatchingIterDataPipe(_wrap(ds, epoch, case), batch_size=bs, max_seqs=ms)]
    seed = rng.randrange(2**40)
    case.desc(n=len(base), buf=buf, ms=ms, bs=bs)
    case.count("batches", len(base))
    case.count("items", sum(map(len, base)))

    def run(seed):
        p = dp.ShufflingDataPipe(
            dp.BatchingIterDataPipe(_wrap(ds, epoch, case), batch_size=bs, max_seqs=ms),
            buffer_size=buf, monotonic_data_keys=("complete_frac", "seq_idx"), seed=seed,
        )
        r = list(p)
        p.set_seed(seed)
        case.equal([[_ident(_strip(x)) for x in b] for b in p], [[_ident(_strip(x)) for x in b] for b in r], "same seed, same order")
        return r

    got = run(seed)
    ref_b = [tuple(_ident(_strip(x)) for x in b) for b in base]
    got_b = [tuple(_ident(_strip(x)) for x in b) for b in got]
    case.equal(collections.Counter(got_b), collections.Counter(ref_b), "shuffled batches are a permutation of the batches")
    for key in ("complete_frac", "seq_idx"):
        a = [x[key].item() for b in got for x in b]
        case.equal(a, [x[key].item() for b in base for x in b], f"{key} keeps its order")
    for b in got:
        for x in b:
            case.require(any(x["seq_tag"] == y["seq_tag"] and _ident(_strip(x)) == _ident(_strip(y)) for bb in base for y in bb), "tag belongs to the content")
    pos = {}
    for i, r in enumerate(ref_b):
        pos.setdefault(r, []).append(i)
    for i, g in enumerate(got_b):
        case.require(min(abs(p - i) for p in pos[g]) < max(buf, 1) , "a batch moved further than the shuffle buffer", i=i, pos=pos[g], buf=buf)


def loader(case):
    """through the real DataLoader, in this process and with spawned workers"""
    import numpy
    from returnn.torch.data import pipeline as dp
    from returnn.config import Config, set_global_config

    rng = case.rng
    opts, data, _ = _dataset(case, n=rng.randint(3, 20))
    ds = D.init_dataset(opts)
    workers = case.index % 3
    if workers == 2:
        workers = 1
        lopts = {}
    else:
        lopts = {"num_workers": workers}
    bs, ms = rng.randint(5, 80), rng.choice([-1, 3])
    case.desc(n=len(data), workers=workers, bs=bs, ms=ms, opts=lopts)
    set_global_config(Config({"backend": "torch"}))
    import torch

    mgr = torch.multiprocessing.Manager()
    ep = mgr.Value("i", 1)
    from returnn.torch.data.returnn_dataset_wrapper import ReturnnDatasetIterDataPipe, ReturnnDatasetResetMpSharedEpochCallback

    pipe = ReturnnDatasetIterDataPipe(ds, reset_callback=ReturnnDatasetResetMpSharedEpochCallback(dataset=ds, epoch_mp_shared=ep))
    batches = dp.BatchingIterDataPipe(pipe, batch_size=bs, max_seqs=ms)
    dl = dp.create_data_loader_from_batches(batches, lopts)
    ref = D.init_dataset(opts)
    for epoch in (1, 2, 3):
        ep.value = epoch
        items = _ref_items(ref, epoch)
        got = list(dl)
        flat = []
        for raw in got:
            n = raw["data"].shape[0]
            for j in range(n):
                flat.append(
                    (str(raw["seq_tag"][j]), {k: raw[k][j, : int(raw[k + ":seq_len"][j])].numpy() for k in ("data", "classes", "other")})
                )
        case.count("batches", len(got))
        case.count("items", len(flat))
        case.equal([t for t, _ in flat], [t for t, _ in items], f"epoch {epoch}: sequences through the data loader ({workers} workers)")
        for (t, a), (_, b) in zip(flat, items):
            for k in a:
                case.require(numpy.array_equal(a[k], b[k]), f"content {t} {k}")
    set_global_config(Config())
    del dl
    mgr.shutdown()


KINDS = {
    "pipeline": {"func": pipeline, "quick": 1200, "thorough": 15000},
    "buckets": {"func": buckets, "quick": 300, "thorough": 4000},
    "shuffle": {"func": shuffle, "quick": 300, "thorough": 4000},
    "limit_kwargs": {"func": limit_kwargs, "quick": 200, "thorough": 2000},
    "loader": {"func": loader, "quick": 9, "thorough": 60},
}
