"""C03: generic batch construction (chunking, batch limits, padding limits, frame batching, feed arrays)."""
import threading
from vlib import ds as D

RULE = (
    "case = dataset (StaticDataset or HDFDataset, several data keys with own lengths) x chunking (int/str/tuple/dict, step, min chunk size, "
    "variance, custom function) x context window x batch limits (size, seqs, sequence length, padding; int or per key) x recurrent or frame "
    "batching x random peek/advance protocol; all batch slices are compared with an independent reference chunker, frames are followed by content. "
    "Distinct by case description."
)
ASSUMPTIONS = ["a single chunk which alone exceeds batch_size makes a batch of its own"]
MIN_COUNTS = {"batches": 500, "slices": 2000, "feed_batches": 100}
BUDGET = {"quick": 300, "thorough": 1500}


def worker_init():
    import os

    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    D.quiet_log()


def _mk(case, *, equal_lens=False, ratio=1, n=None, maxlen=None, short_key=False):
    import numpy

    rng = case.rng
    n = n or rng.choice([1, 2, rng.randint(3, 12), rng.randint(12, 40)])
    maxlen = maxlen or rng.choice([3, 12, 30])
    data = []
    for i in range(n):
        t = rng.randint(1, maxlen)
        d = {"data": numpy.arange(t * 2, dtype="float32").reshape(t, 2) + 1000 * (i + 1)}
        tc = t * ratio if equal_lens else rng.randint(1, maxlen)
        d["classes"] = numpy.arange(tc, dtype="int32") + 1000 * (i + 1)
        if short_key:
            d["one"] = numpy.array([i], dtype="int32")
        data.append(d)
    od = {"data": (2, 2), "classes": (10**6, 1)}
    if short_key:
        od["one"] = (10**6, 1)
    return data, {"class": "StaticDataset", "data": data, "output_dim": od}


def _ref_chunks(lens, keys, size, step, minc, order):
    """lens: list of dict key->len in delivery order; returns list of (seq_idx, {key: (start, end)}) """
    out = []
    for s, length in enumerate(lens):
        if not size:
            out.append((s, {k: (0, length[k]) for k in keys}))
            continue
        full = [k for k in keys if length[k] <= 1 and not (step[k] == step[keys[0]] and length[k] == length[keys[0]])]
        j = 0
        while True:
            if j and any(length[k] - j * step[k] <= minc[k] for k in keys):
                break
            out.append(
                (s, {k: (0, length[k]) if k in full else (j * step[k], min(j * step[k] + size[k], length[k])) for k in keys})
            )
            j += 1
            if length[keys[0]] <= j * step[keys[0]]:
                break
    return out


def _slice_desc(seq, keys):
    return seq.seq_idx, {k: (int(seq.seq_start_frame[k]), int(seq.seq_end_frame[k])) for k in keys}


def _drive(case, gen):
    """consume a BatchSetGenerator by a random protocol; returns all batches"""
    rng = case.rng
    out = []
    fr = []
    while True:
        if rng.random() < 0.3:
            k = rng.randint(1, 4)
            pk = gen.peek_next_n(k)
            case.require(len(pk) <= k, "peek returned too many")
            if rng.random() < 0.3:
                case.require(all(a is b for a, b in zip(pk, gen.peek_next_n(k))), "peek twice gives different batches")
        if not gen.has_more():
            break
        n = rng.randint(1, 3)
        pk = gen.peek_next_n(n)
        case.require(1 <= len(pk) <= n, "has_more but peek gave nothing / too much", n=n, got=len(pk))
        gen.advance(len(pk))
        out += pk
        case.equal(gen.get_current_batch_idx(), len(out), "current batch idx")
        fr.append(gen.completed_frac())
    case.equal(gen.peek_next_n(2), [], "peek after the end")
    case.require(not gen.has_more(), "has_more after the end")
    case.require(all(0 < f <= 1 for f in fr), "completed_frac outside of (0,1]", fr=fr)
    return out, fr


def recurrent(case):
    rng = case.rng
    mode = rng.choice(["none", "none", "chunk", "chunk", "chunk", "variance", "custom"])
    ratio = rng.choice([1, 1, 2, 3]) if mode in ("chunk", "variance") else 1
    short = rng.random() < 0.2
    data, opts = _mk(case, equal_lens=mode in ("chunk", "variance"), ratio=ratio, short_key=short)
    keys = ["data", "classes"] + (["one"] if short else [])
    used = None
    if mode == "variance" or rng.random() < 0.3:
        used = set(keys)
    size = step = None
    minc = {k: 0 for k in keys}
    if mode in ("chunk", "variance"):
        s = rng.randint(1, 10)
        st = rng.choice([s, rng.randint(1, s), s + rng.randint(1, 3)])
        size = {k: s * (ratio if k == "classes" else 1) for k in keys}
        step = {k: st * (ratio if k == "classes" else 1) for k in keys}
        if ratio == 1:
            ch = rng.choice([(s, st), f"{s}:{st}", (dict(size), dict(step))])
            if st == s and rng.random() < 0.5:
                ch = rng.choice([s, str(s), dict(size)])
        else:
            ch = (dict(size), dict(step))
        opts["chunking"] = ch
        if rng.random() < 0.4:
            m = rng.randint(1, s)
            if ratio == 1 and not short:
                minc = {k: m for k in keys}
                opts["min_chunk_size"] = rng.choice([m, dict(minc)])
            else:
                minc = {k: (m * ratio if k == "classes" else m if k == "data" else 0) for k in keys}
                opts["min_chunk_size"] = dict(minc)
            if ratio > 1:
                # same number of chunks in all keys is required
                minc = {k: 0 for k in keys}
                opts.pop("min_chunk_size")
        if short and (ratio > 1 or "min_chunk_size" in opts):
            return recurrent_plain(case, data, opts, keys)
    if short and mode in ("chunk", "variance"):
        return recurrent_plain(case, data, opts, keys)
    if mode == "variance":
        opts["chunking_variance"] = rng.choice([0.2, 0.5, 0.9])
    if mode == "custom":
        opts["chunking"] = _CustomChunk(rng.randint(1, 5))
    ctx = {k: (0, 0) for k in keys}
    r = rng.random()
    if r < 0.2:
        w = rng.randint(1, 6)
        opts["context_window"] = w
        ctx["data"] = ((w - 1) // 2, (w - 1) - (w - 1) // 2)
    elif r < 0.3:
        w = {k: rng.randint(1, 5) for k in keys}
        opts["context_window"] = dict(w)
        ctx = {k: ((w[k] - 1) // 2, (w[k] - 1) - (w[k] - 1) // 2) for k in keys}
    elif r < 0.4:
        a, b = {k: rng.randint(0, 3) for k in keys}, {k: rng.randint(0, 3) for k in keys}
        opts["context_window"] = (a, b)
        ctx = {k: (a[k], b[k]) for k in keys}
    _recurrent(case, data, opts, keys, size, step, minc, ctx, used, mode)


def recurrent_plain(case, data, opts, keys):
    """keys of length one are repeated in full for every chunk"""
    opts.pop("min_chunk_size", None)
    opts.pop("chunking_variance", None)
    s = case.rng.randint(1, 6)
    opts["chunking"] = s
    for d in data:
        d["classes"] = d["classes"][: len(d["data"])]
        if len(d["classes"]) < len(d["data"]):
            d["data"] = d["data"][: len(d["classes"])]
    size = {k: s for k in keys}
    _recurrent(case, data, opts, keys, size, size, {k: 0 for k in keys}, {k: (0, 0) for k in keys}, None, "one", no_min=True)


class _CustomChunk:
    def __init__(self, size):
        self.size = size

    def __call__(self, *, dataset, seq_idx_start, recurrent_net, used_data_keys, **_):
        from returnn.util import NumbersDict

        s = seq_idx_start
        while dataset.is_less_than_num_seqs(s):
            dataset.load_seqs(s, s + 1)
            ln = dataset.get_seq_length(s)
            n = 0
            while n < ln["data"]:
                a = NumbersDict({k: min(n, ln[k] - 1) for k in ln.keys()})
                b = NumbersDict({k: min(n + self.size, ln[k]) for k in ln.keys()})
                yield s, a, b
                n += self.size
            s += 1


def _limit_val(lim, k):
    if isinstance(lim, dict):
        return lim.get(k)
    return lim


def _recurrent(case, data, opts, keys, size, step, minc, ctx, used, mode, no_min=False):
    rng = case.rng
    opts["seq_ordering"] = rng.choice(["default", "random", "laplace:.3"])
    ds = D.init_dataset(opts)
    epoch = rng.randint(1, 3)
    items = D.read_epoch(ds, epoch)
    lens = [{k: len(d[k]) for k in keys} for _, d in items]

    bs = rng.choice([1, rng.randint(2, 25), rng.randint(20, 150), {k: rng.randint(1, 100) for k in rng.sample(keys, rng.randint(1, len(keys)))}])
    ms = rng.choice([-1, -1, rng.randint(1, 6)])
    maxl = rng.choice([None, None, rng.randint(2, 30), {"classes": rng.randint(1, 12)}, -rng.randint(2, 20)])
    minl = rng.choice([0, 0, rng.randint(1, 4), {"data": rng.randint(1, 5)}])
    pad = rng.choice([None, None, rng.randint(0, 20), {"data": rng.randint(0, 8)}])
    kw = {"recurrent_net": True, "batch_size": bs}
    if ms != -1 or rng.random() < 0.5:
        kw["max_seqs"] = ms
    if maxl is not None:
        kw["max_seq_length"] = maxl
    if minl:
        kw["min_seq_length"] = minl
    if pad is not None:
        kw["max_pad_size"] = pad
    if used is not None:
        kw["used_data_keys"] = used
    case.desc(n=len(items), mode=mode, chunking=str(opts.get("chunking"))[:80] if mode != "custom" else "custom", minc=str(opts.get("min_chunk_size")), ctx=str(opts.get("context_window")), kw={k: str(v) for k, v in kw.items()}, lens=str([tuple(l.values()) for l in lens])[:300])
    if isinstance(maxl, int) and maxl < 0:
        maxl = {"classes": -maxl}

    ds.init_seq_order(epoch=epoch)
    gen = ds.generate_batches(**kw)
    got, fr = _drive(case, gen)
    case.require(all(a <= b + 1e-9 for a, b in zip(fr, fr[1:])), "completed_frac not monotonic", fr=fr)
    case.count("batches", len(got))
    case.count("slices", sum(len(b.seqs) for b in got))

    def with_ctx(r):
        return {k: (r[k][0] - ctx[k][0], r[k][1] + ctx[k][1]) for k in keys}

    def keep(r):
        for k in keys:
            l = r[k][1] - r[k][0]
            a, b = _limit_val(maxl, k), _limit_val(minl, k)
            if a is not None and l > a:
                return False
            if b is not None and l < b:
                return False
        return True

    have = [_slice_desc(s, keys) for b in got for s in b.seqs]
    if mode == "custom":
        exp = []
        for s, l in enumerate(lens):
            n = 0
            while n < l["data"]:
                exp.append((s, {k: (min(n, l[k] - 1), min(n + opts["chunking"].size, l[k])) for k in keys}))
                n += opts["chunking"].size
    elif mode == "variance":
        exp = None
    else:
        exp = _ref_chunks(lens, keys, size, step, minc, None)
    if exp is not None:
        exp = [(s, with_ctx(r)) for s, r in exp]
        exp = [x for x in exp if keep(x[1])]
        case.equal(have, exp, "chunks in the batches")
    else:
        _check_variance(case, have, lens, keys, size, step, minc, ctx, opts["chunking_variance"], complete=(maxl is None and not minl))
    # limits / greedy
    for bi, b in enumerate(got):
        case.require(len(b.seqs) > 0, "empty batch")
        ls = [{k: int(s.frame_length[k]) for k in keys} for s in b.seqs]
        case.equal([s.batch_slice for s in b.seqs], list(range(len(b.seqs))), "one slice per chunk")
        case.equal(b.num_slices, len(b.seqs), "num_slices")
        for k in keys:
            case.equal(int(b.max_num_frames_per_slice[k]), max(l[k] for l in ls), f"max frames {k}")
        case.equal((b.start_seq, b.end_seq), (min(s.seq_idx for s in b.seqs), max(s.seq_idx for s in b.seqs) + 1), "start/end seq")

        def bad(ls):
            if len(ls) < 2:
                return False
            if ms != -1 and len(ls) > ms:
                return True
            for k in keys:
                m = max(l[k] for l in ls) * len(ls)
                a = _limit_val(bs, k)
                if a is not None and m > a:
                    return True
                a = _limit_val(pad, k)
                if a is not None and m - sum(l[k] for l in ls) > a:
                    return True
            return False

        case.require(not bad(ls), "batch exceeds a limit", bs=bs, ms=ms, pad=pad, lens=ls)
        if bi + 1 < len(got):
            nx = got[bi + 1].seqs[0]
            case.require(bad(ls + [{k: int(nx.frame_length[k]) for k in keys}]), "batch closed although the next chunk fits", bs=bs, ms=ms, pad=pad, lens=ls)


def _check_variance(case, have, lens, keys, size, step, minc, ctx, var, complete):
    by = {}
    for s, r in have:
        by.setdefault(s, []).append({k: (r[k][0] + ctx[k][0], r[k][1] - ctx[k][1]) for k in keys})
    case.require([s for s, _ in have] == sorted(s for s, _ in have), "seq order")
    if not complete:
        return
    case.equal(sorted(by), list(range(len(lens))), "all seqs covered")
    for s, rs in by.items():
        for k in keys:
            case.equal(rs[0][k][0], 0, "first chunk starts at 0")
            steps = {b[k][0] - a[k][0] for a, b in zip(rs, rs[1:])}
            case.require(len(steps) <= 1, "chunk step varies in one sequence", k=k, rs=rs)
            sizes = {a[k][1] - a[k][0] for a in rs if a[k][1] < lens[s][k]}
            case.require(len(sizes) <= 1, "chunk size varies in one sequence", k=k, rs=rs)
            for x in sizes:
                case.require(max(int(size["data"] * (1 - var)) - 1, 1) * (size[k] // size["data"]) <= x <= size[k], "chunk size outside of the variance", x=x, size=size, var=var)
            for a in rs:
                case.require(0 <= a[k][0] < a[k][1] <= lens[s][k], "chunk outside of the sequence", a=a, lens=lens[s])
        if steps and step[k] <= size[k]:
            pass
        for a, b in zip(rs, rs[1:]):
            if size["classes"] % size["data"] == 0:
                ratio = size["classes"] // size["data"]
                case.equal(b["classes"][0], b["data"][0] * ratio, "ratio of the keys")
        if step["data"] == size["data"] and minc["data"] == 0:
            covered = set()
            for a in rs:
                covered |= set(range(*a["data"]))
            case.equal(covered, set(range(lens[s]["data"])), "chunks cover the sequence")


def frames(case):
    """recurrent_net=False: frames of all seqs concatenated"""
    rng = case.rng
    data, opts = _mk(case, equal_lens=True, ratio=1)
    opts["seq_ordering"] = rng.choice(["default", "random"])
    if rng.random() < 0.3:
        opts["chunking"] = "3:2"  # ignored
    ds = D.init_dataset(opts)
    epoch = rng.randint(1, 3)
    items = D.read_epoch(ds, epoch)
    lens = [len(d["data"]) for _, d in items]
    bs = rng.choice([1, 2, rng.randint(1, 40)])
    ms = rng.choice([-1, -1, rng.randint(1, 5)])
    case.desc(n=len(items), bs=bs, ms=ms, lens=str(lens)[:200])
    ds.init_seq_order(epoch=epoch)
    got, fr = _drive(case, ds.generate_batches(recurrent_net=False, batch_size=bs, max_seqs=ms))
    case.count("batches", len(got))
    case.count("slices", sum(len(b.seqs) for b in got))
    seen = []
    for b in got:
        off = 0
        for s in b.seqs:
            case.equal(s.batch_slice, 0, "single slice")
            for k in ("data", "classes"):
                case.equal(int(s.batch_frame_offset[k]), off, "frame offset")
            a, e = int(s.seq_start_frame["data"]), int(s.seq_end_frame["data"])
            case.equal((int(s.seq_start_frame["classes"]), int(s.seq_end_frame["classes"])), (a, e), "keys in parallel")
            seen += [(s.seq_idx, t) for t in range(a, e)]
            off += e - a
        case.require(0 < off <= bs, "batch larger than batch_size", off=off, bs=bs)
        if ms == -1 and b is not got[-1]:
            case.equal(off, bs, "batch not filled")
    case.equal(seen, [(i, t) for i, l in enumerate(lens) for t in range(l)], "every frame exactly once, in order")


def cached(case):
    """HDFDataset caches the batches of the epoch; also shuffle_batches"""
    rng = case.rng
    n = rng.randint(1, 15)
    c = D.Corpus(rng, n, max_len=8)
    o = D.hdf_opts(c, case.tmpdir())
    ds = D.init_dataset(o)
    bs, ms = rng.randint(1, 60), rng.choice([-1, 2, 3])
    shuffle = rng.random() < 0.5
    case.desc(n=n, bs=bs, ms=ms, shuffle=shuffle, lens=str(c.lens))
    ds.init_seq_order(epoch=1)
    gen = ds.generate_batches(recurrent_net=True, batch_size=bs, max_seqs=ms, shuffle_batches=shuffle)
    d = lambda bb: [[_slice_desc(s, ("data", "classes")) for s in b.seqs] for b in bb]
    first, _ = _drive(case, gen)
    case.count("batches", len(first))
    case.count("slices", n)
    case.equal([x[0] for b in d(first) for x in b], list(range(n)), "all seqs once")
    gen.reset()
    k = rng.randint(0, len(first))
    second = []
    while gen.has_more():
        pk = gen.peek_next_n(rng.randint(1, 3))
        gen.advance(len(pk))
        second += pk
    if shuffle:
        case.equal(sorted(d(second)), sorted(d(first)), "after reset: a permutation of the same batches")
    else:
        case.equal(d(second), d(first), "after reset: the same batches")


def feed(case):
    """arrays for the network, as given by FeedDictDataProvider, single threaded and with its thread"""
    import numpy
    from returnn.tf.data_pipeline import FeedDictDataProvider
    from returnn.tensor import TensorDict, Tensor, Dim, batch_dim

    rng = case.rng
    rec = rng.random() < 0.7
    chunk = rec and rng.random() < 0.5
    data, opts = _mk(case, equal_lens=chunk or not rec, maxlen=12)
    if chunk:
        s = rng.randint(1, 6)
        opts["chunking"] = (s, rng.randint(1, s))
    ctx = 0
    if rng.random() < 0.3 and rec:
        ctx = rng.randint(1, 4)
        opts["context_window"] = {"data": ctx + 1}
    opts["seq_ordering"] = rng.choice(["default", "random"])
    ds = D.init_dataset(opts)
    epoch = rng.randint(1, 3)
    items = D.read_epoch(ds, epoch)
    ds.init_seq_order(epoch=epoch)
    bs, ms = rng.randint(1, 80), rng.choice([-1, 3, 5])
    kw = dict(recurrent_net=rec, batch_size=bs, max_seqs=ms)
    ref_ds = D.init_dataset(opts)
    ref_ds.init_seq_order(epoch=epoch)
    ref = ref_ds.generate_batches(**kw)
    ref_batches = []
    while ref.has_more():
        ref_batches += ref.peek_next_n(1)
        ref.advance(1)
    extern = TensorDict()
    t1, t2 = Dim(None, name="t1"), Dim(None, name="t2")
    f = Dim(2, name="f")
    extern.data["data"] = Tensor("data", dims=[batch_dim, t1, f], dtype="float32")
    extern.data["classes"] = Tensor("classes", dims=[batch_dim, t2], dtype="int32", sparse_dim=Dim(10**6, name="c"))
    sl = None
    if rng.random() < 0.3:
        sl = slice(rng.choice([None, 0, 1, 2]), rng.choice([None, 3, 6]), rng.choice([None, 1, 2, 3]))
    threaded = sl is not None or rng.random() < 0.7
    cap = rng.choice([1, 2, 10])
    case.desc(n=len(items), rec=rec, chunk=str(opts.get("chunking")), ctx=ctx, bs=bs, ms=ms, sl=str(sl), threaded=threaded, cap=cap)
    dp = FeedDictDataProvider(dataset=ds, batches=ds.generate_batches(**kw), extern_data=extern, batch_slice=sl, capacity=cap)
    out = []
    if threaded:
        import time

        dp.start_threads(None)
        slow = rng.random() < 0.3
        while dp.have_more_data(None):
            out.append(dp.queue.get())
            if slow:
                time.sleep(rng.random() * 0.002)
        case.require(dp.have_reached_end(), "reached_end after the last batch")
        dp.stop_threads()
    else:
        while dp.batches.has_more():
            out.append(dp.get_next_batch())
            dp.batches.advance(1)
    exp = ref_batches[sl] if sl is not None else ref_batches
    case.equal(len(out), len(exp), "number of batches")
    case.count("feed_batches", len(out))
    for o, b in zip(out, exp):
        case.equal(o["batch_dim"], b.num_slices, "batch_dim")
        want = {k: {} for k in ("data", "classes")}
        tags = {}
        for s in b.seqs:
            tag, d = items[s.seq_idx]
            tags[s.batch_slice] = (s.seq_idx, tag)
            for k in want:
                a, e = int(s.seq_start_frame[k]), int(s.seq_end_frame[k])
                v = numpy.zeros((e - a,) + d[k].shape[1:], d[k].dtype)
                for t in range(a, e):
                    if 0 <= t < len(d[k]):
                        v[t - a] = d[k][t]
                want[k].setdefault(s.batch_slice, []).append(v)
        for k in want:
            for q, vs in want[k].items():
                v = numpy.concatenate(vs)
                case.equal(int(o[k + "_seq_lens"][q]), len(v), f"seq len {k}")
                case.require(numpy.array_equal(o[k][q, : len(v)], v), f"content {k}", got=o[k][q], exp=v)
                case.require(not numpy.any(o[k][q, len(v) :]), f"padding {k} not zero")
            case.equal(o[k].shape[:2], (b.num_slices, max(sum(map(len, vs)) for vs in want[k].values())), f"shape {k}")
        for q, (i, tag) in tags.items():
            case.equal((int(o["seq_idx"][q]), str(o["seq_tag"][q])), (i, tag), "seq idx / tag")


KINDS = {
    "recurrent": {"func": recurrent, "quick": 1500, "thorough": 20000},
    "frames": {"func": frames, "quick": 300, "thorough": 4000},
    "cached": {"func": cached, "quick": 100, "thorough": 1000},
    "feed": {"func": feed, "quick": 300, "thorough": 4000},
}
