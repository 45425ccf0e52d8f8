"""C09: PostprocessingDataset delivers exactly the mapped stream."""
from vlib import ds as D

RULE = (
    "case = random corpus in an HDF / static / map dataset with random ordering and partitioning, wrapped by PostprocessingDataset with a random map_seq or map_seq_stream (value changes, shape changes with map_outputs, random augmentation with the given rng, "
    "filters, duplications, neighbour mixing, LaplaceOrdering, Sequential of those); the arguments of all calls of the map function are recorded; the delivered sequences, tags, complete_frac and num_seqs of a random history of epochs "
    "(partial reads, re-init, predefined orders, skipping, different load sizes) are compared with the map function applied to the sequences of the wrapped dataset. Distinct by case description."
)
ASSUMPTIONS = ["the stream has at least one sequence in the epoch", "the map function is a pure function of its arguments (including the rng)", "the order of the wrapped dataset is checked elsewhere (C01, C02)"]
MIN_COUNTS = {"seqs_checked": 3000, "map_calls": 2000, "laplace_bins": 100}
BUDGET = {"quick": 300, "thorough": 1500}

CALLS = []


def worker_init():
    D.quiet_log()


class MapSeq:
    """map function with random behaviour; records its calls"""

    def __init__(self, kind, dim, arg=None):
        self.kind, self.dim, self.arg = kind, dim, arg

    def __call__(self, tdict, *, epoch, seq_idx, rng, **kwargs):
        from returnn.tensor import Tensor, Dim, TensorDict

        CALLS.append((epoch, seq_idx, str(tdict.data["seq_tag"].raw_tensor)))
        return self.apply(tdict, epoch, seq_idx, rng)

    def apply(self, tdict, epoch, seq_idx, rng):
        from returnn.tensor import Tensor, Dim, TensorDict

        x = tdict.data["data"]
        v = x.raw_tensor
        if self.kind == "add":
            x.raw_tensor = v + 0.5
        elif self.kind == "noise":
            x.raw_tensor = (v + rng.normal(size=v.shape)).astype("float32")
        elif self.kind == "epoch":
            x.raw_tensor = (v + epoch * 1000 + (seq_idx or 0)).astype("float32")
        elif self.kind == "subsample":
            x.raw_tensor = v[:: 2]
        elif self.kind == "wider":
            import numpy

            d = Dim(2 * self.dim, name="wider")
            tdict.data["data"] = Tensor("data", dims=[x.dims[0], d], dtype="float32", raw_tensor=numpy.concatenate([v, -v], axis=1))
        elif self.kind == "newdict":
            # drops seq_tag and complete_frac, and classes become data
            return TensorDict({"data": tdict.data["data"], "classes": tdict.data["classes"]})
        elif self.kind == "retag":
            import numpy

            tdict.data["seq_tag"].raw_tensor = numpy.array("new/" + str(tdict.data["seq_tag"].raw_tensor))
        elif self.kind == "crop":
            n = rng.randint(1, v.shape[0] + 1)
            x.raw_tensor = v[:n]
        return tdict


class MapStream:
    def __init__(self, kind, arg):
        self.kind, self.arg = kind, arg
        if kind in ("id", "reverse_pairs", "noise"):
            self.preserves_num_seqs = True

    def __call__(self, it, *, epoch, rng, **kwargs):
        return self.gen(it, epoch, rng)

    def gen(self, it, epoch, rng):
        if self.kind == "id":
            yield from it
        elif self.kind == "filter":
            for x in it:
                if x.data["data"].raw_tensor.shape[0] > self.arg:
                    yield x
        elif self.kind == "dup":
            for x in it:
                for _ in range(self.arg):
                    yield x.copy_template() if False else _copy(x)
        elif self.kind == "noise":
            for x in it:
                x.data["data"].raw_tensor = (x.data["data"].raw_tensor + rng.normal()).astype("float32")
                yield x
        elif self.kind == "randfilter":
            for x in it:
                if rng.random_sample() < 0.6:
                    yield x
        elif self.kind == "merge":  # neighbours
            import numpy

            prev = None
            for x in it:
                if prev is None:
                    prev = x
                    continue
                prev.data["data"].raw_tensor = numpy.concatenate([prev.data["data"].raw_tensor, x.data["data"].raw_tensor])
                yield prev
                prev = None
            if prev is not None:
                yield prev
        elif self.kind == "reverse_pairs":
            prev = None
            for x in it:
                if prev is None:
                    prev = x
                    continue
                f0, f1 = prev.data["complete_frac"].raw_tensor, x.data["complete_frac"].raw_tensor
                prev.data["complete_frac"].raw_tensor, x.data["complete_frac"].raw_tensor = f1, f0
                yield x
                yield prev
                prev = None
            if prev is not None:
                yield prev
        elif self.kind == "notag":
            for x in it:
                x.data.pop("seq_tag")
                yield x
        else:
            raise ValueError(self.kind)


def _copy(x):
    from returnn.tensor import TensorDict

    return TensorDict({k: v.copy() for k, v in x.data.items()})


def _wrapped(case, c, order=None):
    rng = case.rng
    kw = {"partition_epoch": rng.choice([1, 1, 2, 3])}
    order = order or rng.choice(["default", "random", "sorted", "laplace:.3", "reverse"])
    kind = rng.choice(["hdf", "static"])
    if kind == "hdf":
        opts = D.hdf_opts(c, case.tmpdir(), seq_ordering=order, **kw)
    else:
        opts = D.static_opts(c, seq_ordering=order, **kw)
    case.desc(sub=kind, order=order, **kw)
    return opts


def _plain(opts, epoch, init_kw=None):
    """sequences of the wrapped dataset, with complete_frac"""
    ds = D.init_dataset(opts)
    ds.init_seq_order(epoch=epoch, **(init_kw or {}))
    out = []
    i = 0
    while ds.is_less_than_num_seqs(i):
        ds.load_seqs(i, i + 1)
        out.append((ds.get_tag(i), {k: ds.get_data(i, k).copy() for k in ds.get_data_keys()}, ds.get_complete_frac(i, allow_only_lr_suitable=True)))
        i += 1
    return out


def _tdicts(seqs, ds):
    """as TensorDict like the user function gets them"""
    import numpy
    from returnn.tensor import Tensor, TensorDict, Dim

    out = []
    for tag, data, frac in seqs:
        d = {}
        for k, v in data.items():
            d[k] = Tensor(k, dims=[Dim(None, name=k)] + [Dim(n, name=k + "_f") for n in v.shape[1:]], dtype=str(v.dtype), raw_tensor=v.copy())
        d["complete_frac"] = Tensor("complete_frac", dims=(), dtype="float32", raw_tensor=None if frac is None else numpy.array(frac, dtype="float32"))
        d["seq_tag"] = Tensor("seq_tag", dims=(), dtype="string", raw_tensor=numpy.array(tag))
        out.append(TensorDict(d))
    return out


def _out(tdicts, keys, start=0):
    out = []
    for i, t in enumerate(tdicts):
        tag = str(t.data["seq_tag"].raw_tensor) if "seq_tag" in t.data else f"seq-{i}"
        frac = t.data["complete_frac"].raw_tensor if "complete_frac" in t.data else None
        out.append((tag, {k: t.data[k].raw_tensor for k in keys}, None if frac is None else float(frac)))
    return out


def _read(case, ds, keys, limit=None):
    """random load sizes, sometimes skipping; :return: {idx: seq}"""
    rng = case.rng
    out = {}
    i = 0
    step = rng.choice([1, 1, 2, 3])
    while ds.is_less_than_num_seqs(i):
        if limit is not None and i >= limit:
            break
        j = i + 1
        while j < i + step and ds.is_less_than_num_seqs(j):
            j += 1
        ds.load_seqs(i, j)
        for k in range(i, j):
            out[k] = (ds.get_tag(k), {x: ds.get_data(k, x).copy() for x in keys}, ds.get_complete_frac(k, allow_only_lr_suitable=True))
            case.require(ds.get_seq_length(k)["data"] == out[k][1]["data"].shape[0], "get_seq_length")
        i = j
    return out, i


def _compare(case, got, n, exp, complete, what):
    import numpy

    if complete:
        case.require(n == len(exp), f"{what}: {n} sequences delivered, expected {len(exp)}", tags=[x[0] for x in exp][:30], got=[x[0] for x in got.values()][:30])
    for i, (tag, data, frac) in got.items():
        case.count("seqs_checked")
        case.require(i < len(exp), f"{what}: more sequences than expected")
        etag, edata, efrac = exp[i]
        case.require(tag == etag, f"{what}: seq {i} has tag {tag}, expected {etag}")
        for k in edata:
            case.require(data[k].shape == edata[k].shape and data[k].dtype == edata[k].dtype and numpy.array_equal(data[k], edata[k]), f"{what}: seq {i} ({tag}) {k} differs", got=data[k].tolist(), exp=edata[k].tolist())
        if efrac is not None:
            case.require(frac is not None and abs(frac - efrac) < 1e-6, f"{what}: seq {i}: complete_frac {frac}, expected {efrac}")


def _history(case, opts, sub_opts, make_exp, keys, has_len, allow_order):
    rng = case.rng
    c_ds = D.init_dataset(dict(opts))
    for _ in range(rng.randint(2, 4)):
        if rng.random() < 0.15:
            c_ds = D.init_dataset(dict(opts))
        if rng.random() < 0.15:
            c_ds.init_seq_order(epoch=None)
            case.require(not c_ds.is_less_than_num_seqs(0) and c_ds.num_seqs == 0, "epoch None must have no sequences")
        epoch = rng.randint(1, 7)
        kw = {}
        plain = None
        if allow_order and rng.random() < 0.3:
            plain = _plain(sub_opts, epoch)
            total = _plain({**sub_opts, "partition_epoch": 1, "seq_ordering": "default"}, 1)
            if rng.random() < 0.5:
                kw = {"seq_list": [total[i][0] for i in rng.sample(range(len(total)), rng.randint(1, len(total)))]}
            else:
                kw = {"seq_order": rng.sample(range(len(total)), rng.randint(1, len(total)))}
        plain = _plain(sub_opts, epoch, kw)
        CALLS.clear()
        c_ds.init_seq_order(epoch=epoch, **kw)
        exp = make_exp(plain, epoch)
        if not exp and not has_len:  # a stream without any sequence is refused by the dataset
            continue
        if has_len:
            case.require(c_ds.num_seqs == len(exp), f"num_seqs {c_ds.num_seqs}, expected {len(exp)}")
        if kw and "seq_order" in kw and sub_opts["class"] != "StaticDataset":
            case.require(list(c_ds.get_current_seq_order()) == kw["seq_order"], "get_current_seq_order")
        limit = rng.choice([None, None, None, rng.randint(0, len(exp) + 1)])
        got, n = _read(case, c_ds, keys, limit)
        _compare(case, got, n, exp, limit is None, f"epoch {epoch} {kw}")
        if limit is None:
            case.require(c_ds.num_seqs == len(exp), f"num_seqs {c_ds.num_seqs} after the epoch, expected {len(exp)}")
        yield epoch, plain, exp, limit


def map_seq(case):
    from returnn.tensor import Dim

    rng = case.rng
    c = D.Corpus(rng, rng.choice([1, 2, 3, 5, 8, 15]), tags=rng.choice(["plain", "path"]))
    sub = _wrapped(case, c)
    fn = rng.choice(["add", "noise", "epoch", "subsample", "wider", "newdict", "retag", "crop", "seq"])
    keys = ["data", "classes"]
    if fn == "seq":
        from returnn.datasets.postprocessing import Sequential

        kinds = [rng.choice(["add", "epoch", "subsample"]) for _ in range(rng.randint(1, 3))]
        funcs = [MapSeq(k, c.dim) for k in kinds]
        f = Sequential(*funcs)
    else:
        kinds = [fn]
        f = MapSeq(fn, c.dim)
        funcs = [f]
    opts = {"class": "PostprocessingDataset", "dataset": sub, "map_seq": f}
    if fn == "wider" or rng.random() < 0.2:
        t, s = Dim(None, name="time", kind=Dim.Types.Spatial), Dim(None, name="cl", kind=Dim.Types.Spatial)
        opts["map_outputs"] = {
            "data": {"dims": [t, Dim(c.dim * (2 if fn == "wider" else 1), name="f")], "dtype": "float32"},
            "classes": {"dims": [s], "dtype": "int32", "sparse_dim": Dim(c.num_labels, name="labels")},
        }
    case.desc(n=c.n, lens=c.lens, fn=fn, kinds=kinds, outputs="map_outputs" in opts)
    randomised = fn in ("noise", "crop")

    def make_exp(plain, epoch):
        if randomised:
            # reference: another instance, read in one go
            ref = D.init_dataset(dict(opts))
            saved = list(CALLS)
            out = D.read_epoch(ref, epoch)
            CALLS[:] = saved
            return [(t, d, p[2]) for (t, d), p in zip(out, plain)]
        tds = _tdicts(plain, None)
        res = []
        for i, t in enumerate(tds):
            tag, frac = t.data["seq_tag"], t.data["complete_frac"]
            for g in funcs:
                t = g.apply(t, epoch, i, None)
            t.data.setdefault("seq_tag", tag)
            t.data.setdefault("complete_frac", frac)
            res.append(t)
        return _out(res, keys)

    for epoch, plain, exp, limit in _history(case, opts, sub, make_exp, keys, True, allow_order=not randomised and fn != "retag"):
        # every sequence mapped exactly once, in order, with the right arguments (those delivered; prefetching more is fine)
        calls = [x for i, x in enumerate(CALLS) if i % len(funcs) == 0]
        case.count("map_calls", len(calls))
        case.require(len(calls) <= len(plain) and (limit is not None or len(calls) == len(plain)), f"{len(calls)} calls of map_seq for {len(plain)} sequences")
        for i, (e, s, tag) in enumerate(calls):
            case.require((e, s) == (epoch, i) and (tag == plain[i][0]), f"call {i}: got epoch {e}, seq_idx {s}, tag {tag}; expected {epoch}, {i}, {plain[i][0]}")
        if randomised:
            import numpy

            ident = all(numpy.array_equal(a[1]["data"], b[1]["data"]) for a, b in zip(exp, plain))
            case.require(fn == "crop" or not ident or not exp, "rng not used?")
            for a, b in zip(exp, plain):
                case.require(a[0] == b[0] and numpy.array_equal(a[1]["classes"], b[1]["classes"]), "content mixed")
                if fn == "crop":
                    n = a[1]["data"].shape[0]
                    case.require(1 <= n <= b[1]["data"].shape[0] and numpy.array_equal(a[1]["data"], b[1]["data"][:n]), "not a prefix")
    ds = D.init_dataset(dict(opts))
    case.require(ds.get_data_keys() == keys and ds.get_data_dtype("data") == "float32" and ds.get_data_dtype("classes") == "int32", "data keys / dtypes")
    case.require(ds.get_data_dim("data") == c.dim * (2 if fn == "wider" else 1) and ds.get_data_dim("classes") == c.num_labels, "data dims", got=[ds.get_data_dim(k) for k in keys])
    case.require(ds.is_data_sparse("classes") and not ds.is_data_sparse("data"), "sparse flags")


def rng_per_epoch(case):
    """same epoch: same randomness in each instance and after each history; other epochs: other randomness"""
    import numpy

    rng = case.rng
    c = D.Corpus(rng, rng.choice([2, 3, 6]))
    sub = D.static_opts(c)
    stream = rng.random() < 0.5
    f = MapStream("noise", None) if stream else MapSeq("noise", c.dim)
    opts = {"class": "PostprocessingDataset", "dataset": sub, ("map_seq_stream" if stream else "map_seq"): f}
    off = rng.choice([0, 0, 3])
    case.desc(n=c.n, stream=stream, off=off)
    a, b = D.init_dataset(dict(opts)), D.init_dataset(dict(opts))
    seen, orders = {}, []
    for _ in range(rng.randint(3, 6)):
        epoch = rng.randint(1, 4)
        ds = rng.choice([a, b])
        limit = rng.choice([None, None, 1])
        if not stream and rng.random() < 0.4:
            order = rng.sample(range(c.n), rng.randint(1, c.n)) if rng.random() < 0.6 or not orders else rng.choice(orders)
            orders.append(order)
            got = D.read_epoch(ds, epoch, init_kw={"seq_order": order})
            fresh = D.read_epoch(D.init_dataset(dict(opts)), epoch, init_kw={"seq_order": order})
            case.require(D.diff_epoch(got, fresh) is None, f"epoch {epoch}, seq_order {order}: not reproducible: {D.diff_epoch(got, fresh)}")
            case.count("predefined_reproduced")
            continue
        got = D.read_epoch(ds, epoch, max_seqs=limit)
        case.count("seqs_checked", len(got))
        if epoch in seen:
            m = min(len(got), len(seen[epoch]))
            case.require(D.diff_epoch(got[:m], seen[epoch][:m]) is None, f"epoch {epoch}: not reproducible: {D.diff_epoch(got[:m], seen[epoch][:m])}")
        for e, other in seen.items():
            if e != epoch:
                case.require(not numpy.array_equal(got[0][1]["data"], other[0][1]["data"]), f"epochs {e} and {epoch} have the same randomness")
        if limit is None or epoch not in seen:
            seen[epoch] = got


def stream(case):
    import numpy

    rng = case.rng
    c = D.Corpus(rng, rng.choice([1, 2, 3, 5, 8, 15]))
    sub = _wrapped(case, c)
    n = rng.randint(1, 3)
    kinds = []
    for _ in range(n):
        k = rng.choice(["id", "filter", "dup", "merge", "reverse_pairs", "notag"])
        if k == "notag" and "notag" in kinds:
            k = "id"
        kinds.append(k)
    funcs = [MapStream(k, {"filter": rng.randint(0, 25), "dup": rng.randint(1, 3)}.get(k)) for k in kinds]
    if n == 1 and rng.random() < 0.7:
        f = funcs[0]
    else:
        from returnn.datasets.postprocessing import Sequential

        f = Sequential(*funcs)
    preserving = all(hasattr(g, "preserves_num_seqs") for g in funcs)
    opts = {"class": "PostprocessingDataset", "dataset": sub, "map_seq_stream": f}
    if preserving and rng.random() < 0.3:
        opts["map_seq_stream_preserves_num_seqs"] = True
    case.desc(n=c.n, lens=c.lens, kinds=kinds, args=[g.arg for g in funcs])
    keys = ["data", "classes"]

    def make_exp(plain, epoch):
        it = iter(_tdicts(plain, None))
        for g in funcs:
            it = g.gen(it, epoch, None)
        return _out(list(it), keys)

    for epoch, plain, exp, limit in _history(case, opts, sub, make_exp, keys, preserving, allow_order=False):
        pass
    ds = D.init_dataset(dict(opts))
    ds.init_seq_order(epoch=1)
    for kw in ({"seq_list": [c.tags[0]]}, {"seq_order": [0]}):
        try:
            ds.init_seq_order(epoch=1, **kw)
        except ValueError:
            continue
        case.require(False, f"map_seq_stream with {kw} must be refused")


def laplace(case):
    import numpy
    from returnn.datasets.postprocessing import LaplaceOrdering, Sequential

    rng = case.rng
    c = D.Corpus(rng, rng.choice([1, 2, 3, 5, 8, 12, 20]), max_len=rng.choice([3, 30]))
    sub = _wrapped(case, c)
    nbin = rng.choice([1, 2, 3, 4, 5, 30])
    key = rng.choice(["data", "data", "classes"])
    f = LaplaceOrdering(nbin, **({} if key == "data" else {"length_key": key}))
    case.desc(n=c.n, lens=c.lens, nbin=nbin, key=key)
    pre = rng.random() < 0.4
    if pre:
        arg = rng.randint(0, 15)
        f = Sequential(MapStream("filter", arg), f)
        case.desc(filter=arg)
    opts = {"class": "PostprocessingDataset", "dataset": sub, "map_seq_stream": f}
    ds = D.init_dataset(dict(opts))
    for _ in range(rng.randint(1, 3)):
        epoch = rng.randint(1, 6)
        plain = _plain(sub, epoch)
        if pre:
            plain = [p for p in plain if p[1]["data"].shape[0] > arg]
            if not plain:  # a stream without any sequence is refused by the dataset
                continue
        ds.init_seq_order(epoch=epoch)
        if not pre:
            case.require(ds.num_seqs == len(plain), f"num_seqs {ds.num_seqs}, expected {len(plain)}")
        got, n = _read(case, ds, ["data", "classes"])
        case.require(n == len(plain), f"epoch {epoch}: {n} sequences, expected {len(plain)}")
        got = [got[i] for i in range(n)]
        for b in range(0, len(plain), nbin):
            case.count("laplace_bins")
            exp_bin, got_bin = plain[b : b + nbin], got[b : b + nbin]
            case.require(sorted(x[0] for x in exp_bin) == sorted(x[0] for x in got_bin), f"epoch {epoch}, bin {b // nbin}: not the same sequences", exp=[x[0] for x in exp_bin], got=[x[0] for x in got_bin])
            lens = [x[1][key].shape[0] for x in got_bin]
            case.require(lens == sorted(lens, reverse=(b // nbin) % 2 == 1), f"epoch {epoch}, bin {b // nbin}: lengths {lens} not in the right order")
            by = {x[0]: x for x in exp_bin}
            for i, g in enumerate(got_bin):
                case.count("seqs_checked")
                case.require(all(numpy.array_equal(g[1][k], by[g[0]][1][k]) for k in g[1]), f"{g[0]}: content differs")
                case.require(g[2] is None or abs(g[2] - exp_bin[i][2]) < 1e-6, f"complete_frac {g[2]}, expected {exp_bin[i][2]} (not reordered)")


KINDS = {
    "map_seq": {"func": map_seq, "quick": 1000, "thorough": 10000},
    "rng_per_epoch": {"func": rng_per_epoch, "quick": 200, "thorough": 3000},
    "stream": {"func": stream, "quick": 1000, "thorough": 10000},
    "laplace": {"func": laplace, "quick": 800, "thorough": 10000},
}
