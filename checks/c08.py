"""C08: wrapper datasets (Meta, Combined, Concat, ConcatSeqs, ChunkShuffle, MultiEpoch, Variable, Clustering)."""
import gzip
import json
import pickle
from vlib import ds as D
from vlib import orders as O

RULE = (
    "case = random corpora stored in HDF / OggZip / Map sub-datasets in different storage orders (and under different tag names), "
    "wrapped by one of the combining dataset classes with random orderings, partitions, filters and sampling; one object is then driven "
    "by a random history of init_seq_order calls (other epochs, the same epoch again, predefined orders, partial reads); every delivered "
    "sequence is compared with what the corpus says, and every epoch with a fresh object. Non-trivial: more than one sequence delivered."
)
ASSUMPTIONS = [
    "tags are unique within a sub-dataset",
    "partition_epoch is not used on both levels of a CombinedDataset (documented as unexpected)",
]
MIN_COUNTS = {"seqs_checked": 4000, "reinit_epochs": 200}
BUDGET = {"quick": 300, "thorough": 1500}


def worker_init():
    D.quiet_log()


class View:
    """the same corpus, in another storage order, maybe a subset, maybe with other tags"""

    def __init__(self, c, perm, rename=None):
        self.c, self.perm = c, list(perm)
        self.n, self.dim, self.num_labels = len(self.perm), c.dim, c.num_labels
        self.lens = [c.lens[p] for p in self.perm]
        self.target_lens = [c.target_lens[p] for p in self.perm]
        self.tags = [(rename or (lambda t: t))(c.tags[p]) for p in self.perm]

    def data(self, j):
        return self.c.data(self.perm[j])

    def classes(self, j):
        return self.c.classes(self.perm[j])

    def words(self, j):
        return self.c.words(self.perm[j])

    def text(self, j):
        return self.c.text(self.perm[j])

    def text_labels(self, j):
        return self.c.text_labels(self.perm[j])

    def vocab(self):
        return self.c.vocab()


def _sub(case, kind, v, name, **kw):
    """:return: opts, data keys -> what"""
    rng = case.rng
    tmp = case.tmpdir()
    if kind == "hdf":
        return D.hdf_opts(v, tmp, num_files=rng.randint(1, 3) if v.n >= 3 else 1, name=name, **kw)
    if kind == "ogg":
        import os

        os.makedirs(f"{tmp}/{name}", exist_ok=True)
        return D.ogg_zip_opts(v, f"{tmp}/{name}", num_files=rng.randint(1, 2) if v.n >= 2 else 1, **kw)
    if kind == "map":
        return {"class": "MapDatasetWrapper", "map_dataset": D.make_map_dataset(v), **kw}
    raise ValueError(kind)


SUB_KEYS = {"hdf": ["data", "classes"], "map": ["data", "classes"], "ogg": ["classes"]}


def _expect(c, kind, key, i):
    if kind == "ogg":
        return c.text_labels(i)
    return c.data(i) if key == "data" else c.classes(i)


def _same(case, got, exp, msg):
    import numpy

    case.require(
        got.shape == exp.shape and numpy.array_equal(got, exp), msg, got=got.tolist()[:5], expected=exp.tolist()[:5], got_shape=list(got.shape), exp_shape=list(exp.shape)
    )


def _partial(rng, ds, e, kw=None):
    """leave the object in the middle of an epoch"""
    ds.init_seq_order(epoch=e, **(kw or {}))
    k = rng.randint(0, 3)
    ahead = rng.random() < 0.4  # keep the first seq, load more and more
    for i in range(k):
        if not ds.is_less_than_num_seqs(i):
            break
        ds.load_seqs(0 if ahead else i, i + 1)
        ds.get_tag(i)
    if rng.random() < 0.3:
        ds.finish_epoch()


def _history(case, make, check, epochs, *, predefined=None, steps=8, same_batching=False, beyond=False):
    """drive one object; make() -> fresh dataset; check(epoch, seqs) the content; predefined(rng) -> (kw, expected check)"""
    rng = case.rng
    ref = {}
    for e in epochs:
        ref[e] = D.read_epoch(make(), e)
        check(e, ref[e])
        case.count("seqs_checked", len(ref[e]))
    ds = make()
    last = None
    for _ in range(steps):
        r = rng.random()
        e = rng.choice(epochs)
        if last is not None and rng.random() < 0.4:
            e = last  # the same epoch again
        if r < 0.6:
            batch = rng.choice([1, 1, 2, 5])
            got = D.read_epoch(ds, e, batch=batch)
            if beyond and rng.random() < 0.4:
                ds.load_seqs(len(got), len(got) + 1)
                case.count("loaded_beyond_end")
            if same_batching and batch > 1:  # (what is shuffled together depends on how much is loaded at once)
                check(e, got)
                continue
            d = D.diff_epoch(got, ref[e])
            case.require(d is None, f"epoch {e} differs from what a fresh dataset object gives: {d}", last_epoch=last)
            case.count("reinit_epochs")
            case.count("same_epoch_again", int(e == last))
            case.count("seqs_checked", len(got))
        elif r < 0.8 or predefined is None:
            _partial(rng, ds, e)
        else:
            kw, chk = predefined(rng)
            if rng.random() < 0.3:
                _partial(rng, ds, e, kw)
            else:
                got = D.read_epoch(ds, e, init_kw=kw)
                chk(got)
                case.count("predefined")
                case.count("seqs_checked", len(got))
        last = e
    return ref


def meta(case):
    rng = case.rng
    n = rng.choice([2, 5, rng.randint(6, 20), 40])
    c = D.Corpus(rng, n, max_len=rng.choice([3, 12]), tags=rng.choice(["plain", "path", "unicode"]))
    names = rng.sample(["a", "b", "main", "zz"], rng.randint(1, 3))
    mode = rng.choice(["same_tags", "same_tags", "pkl", "pkl_gz", "txt", "dict"])
    kinds, views, renames, subs = {}, {}, {}, {}
    ctrl = rng.choice(names)
    use_ctrl = rng.random() < 0.5
    first = ctrl if use_ctrl else None
    part = rng.choice([1, 1, 2, 3])
    if part > n:
        part = 1
    common = {}
    if rng.random() < 0.3:
        common["random_seed_offset"] = rng.randrange(10**5)
    ordering = rng.choice(["default", "reverse", "random", "sorted", "sorted_reverse", "laplace:.3"]) if use_ctrl else rng.choice(["default", "reverse", "random"])
    order_kw = {"seq_ordering": ordering, **({"partition_epoch": part} if part > 1 else {}), **common}
    data_map = {}
    for nm in names:
        kinds[nm] = rng.choice(["hdf", "hdf", "ogg", "map"])
        if not use_ctrl and nm == names[0]:
            kinds[nm] = rng.choice(["hdf", "map"])
        renames[nm] = (lambda nm: (lambda t: f"{nm}:{t}"))(nm) if mode in ("pkl", "pkl_gz", "dict") else (lambda t: t)
        perm = list(range(n))
        if rng.random() < 0.8:
            rng.shuffle(perm)
        views[nm] = View(c, perm, renames[nm])
        kw = dict(order_kw) if nm == first else ({"seq_ordering": "random"} if rng.random() < 0.3 else {})
        subs[nm] = _sub(case, kinds[nm], views[nm], nm, **kw)
        for k in SUB_KEYS[kinds[nm]]:
            data_map[f"{nm}_{k}"] = (nm, k)
    if not use_ctrl:
        data_map["data"] = (names[0], "data")
    elif rng.random() < 0.5:
        nm = rng.choice(names)
        data_map["data"] = (nm, SUB_KEYS[kinds[nm]][0])
    if rng.random() < 0.2:
        subs["any"] = {"class": "AnythingDataset", "data_keys": {"z": {"shape": (None, 5), "dim": 5, "dtype": "float32"}}}
        kinds["any"] = "any"
        renames["any"] = lambda t: t
        data_map["zeros"] = ("any", "z")
    default_key = ctrl if use_ctrl else names[0]
    opts = {"class": "MetaDataset", "datasets": subs, "data_map": data_map}
    list_order = list(range(n))
    if mode != "same_tags":
        if not use_ctrl or mode == "same_tags":
            rng.shuffle(list_order)
        else:
            list_order = views[ctrl].perm  # documented: index space must be that of the control dataset
        subset = not use_ctrl and rng.random() < 0.4
        if subset:
            list_order = list_order[: rng.randint(max(1, part), n)]
        per = {nm: [renames[nm](c.tags[i]) for i in list_order] for nm in subs}
        tmp = case.tmpdir()
        if mode == "pkl":
            pickle.dump(per, open(f"{tmp}/sl.pkl", "wb"))
            opts["seq_list_file"] = f"{tmp}/sl.pkl"
        elif mode == "pkl_gz":
            with gzip.open(f"{tmp}/sl.pkl.gz", "wb") as f:
                pickle.dump(per, f)
            opts["seq_list_file"] = f"{tmp}/sl.pkl.gz"
        elif mode == "txt":
            with open(f"{tmp}/sl.txt", "w", encoding="utf8") as f:
                f.write("".join(t + "\n" for t in per[default_key]))
            opts["seq_list_file"] = f"{tmp}/sl.txt"
        else:
            files = {}
            for nm, ls in per.items():
                files[nm] = f"{tmp}/sl-{nm}.txt"
                with open(files[nm], "w", encoding="utf8") as f:
                    f.write("".join(t + "\n" for t in ls))
            opts["seq_list_file"] = files
    else:
        list_order = views[default_key].perm
    if use_ctrl:
        opts["seq_order_control_dataset"] = ctrl
    else:
        opts.update(order_kw)
        if rng.random() < 0.3:
            fn = f"{case.tmpdir()}/lens.json"
            json.dump({renames[names[0]](c.tags[i]): {"data": c.lens[i]} for i in range(n)}, open(fn, "w"))
            opts["seq_lens_file"] = fn
            opts["seq_ordering"] = ordering = rng.choice(["sorted", "sorted_reverse", "laplace:.4", ordering])
    case.desc(n=n, names=names, mode=mode, ctrl=use_ctrl, kinds=kinds, part=part, ordering=ordering, data_map=sorted(data_map), num_list=len(list_order))
    by_tag = {renames[default_key](c.tags[i]): i for i in range(n)}

    def content(seqs):
        ids = []
        for tag, data in seqs:
            case.require(tag in by_tag, f"unknown tag {tag!r}")
            i = by_tag[tag]
            ids.append(i)
            case.equal(set(data), set(data_map), "data keys")
            for k, (nm, sk) in data_map.items():
                if nm == "any":
                    case.require(not data[k].any() and data[k].shape == (1, 5), "AnythingDataset content")
                    continue
                _same(case, data[k], _expect(c, kinds[nm], sk, i), f"MetaDataset: data {k!r} of sequence {tag!r} is not that of this sequence")
        return ids

    def check(e, seqs):
        ids = content(seqs)
        case.require(len(set(ids)) == len(ids), "sequence delivered twice in a sub-epoch", ids=ids)

    def predefined(rng):
        ids = rng.sample(list_order, rng.randint(1, len(list_order)))
        if rng.random() < 0.3:
            ids = ids + ids[:1]
        if rng.random() < 0.5:
            kw = {"seq_list": [renames[default_key](c.tags[i]) for i in ids]}
        else:
            kw = {"seq_order": [list_order.index(i) for i in ids]}

        def chk(got):
            case.equal(content(got), ids, f"MetaDataset: predefined order {list(kw)[0]} not followed")

        return kw, chk

    base = rng.randint(0, 3) * part
    epochs = [base + j + 1 for j in range(part)]
    if rng.random() < 0.5:
        epochs += [epochs[-1] + 1]
    ref = _history(case, lambda: D.init_dataset(opts), check, epochs, predefined=predefined)
    allids = [i for e in epochs[:part] for i in content(ref[e])]
    case.equal(sorted(allids), sorted(list_order), "MetaDataset: the sub-epochs of a full epoch do not give every sequence exactly once")
    if use_ctrl:
        for e in epochs[:2]:
            exp = [s[0] for s in D.read_epoch(D.init_dataset(subs[ctrl]), e)]
            case.equal([s[0] for s in ref[e]], exp, "MetaDataset: not the order of the control dataset")
            case.count("control_orders")
    elif ordering in ("default", "reverse"):
        exp = list_order if ordering == "default" else list_order[::-1]
        case.equal(allids, exp, f"MetaDataset: order {ordering}")
    elif ordering in ("sorted", "sorted_reverse"):
        ls = [c.lens[i] for i in allids]
        case.equal(ls, sorted(ls, reverse=ordering != "sorted"), f"MetaDataset: order {ordering}")
    shards = rng.randint(2, 3)
    if all(k in ("hdf", "ogg") for k in kinds.values()) and shards * part <= len(list_order):
        allids = []
        for k in range(shards):
            ds = D.init_dataset({**opts, "_num_shards": shards, "_shard_index": k})
            for e in epochs[:part]:
                got = D.read_epoch(ds, e)
                allids += content(got)
                case.count("seqs_checked", len(got))
        case.equal(sorted(allids), sorted(list_order), "MetaDataset: the shards of a full epoch do not give every sequence exactly once")
        case.count("sharded")
    ds = D.init_dataset(opts)
    case.equal(list(ds.get_all_tags()), [renames[default_key](c.tags[i]) for i in list_order], "get_all_tags")
    e = rng.choice(epochs)
    ds.init_seq_order(epoch=e)
    for i, (tag, data) in enumerate(ref[e]):
        ds.load_seqs(i, i + 1)
        ln = ds.get_seq_length(i)
        for k in data if "seq_lens_file" not in opts else ["data"]:
            case.equal(int(ln[k]), len(data[k]), f"MetaDataset: get_seq_length of {tag!r}, key {k!r}")
        case.count("seq_lengths")
    case.equal(ds.get_total_num_seqs(), len(list_order), "get_total_num_seqs")


def combined(case):
    rng = case.rng
    names = rng.sample(["a", "b", "m", "zz"], rng.randint(1, 3))
    cs, kinds, subs, data_map = {}, {}, {}, {}
    mode = rng.choice(["plain", "plain", "sub_part", "sampling"])
    ordering = rng.choice(["default", "reverse", "random", "sorted", "sorted_reverse", "laplace:.3", "random_dataset", "random_dataset"])
    if mode == "sampling":
        ordering = rng.choice(["default", "reverse", "random", "sorted"])
    part = rng.choice([1, 1, 2, 3]) if mode == "plain" else 1
    for j, nm in enumerate(sorted(names)):
        n = rng.choice([1, 2, rng.randint(3, 15)])
        if mode == "sub_part":
            n = rng.randint(4, 12)
        c = D.Corpus(rng, n, max_len=rng.choice([3, 12]))
        c.tags = [f"{nm}-{t}" for t in c.tags]
        kinds[nm] = rng.choice(["hdf", "hdf", "map", "ogg"] if j else ["hdf", "map"])
        cs[nm] = c
        kw = {"seq_ordering": rng.choice(["default", "reverse", "random"])}
        if mode == "sub_part":
            if rng.random() < 0.5:
                kw["partition_epoch"] = rng.randint(2, 3)
            elif kinds[nm] != "hdf":
                kw["repeat_epoch"] = 2
        if mode == "sampling" or part > 1:
            # (with outer partitions, an inner order which changes in every sub-epoch cannot give full coverage)
            kw["seq_ordering"] = rng.choice(["default", "reverse"])
        if ordering.startswith(("sorted", "laplace")):
            kinds[nm] = "hdf"  # needs get_estimated_seq_length
        subs[nm] = _sub(case, kinds[nm], c, nm, **kw)
        for k in SUB_KEYS[kinds[nm]]:
            shared = k if kinds[nm] != "ogg" else "text"
            data_map[(nm, k)] = shared if (kinds[nm] != "ogg" and rng.random() < 0.6) or shared == "data" and j == 0 else f"{nm}_{k}"
    first = sorted(names)[0]
    data_map[(first, "data")] = "data"
    # all mapped into one key must agree in format; hdf/map data do
    opts = {"class": "CombinedDataset", "datasets": subs, "data_map": data_map, "seq_ordering": ordering}
    total = sum(c.n for c in cs.values())
    if mode == "plain":
        if part > total:
            part = 1
        if part > 1:
            opts["partition_epoch"] = part
        if rng.random() < 0.2:
            opts["random_seed_offset"] = rng.randrange(1000)
            for o in subs.values():  # (would be inherited anyway)
                o["random_seed_offset"] = opts["random_seed_offset"]
    sampling = None
    if mode == "sampling":
        sampling = {nm: rng.randint(1, 2 * cs[nm].n) for nm in names}
        if rng.random() < 0.3:
            k = rng.randint(1, 6)
            sampling = {nm: k for nm in names}
            opts["sampling_sizes"] = k
        else:
            opts["sampling_sizes"] = sampling
    case.desc(names=names, kinds=kinds, sizes={k: c.n for k, c in cs.items()}, mode=mode, ordering=ordering, part=part, sub=[{k: v for k, v in o.items() if k in ("seq_ordering", "partition_epoch", "repeat_epoch")} for o in subs.values()], sampling=sampling)
    by_tag = {t: (nm, i) for nm, c in cs.items() for i, t in enumerate(c.tags)}
    keys = set(data_map.values())

    def content(seqs):
        out = []
        for tag, data in seqs:
            case.require(tag in by_tag, f"unknown tag {tag!r}")
            nm, i = by_tag[tag]
            out.append((nm, i))
            case.equal(set(data), keys, "data keys")
            for k in keys:
                src = [sk for (n_, sk), kk in data_map.items() if n_ == nm and kk == k]
                if src:
                    _same(case, data[k], _expect(cs[nm], kinds[nm], src[0], i), f"CombinedDataset: data {k!r} of {tag!r} is not that of this sequence")
                else:
                    case.equal(data[k].size, 0, f"CombinedDataset: {k!r} must be empty for a sequence of another dataset")
        return out

    base = rng.randint(0, 2) * part
    epochs = [base + j + 1 for j in range(max(part, 2))]
    ref = _history(case, lambda: D.init_dataset(opts), lambda e, s: content(s), epochs, beyond=True)
    sub_ref = {(nm, e): [by_tag[s[0]] for s in D.read_epoch(D.init_dataset(subs[nm]), e)] for nm in names for e in epochs}

    def seq_len(x):
        nm, i = x
        return cs[nm].lens[i]

    if mode == "plain":
        allx = [x for e in epochs[:part] for x in content(ref[e])]
        exp = [(nm, i) for nm in names for i in range(cs[nm].n)]
        case.equal(sorted(allx), sorted(exp), "CombinedDataset: the sub-epochs of a full epoch do not give every sequence exactly once")
        epoch_groups = [(epochs[:part], allx)]
        # order inside one dataset is kept with random_dataset and default
        if part == 1:
            for e in epochs:
                x = content(ref[e])
                if ordering in ("random_dataset", "default"):
                    for nm in names:
                        case.equal([y for y in x if y[0] == nm], sub_ref[(nm, e)], f"CombinedDataset {ordering}: order inside sub-dataset {nm} not kept")
                if ordering == "default":
                    case.equal(x, [y for nm in sorted(names) for y in sub_ref[(nm, e)]], "CombinedDataset: default order")
                if ordering == "reverse":
                    case.equal(x, [y for nm in sorted(names) for y in sub_ref[(nm, e)]][::-1], "CombinedDataset: reverse order")
                if ordering.startswith("sorted"):
                    ls = [seq_len(y) for y in x]
                    case.equal(ls, sorted(ls, reverse=ordering != "sorted"), "CombinedDataset: sorted order")
                case.count("structure_checked")
    elif mode == "sub_part":
        for e in epochs:
            exp = [y for nm in names for y in sub_ref[(nm, e)]]
            case.equal(sorted(content(ref[e])), sorted(exp), "CombinedDataset: not exactly the sequences of the sub-datasets in this epoch")
            case.count("structure_checked")
    else:
        # every dataset: consecutive windows, wrapping around
        pos = {}
        for e in epochs:
            x = content(ref[e])
            exp_all = []
            for nm in sorted(names):
                order = sub_ref[(nm, e)]
                off = (e - 1) * sampling[nm]
                exp_all += [order[(off + j) % len(order)] for j in range(sampling[nm])]
            case.equal(sorted(x), sorted(exp_all), "CombinedDataset: sampling_sizes: not the next sequences in order")
            if ordering == "default":
                case.equal(x, exp_all, "sampling: default order")
            case.count("structure_checked")


def concat(case):
    rng = case.rng
    k = rng.randint(1, 4)
    cs, subs = [], []
    kinds = rng.choice([["hdf"], ["map"]])
    part = rng.choice([1, 1, 2])
    for j in range(k):
        c = D.Corpus(rng, rng.choice([1, 2, rng.randint(3, 12)]), max_len=6)
        if part > c.n:
            c = D.Corpus(rng, part + 1, max_len=6)
        c.tags = [f"{j}-{t}" for t in c.tags]
        kw = {"seq_ordering": rng.choice(["default", "reverse", "random"])}
        if part > 1:
            kw["partition_epoch"] = part
        subs.append(_sub(case, rng.choice(kinds), c, f"d{j}", **kw))
        cs.append(c)
    opts = {"class": "ConcatDataset", "datasets": subs}
    case.desc(sizes=[c.n for c in cs], part=part, orders=[s["seq_ordering"] for s in subs])
    by_tag = {t: (j, i) for j, c in enumerate(cs) for i, t in enumerate(c.tags)}

    def check(e, seqs):
        exp = []
        for s in subs:
            exp += [x[0] for x in D.read_epoch(D.init_dataset(s), e)]
        case.equal([s[0] for s in seqs], exp, "ConcatDataset: not the sequences of the sub-datasets one after another")
        for tag, data in seqs:
            j, i = by_tag[tag]
            _same(case, data["data"], cs[j].data(i), f"ConcatDataset: data of {tag}")
            _same(case, data["classes"], cs[j].classes(i), f"ConcatDataset: classes of {tag}")

    epochs = sorted(rng.sample(range(1, 8), 2))
    _history(case, lambda: D.init_dataset(opts), check, epochs)


def concat_seqs(case):
    import numpy

    rng = case.rng
    n = rng.randint(2, 15)
    c = D.Corpus(rng, n, max_len=rng.choice([4, 10]))
    delim = rng.choice([";", "|", " + "])
    postfix = rng.random() < 0.4
    if postfix:
        orig = c.classes
        c.classes = lambda i: numpy.concatenate([orig(i), numpy.array([0], "int32")])
        c.target_lens = [t + 1 for t in c.target_lens]
    groups = [[rng.randrange(n) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 8))]
    kind = rng.choice(["hdf", "map"])
    sub = _sub(case, kind, c, "s", **({"seq_ordering": "random"} if rng.random() < 0.3 else {}))
    tmp = case.tmpdir()
    with open(f"{tmp}/sl.txt", "w") as f:
        f.write("".join(delim.join(c.tags[i] for i in g) + "\n" for g in groups))
    with open(f"{tmp}/lens.py", "w") as f:
        f.write(repr({c.tags[i]: c.lens[i] for i in range(n)}))
    ordering = rng.choice(["default", "reverse", "sorted", "random"])
    opts = {"class": "ConcatSeqsDataset", "dataset": sub, "seq_list_file": f"{tmp}/sl.txt", "seq_len_file": f"{tmp}/lens.py", "seq_tag_delim": delim, "seq_ordering": ordering}
    mult = None
    if postfix:
        opts["remove_in_between_postfix"] = {"classes": 0}
    r = rng.random()
    narrow = None
    if r < 0.3:
        mult = rng.randint(2, 5)
        opts["repeat_in_between_last_frame_up_to_multiple_of"] = {"data": mult}
    elif r < 0.5:
        narrow = rng.randint(1, 3)
        opts["pad_narrow_data_to_multiple_of_target_len"] = {"data": ("classes", narrow)}
    filt = None
    if rng.random() < 0.5:
        glens = [sum(c.lens[i] for i in g) for g in groups]
        filt = rng.choice([min(glens), sum(glens) / len(glens) * rng.uniform(0.7, 1.2), max(glens) + 1])
        filt = max(filt, min(glens))
        opts["epoch_wise_filter"] = {(1, 3): {"max_mean_len": filt}}
    case.desc(n=n, groups=groups, delim=delim, postfix=postfix, mult=mult, narrow=narrow, ordering=ordering, filt=filt, kind=kind)

    def expected(g):
        data, classes = [], []
        for p, i in enumerate(g):
            d, cl = c.data(i), c.classes(i)
            if p < len(g) - 1:
                if narrow:
                    want = len(cl) * narrow
                    d = d[:want] if len(d) >= want else numpy.concatenate([d, numpy.repeat(d[-1:], want - len(d), axis=0)])
                if mult:
                    want = -(-len(d) // mult) * mult
                    d = numpy.concatenate([d, numpy.repeat(d[-1:], want - len(d), axis=0)])
                if postfix:
                    cl = cl[:-1]
            data.append(d)
            classes.append(cl)
        return numpy.concatenate(data), numpy.concatenate(classes)

    def check(e, seqs):
        tags = [delim.join(c.tags[i] for i in g) for g in groups]
        got = [s[0] for s in seqs]
        lens = {t: sum(c.lens[i] for i in g) for t, g in zip(tags, groups)}
        if filt is None or e > 3:
            case.equal(sorted(got), sorted(tags), "ConcatSeqsDataset: not every listed sequence exactly once")
            if ordering == "default":
                case.equal(got, tags, "order")
            if ordering == "reverse":
                case.equal(got, tags[::-1], "order")
        else:
            case.count("filtered")
            got_l = sorted(lens[t] for t in got)
            all_l = sorted(lens[t] for t in tags)
            case.require(len(got) > 0, "EpochWiseFilter: nothing left")
            case.equal(got_l, all_l[: len(got_l)], "EpochWiseFilter: not the shortest sequences")
            if len(got_l) > 1 and sum(got_l) / len(got_l) > filt + 1e-9:
                wo = got_l[:-1]
                case.require(sum(wo) / len(wo) <= filt + 1e-9, "EpochWiseFilter: mean length above max_mean_len, by more than one sequence", mean=sum(wo) / len(wo), max=filt)
                case.finding("epoch-wise-filter-one-too-many", "EpochWiseFilter: mean length above max_mean_len, one sequence too many")
            if len(got_l) < len(all_l):
                nxt = all_l[: len(got_l) + 1]
                case.require(sum(nxt) / len(nxt) > filt - 1e-9, "EpochWiseFilter: more sequences would have fit", mean=sum(nxt) / len(nxt), max=filt)
        if ordering == "sorted":
            case.equal([lens[t] for t in got], sorted(lens[t] for t in got), "sorted")
        for tag, data in seqs:
            d, cl = expected(groups[tags.index(tag)])
            _same(case, data["data"], d, f"ConcatSeqsDataset: data of {tag}")
            _same(case, data["classes"], cl, f"ConcatSeqsDataset: classes of {tag}")

    _history(case, lambda: D.init_dataset(opts), check, [2, 5])


def chunk_shuffle(case):
    rng = case.rng
    n = rng.randint(1, 12)
    c = D.Corpus(rng, n, max_len=rng.choice([4, 20]))
    chunking = rng.choice([None, "3:3", "5:5", "4:2"])
    # same-length targets, so that the chunking is defined
    c.classes = c.frame_classes
    c.target_lens = list(c.lens)
    kind = rng.choice(["hdf", "map"])
    sub = _sub(case, kind, c, "s", seq_ordering=rng.choice(["default", "random"]), **({"chunking": chunking} if chunking else {}))
    opts = {"class": "ChunkShuffleDataset", "dataset": sub, "chunk_shuffle_cache": rng.choice([1, 3, 1000])}
    case.desc(n=n, chunking=chunking, cache=opts["chunk_shuffle_cache"], kind=kind)

    def check(e, seqs):
        got = []
        for tag, data in seqs:
            i = D.Corpus.id_from_data(data["data"])
            t0 = int(data["data"][0, 0]) - (i + 1) * 256
            t1 = t0 + len(data["data"])
            _same(case, data["data"], c.data(i)[t0:t1], "ChunkShuffleDataset: data")
            _same(case, data["classes"], c.classes(i)[t0:t1], "ChunkShuffleDataset: classes not of the same chunk as the data")
            case.require(tag.startswith(c.tags[i] + "."), "tag", tag=tag, i=i)
            got.append((i, t0, t1))
        exp = []
        for i in range(n):
            if not chunking:
                exp.append((i, 0, c.lens[i]))
            else:
                size, step = map(int, chunking.split(":"))
                t = 0
                while t < c.lens[i]:
                    exp.append((i, t, min(t + size, c.lens[i])))
                    t += step
                    # see Dataset.iterate_seqs: stops when the chunk reached the end
        if chunking == "4:2":
            frames = sorted({(i, t) for i, a, b in got for t in range(a, b)})
            case.equal(frames, [(i, t) for i in range(n) for t in range(c.lens[i])], "ChunkShuffleDataset: frames lost")
            case.equal(len(set(got)), len(got), "chunk twice")
        else:
            case.equal(sorted(got), sorted(exp), "ChunkShuffleDataset: not every chunk exactly once")

    _history(case, lambda: D.init_dataset(opts), check, [1, 4], same_batching=True)


def multi_epoch(case):
    rng = case.rng
    n = rng.randint(3, 25)
    c = D.Corpus(rng, n, max_len=6)
    part = rng.randint(1, min(4, n))
    kind = rng.choice(["hdf", "ogg", "map"])
    sub = _sub(case, kind, c, "s", seq_ordering=rng.choice(["default", "random", "sorted", "laplace:.3"]), **({"partition_epoch": part} if part > 1 else {}))
    me = rng.choice([part, part, part, rng.randint(1, 5)])
    opts = {"class": "MultiEpochDataset", "dataset": sub, "multi_epoch": me}
    case.desc(n=n, part=part, multi=me, kind=kind, order=sub["seq_ordering"])

    def content(seqs):
        ids = []
        for tag, data in seqs:
            i = c.tags.index(tag)
            ids.append(i)
            for k in SUB_KEYS[kind]:
                _same(case, data[k], _expect(c, kind, k, i), f"MultiEpochDataset: {k} of {tag}")
        return ids

    def check(e, seqs):
        exp = []
        for j in range(me):
            exp += [s[0] for s in D.read_epoch(D.init_dataset(sub), (e - 1) * me + j + 1)]
        case.equal([s[0] for s in seqs], exp, "MultiEpochDataset: not the inner epochs one after another")
        ids = content(seqs)
        if me == part:
            case.equal(sorted(ids), list(range(n)), "MultiEpochDataset: not the whole corpus exactly once")

    def predefined(rng):
        ids = rng.sample(range(n), rng.randint(1, n))
        kw = {"seq_order": ids} if rng.random() < 0.5 else {"seq_list": [c.tags[i] for i in ids]}

        def chk(got):
            case.equal(content(got), ids, "MultiEpochDataset: predefined order")

        return kw, chk

    _history(case, lambda: D.init_dataset(opts), check, sorted(rng.sample(range(1, 7), 2)), predefined=predefined)


def variable(case):
    rng = case.rng
    cs = [D.Corpus(rng, rng.randint(1, 10), max_len=6) for _ in range(3)]
    for j, c in enumerate(cs):
        c.tags = [f"{j}-{t}" for t in c.tags]
    subs = [_sub(case, "hdf", c, f"v{j}", seq_ordering=rng.choice(["default", "random"])) for j, c in enumerate(cs)]
    period = rng.randint(1, 3)
    calls = []

    def get_dataset(*, epoch, **_kw):
        calls.append(epoch)
        return dict(subs[(epoch // period) % 3])

    cache = rng.randint(1, 3)
    opts = {"class": "VariableDataset", "get_dataset": get_dataset, "dataset_lru_cache_size": cache}
    case.desc(sizes=[c.n for c in cs], period=period, cache=cache)

    def content(j, seqs):
        ids = []
        for tag, data in seqs:
            i = cs[j].tags.index(tag)
            ids.append(i)
            _same(case, data["data"], cs[j].data(i), "VariableDataset: data")
        return ids

    def check(e, seqs):
        j = (e // period) % 3
        exp = [s[0] for s in D.read_epoch(D.init_dataset(subs[j]), e)]
        case.equal([s[0] for s in seqs], exp, "VariableDataset: not the sequences of the dataset chosen for this epoch")
        content(j, seqs)

    _history(case, lambda: D.init_dataset(opts), check, sorted(rng.sample(range(1, 12), 4)), steps=12)


def clustering(case):
    rng = case.rng
    n = rng.randint(2, 15)
    c = D.Corpus(rng, n, max_len=6)
    part = rng.choice([1, 1, 2])
    sub = _sub(case, "hdf", c, "s", seq_ordering=rng.choice(["default", "random", "sorted"]), **({"partition_epoch": part} if part > 1 else {}))
    k = rng.randint(1, 5)
    cl = [rng.randrange(k) for _ in range(n)]
    ids = list(range(n))
    rng.shuffle(ids)
    fn = f"{case.tmpdir()}/map.xml"
    with open(fn, "w") as f:
        f.write('<?xml version="1.0" encoding="utf-8"?>\n<coprus-key-map>\n' + "".join('<map-item key="%s" value="%i"/>\n' % (c.tags[i], cl[i]) for i in ids) + "</coprus-key-map>\n")
    opts = {"class": "ClusteringDataset", "dataset": sub, "cluster_map_file": fn, "n_clusters": k}
    case.desc(n=n, k=k, part=part, order=sub["seq_ordering"])

    def check(e, seqs):
        case.equal([s[0] for s in seqs], [s[0] for s in D.read_epoch(D.init_dataset(sub), e)], "ClusteringDataset: order of the wrapped dataset")
        for tag, data in seqs:
            i = c.tags.index(tag)
            _same(case, data["data"], c.data(i), "data")
            _same(case, data["classes"], c.classes(i), "classes")
            case.equal(data["cluster_idx"].tolist(), [cl[i]], "ClusteringDataset: cluster index of another sequence")

    _history(case, lambda: D.init_dataset(opts), check, [1, 2])


KINDS = {
    "clustering": {"func": clustering, "quick": 30, "thorough": 150},
    "meta": {"func": meta, "quick": 400, "thorough": 1500},
    "combined": {"func": combined, "quick": 280, "thorough": 1000},
    "concat": {"func": concat, "quick": 60, "thorough": 300},
    "concat_seqs": {"func": concat_seqs, "quick": 120, "thorough": 600},
    "chunk_shuffle": {"func": chunk_shuffle, "quick": 60, "thorough": 300},
    "multi_epoch": {"func": multi_epoch, "quick": 80, "thorough": 500},
    "variable": {"func": variable, "quick": 40, "thorough": 200},
}
