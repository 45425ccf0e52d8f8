"""Corpus / dataset builders and readers (public dataset API only)."""

from __future__ import annotations
import gzip
import json
import os
import pickle
import zipfile


def quiet_log():
    """RETURNN log to nowhere (it prints a lot)"""
    from returnn.log import log

    log.initialize(verbosity=[0])


class Corpus:
    """Every sequence's content identifies the sequence, so that mixups are visible in the data itself."""

    def __init__(self, rng, n, *, min_len=1, max_len=20, dim=3, num_labels=40, tags="plain", dup_tags=False, ties=True):
        self.n = n
        self.dim = dim
        self.num_labels = num_labels
        if ties:
            self.lens = [rng.randint(min_len, max_len) for _ in range(n)]
        else:
            assert max_len - min_len + 1 >= n
            self.lens = rng.sample(range(min_len, max_len + 1), n)
        self.target_lens = [rng.randint(1, max(2, max_len // 2)) for _ in range(n)]
        prefix = {"plain": "seq-", "path": "corpus/rec.%i/seg-", "unicode": "sä/ß-"}[tags]
        self.tags = [(prefix % (i % 3) if "%" in prefix else prefix) + str(i) for i in range(n)]
        if dup_tags:
            for i in range(n):
                if i and rng.random() < 0.3:
                    self.tags[i] = self.tags[rng.randrange(i)]
        self._offset = rng.randrange(100)

    def data(self, i):
        import numpy

        t = self.lens[i]
        a = numpy.arange(t, dtype="float32")[:, None] + numpy.arange(self.dim, dtype="float32")[None, :] / 16.0
        return (a + (i + 1) * 256).astype("float32")

    def classes(self, i):
        import numpy

        t = self.target_lens[i]
        return ((numpy.arange(t) * 3 + i * 7 + self._offset) % self.num_labels).astype("int32")

    def frame_classes(self, i):
        """aligned with data"""
        import numpy

        return ((numpy.arange(self.lens[i]) * 5 + i * 11 + self._offset) % self.num_labels).astype("int32")

    def words(self, i):
        return ["s%05i" % i] + ["w%05i" % ((i * 31 + t * 7) % 50) for t in range(self.lens[i] - 1)]

    def text(self, i):
        return " ".join(self.words(i))

    def vocab(self):
        return ["[END]", "[UNKNOWN]"] + ["s%05i" % i for i in range(self.n)] + ["w%05i" % i for i in range(50)]

    def text_labels(self, i):
        import numpy

        v = {w: j for j, w in enumerate(self.vocab())}
        return numpy.array([v[w] for w in self.words(i)], dtype="int32")

    @staticmethod
    def id_from_data(arr):
        return int(arr[0, 0]) // 256 - 1


def static_opts(c: Corpus, **kw):
    return {
        "class": "StaticDataset",
        "data": [{"data": c.data(i), "classes": c.classes(i)} for i in range(c.n)],
        "output_dim": {"data": (c.dim, 2), "classes": (c.num_labels, 1)},
        **kw,
    }


def write_hdf(c: Corpus, ids, filename, *, batch=1, with_classes=True, sparse_data=False):
    import numpy
    from returnn.datasets.hdf import SimpleHDFWriter

    w = SimpleHDFWriter(
        filename,
        dim=c.dim,
        ndim=2,
        extra_type={"classes": (c.num_labels, 1, "int32")} if with_classes else None,
    )
    k = 0
    while k < len(ids):
        part = ids[k : k + batch]
        # batching requires the same target len, so do batch over equal target len only
        part = [i for i in part if c.target_lens[i] == c.target_lens[part[0]]][: 1 if batch == 1 else batch]
        m = 1
        while m < len(part) and part[m] == ids[k + m]:
            m += 1
        part = ids[k : k + m]
        part = [i for j, i in enumerate(part) if all(c.target_lens[x] == c.target_lens[part[0]] for x in part[: j + 1])]
        lens = [c.lens[i] for i in part]
        data = numpy.zeros((len(part), max(lens), c.dim), dtype="float32")
        for j, i in enumerate(part):
            data[j, : lens[j]] = c.data(i)
        extra = {"classes": numpy.stack([c.classes(i) for i in part])} if with_classes else None
        w.insert_batch(data, seq_len=lens, seq_tag=[c.tags[i] for i in part], extra=extra)
        k += len(part)
    w.close()


def hdf_opts(c: Corpus, tmpdir, *, num_files=1, cache=False, name="c", **kw):
    files = []
    bounds = [c.n * j // num_files for j in range(num_files + 1)]
    for j in range(num_files):
        ids = list(range(bounds[j], bounds[j + 1]))
        if not ids:
            continue
        fn = f"{tmpdir}/{name}-{j}.hdf"
        write_hdf(c, ids, fn)
        files.append(fn)
    return {"class": "HDFDataset", "files": files, "cache_byte_size": (10**9 if cache else 0), **kw}


def make_map_dataset(c: Corpus, with_order=False):
    from returnn.datasets.map import MapDatasetBase

    class _Map(MapDatasetBase):
        def __init__(self):
            super().__init__(
                data_types={
                    "data": {"shape": (None, c.dim), "dtype": "float32"},
                    "classes": {"shape": (None,), "sparse": True, "dim": c.num_labels, "dtype": "int32"},
                }
            )

        def __len__(self):
            return c.n

        def __getitem__(self, i):
            return {"data": c.data(i), "classes": c.classes(i)}

        def get_seq_len(self, i):
            return c.lens[i]

        def get_seq_tag(self, i):
            return c.tags[i]

    return _Map()


def write_text(c: Corpus, fn, ids=None):
    s = "".join(c.text(i) + "\n" for i in (range(c.n) if ids is None else ids))
    if fn.endswith(".gz"):
        with gzip.open(fn, "wt", encoding="utf8") as f:
            f.write(s)
    else:
        with open(fn, "w", encoding="utf8") as f:
            f.write(s)
    return fn


def write_vocab(c: Corpus, tmpdir):
    fn = f"{tmpdir}/vocab.txt"
    with open(fn, "w", encoding="utf8") as f:
        f.write("{\n" + "".join("%r: %i,\n" % (w, i) for i, w in enumerate(c.vocab())) + "}\n")
    return fn


def lm_opts(c: Corpus, tmpdir, *, gz=False, custom_tags=False, num_files=1, **kw):
    files = []
    for j in range(num_files):
        ids = list(range(c.n * j // num_files, c.n * (j + 1) // num_files))
        if ids:
            files.append(write_text(c, f"{tmpdir}/lm-{j}.txt" + (".gz" if gz else ""), ids))
    opts = {
        "class": "LmDataset",
        "corpus_file": files if len(files) > 1 else files[0],
        "orth_vocab": {"class": "Vocabulary", "vocab_file": write_vocab(c, tmpdir), "unknown_label": "[UNKNOWN]"},
        "seq_end_symbol": None,
        **kw,
    }
    if custom_tags:
        fn = f"{tmpdir}/lm-tags.txt"
        with open(fn, "w", encoding="utf8") as f:
            f.write("".join(t + "\n" for t in c.tags))
        opts["seq_list_file"] = fn
    return opts


def text_dict_opts(c: Corpus, tmpdir, *, gz=False, **kw):
    fn = f"{tmpdir}/td.py" + (".gz" if gz else "")
    s = "{\n" + "".join("%r: %r,\n" % (c.tags[i], c.text(i)) for i in range(c.n)) + "}\n"
    with (gzip.open(fn, "wt", encoding="utf8") if gz else open(fn, "w", encoding="utf8")) as f:
        f.write(s)
    return {
        "class": "TextDictDataset",
        "filename": fn,
        "item_format": "single",
        "vocab": {"class": "Vocabulary", "vocab_file": write_vocab(c, tmpdir), "unknown_label": "[UNKNOWN]"},
        **kw,
    }


def ogg_zip_opts(c: Corpus, tmpdir, *, num_files=1, **kw):
    paths = []
    for j in range(num_files):
        ids = list(range(c.n * j // num_files, c.n * (j + 1) // num_files))
        if not ids:
            continue
        fn = f"{tmpdir}/ogg{j}.zip"
        entries = [
            {"file": "f%i.ogg" % i, "seq_name": c.tags[i], "text": c.text(i), "duration": float(c.lens[i])} for i in ids
        ]
        with zipfile.ZipFile(fn, "w") as z:
            z.writestr(f"ogg{j}.txt", repr(entries))
        paths.append(fn)
    return {
        "class": "OggZipDataset",
        "path": paths if len(paths) > 1 else paths[0],
        "audio": None,
        "targets": {"class": "Vocabulary", "vocab_file": write_vocab(c, tmpdir), "unknown_label": "[UNKNOWN]"},
        **kw,
    }


def init_dataset(opts):
    from returnn.datasets.basic import init_dataset as init

    opts = dict(opts)
    if opts.get("class") == "MapDatasetWrapper":
        from returnn.datasets.map import MapDatasetWrapper

        opts.pop("class")
        ds = MapDatasetWrapper(**opts)
        ds.initialize()
        return ds
    return init(opts)


def read_epoch(ds, epoch, *, init_kw=None, keys=None, max_seqs=None, batch=1):
    """:return: list of (tag, {key: array})"""
    import numpy

    ds.init_seq_order(epoch=epoch, **(init_kw or {}))
    return read_current(ds, keys=keys, max_seqs=max_seqs, batch=batch)


def read_current(ds, *, keys=None, max_seqs=None, batch=1):
    import numpy

    out = []
    fracs = {True: [], False: []}
    try:
        known = ds.num_seqs
    except Exception:  # not known before the end, e.g. with a filter
        known = None
    i = 0
    if keys is None:
        keys = list(ds.get_data_keys())
    while ds.is_less_than_num_seqs(i):
        if i % batch == 0:
            ds.load_seqs(i, i + 1 if batch == 1 else _end(ds, i, batch))
        out.append((ds.get_tag(i), {k: numpy.array(ds.get_data(i, k)) for k in keys}))
        for lr in (True, False):
            frac = ds.get_complete_frac(i, allow_only_lr_suitable=lr)
            if not lr or frac is not None:
                fracs[lr].append(frac)
        i += 1
        if max_seqs is not None and i >= max_seqs:
            break
    else:
        # the end of the epoch
        for lr, fr in fracs.items():
            if known and lr and fr and len(fr) == i and abs(fr[-1] - 1) > 1e-6:
                raise ProgressError("get_complete_frac of the last seq is not 1: %s (%s)" % (fr[-20:], ds))
    for lr, fr in fracs.items():
        if not all(f is not None and 0 < f <= 1 for f in fr) or any(a > b for a, b in zip(fr, fr[1:])):
            raise ProgressError("get_complete_frac(allow_only_lr_suitable=%r) not monotonic in (0,1]: %s (%s)" % (lr, fr[:50], ds))
    return out


class ProgressError(Exception):
    """the progress by Dataset.get_complete_frac is not as documented"""


def _end(ds, i, batch):
    j = i + 1
    while j < i + batch and ds.is_less_than_num_seqs(j):
        j += 1
    return j


def same_seq(a, b):
    import numpy

    return (
        a[0] == b[0]
        and set(a[1]) == set(b[1])
        and all(
            a[1][k].shape == b[1][k].shape
            and a[1][k].dtype == b[1][k].dtype
            and numpy.array_equal(a[1][k], b[1][k], equal_nan=a[1][k].dtype.kind == "f")
            for k in a[1]
        )
    )


def diff_epoch(a, b):
    """:return: None if same, else description"""
    if len(a) != len(b):
        return "num seqs %i != %i; tags %s vs %s" % (len(a), len(b), [x[0] for x in a][:20], [x[0] for x in b][:20])
    for i, (x, y) in enumerate(zip(a, b)):
        if not same_seq(x, y):
            return "seq %i differs: %s vs %s" % (i, repr(x)[:400], repr(y)[:400])
    return None
