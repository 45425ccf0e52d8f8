"""Importable (picklable) helpers for datasets living in subprocesses."""
import os
import random
import signal
import time


def _map_base():
    from returnn.datasets.map import MapDatasetBase

    return MapDatasetBase


class SlowMap(_map_base()):
    """Map-style dataset over a corpus; random delays per access, optional fault at one sequence."""

    def __init__(self, corpus, delay_seed=None, max_delay=0.0, fault_at=None, fault=None):
        super().__init__(
            data_types={
                "data": {"shape": (None, corpus.dim), "dtype": "float32"},
                "classes": {"shape": (None,), "sparse": True, "dim": corpus.num_labels, "dtype": "int32"},
            }
        )
        self.c = corpus
        self.delay_seed, self.max_delay = delay_seed, max_delay
        self.fault_at, self.fault = fault_at, fault
        self._rng = None

    def __len__(self):
        return self.c.n

    def __getitem__(self, i):
        if self.max_delay:
            if self._rng is None:
                self._rng = random.Random((self.delay_seed or 0) * 1000003 + os.getpid())
            if self._rng.random() < 0.3:
                time.sleep(self._rng.random() * self.max_delay)
        if self.fault_at is not None and i == self.fault_at:
            if self.fault == "raise":
                raise Exception("injected fault at %i" % i)
            if self.fault == "exit":
                os._exit(7)
            if self.fault == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
            if self.fault == "oserror":
                raise OSError(5, "injected IO error")
        return {"data": self.c.data(i), "classes": self.c.classes(i)}

    def get_seq_len(self, i):
        return self.c.lens[i]

    def get_seq_tag(self, i):
        return self.c.tags[i]


def hdf_sub_epoch(files, *, seq_ordering="default", extra=None):
    return {"class": "HDFDataset", "files": list(files), "seq_ordering": seq_ordering, **(extra or {})}


def meta_sub_epoch(files, *, seq_ordering="default", form="tuple"):
    """files: list of file trees (data hdf, classes hdf) in the given form"""

    def split(t):
        if form == "tuple":
            return t[0], t[1]
        if form == "dict":
            return t["a"], t["b"]
        if form == "nested":
            return t["x"][0], t["x"][1]
        raise ValueError(form)

    a, b = zip(*[split(t) for t in files])
    return {
        "class": "MetaDataset",
        "data_map": {"data": ("a", "data"), "other": ("b", "data")},
        "datasets": {
            "a": {"class": "HDFDataset", "files": list(a), "seq_ordering": seq_ordering},
            "b": {"class": "HDFDataset", "files": list(b)},
        },
        "seq_order_control_dataset": "a",
    }


class DropStream:
    """map_seq_stream: drops the sequences where a hash of the tag says so; the number of sequences is then not known"""

    def __init__(self, mod, rest):
        self.mod, self.rest = mod, rest

    def keeps(self, tag):
        import zlib

        return zlib.crc32(str(tag).encode("utf8")) % self.mod != self.rest

    def __call__(self, it, **_kwargs):
        for t in it:
            if self.keeps(t.data["seq_tag"].raw_tensor):
                yield t


def ident_stream(it, **_kwargs):
    yield from it


class FilesMap(_map_base()):
    """content given by "files": each file name ends in "-<id>", and has num_seqs[id] sequences (id, j)"""

    def __init__(self, ids, num_seqs, fault_at=None, fault=None):
        super().__init__(data_types={"data": {"shape": (None, 2), "dtype": "float32"}})
        self.items = [(f, j) for f in ids for j in range(num_seqs[f])]
        self.fault_at, self.fault = fault_at, fault

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        import numpy

        f, j = self.items[i]
        if self.fault_at is not None and (f, j) == self.fault_at:
            if self.fault == "raise":
                raise Exception("injected fault at %r" % (self.fault_at,))
            if self.fault == "exit":
                os._exit(7)
            os.kill(os.getpid(), signal.SIGKILL)
        return {"data": numpy.array([[f, j]] * (1 + (f * 3 + j) % 4), dtype="float32")}

    def get_seq_len(self, i):
        f, j = self.items[i]
        return 1 + (f * 3 + j) % 4

    def get_seq_tag(self, i):
        return "file-%i-seq-%i" % self.items[i]


def tree_leaves(t):
    if isinstance(t, str):
        return [t]
    if isinstance(t, dict):
        return [x for k in sorted(t) for x in tree_leaves(t[k])]
    return [x for v in t for x in tree_leaves(v)]


class FilesSub:
    """get_sub_epoch_dataset: records the file lists it was asked for (in the calling process)"""

    def __init__(self, num_seqs, seq_ordering="default", fault_at=None, fault=None, **extra):
        self.num_seqs, self.seq_ordering, self.fault_at, self.fault, self.extra = num_seqs, seq_ordering, fault_at, fault, extra
        self.broken_tree = None

    def __call__(self, files):
        ids = []
        for t in files:
            leaves = {int(x.rsplit("-", 1)[1]) for x in tree_leaves(t)}
            assert len(leaves) == 1, "file tree torn apart: %r" % (t,)
            ids.append(leaves.pop())
        return {
            "class": "MapDatasetWrapper",
            "map_dataset": FilesMap(ids, self.num_seqs, self.fault_at, self.fault),
            "seq_ordering": self.seq_ordering,
            **self.extra,
        }


class PMap(_map_base()):
    """corpus as map dataset, picklable"""

    def __init__(self, c):
        super().__init__(data_types={
            "data": {"shape": (None, c.dim), "dtype": "float32"},
            "classes": {"shape": (None,), "sparse": True, "dim": c.num_labels, "dtype": "int32"},
        })
        self.c = c

    def __len__(self):
        return self.c.n

    def __getitem__(self, i):
        return {"data": self.c.data(i), "classes": self.c.classes(i)}

    def get_seq_len(self, i):
        return self.c.lens[i]

    def get_seq_tag(self, i):
        return self.c.tags[i]
