"""Shared generators for the sequence-order checks (C01, C02)."""
from vlib import ds as D

SORTING = ("sorted", "sorted_reverse", "laplace", "sort_bin_shuffle")


def gen_ordering(rng, n, *, allow_every_n=True):
    r = rng.random()
    if r < 0.1:
        return "default"
    if r < 0.17:
        return "reverse"
    if r < 0.25:
        return "sorted"
    if r < 0.3:
        return "sorted_reverse"
    if r < 0.5:
        return rng.choice(["random", "random:%i" % rng.randint(1, 4)])
    if r < 0.7:
        return rng.choice(
            [
                "laplace",
                "laplace:%i" % rng.randint(1, 6),
                "laplace:.%i" % rng.randint(1, max(1, n)),
                "laplace:.%i:%i" % (rng.randint(1, 9), rng.randint(1, 3)),
                "laplace:%i:%i" % (rng.randint(1, 9), rng.randint(1, 3)),
            ]
        )
    if r < 0.93 or not allow_every_n:
        x2 = rng.choice(["", "_x2"])
        return "sort_bin_shuffle" + x2 + rng.choice(
            [
                "",
                ":%i" % rng.randint(1, 6),
                ":.%i" % rng.randint(1, max(1, n)),
                ":.%i:%i" % (rng.randint(1, 9), rng.randint(1, 3)),
                ":%i:%i" % (rng.randint(1, 9), rng.randint(1, 3)),
            ]
        )
    return "default_every_n:%i" % rng.randint(1, max(1, min(n, 5)))


KINDS_DS = ["static", "hdf", "map", "lm", "textdict", "oggzip"]
SHARD_OK = ["hdf", "lm", "textdict", "oggzip"]


class Built:
    """dataset options + what each corpus sequence has to look like when delivered"""

    def __init__(self, kind, corpus, opts, tags, content):
        self.kind, self.corpus, self.opts, self.tags, self.content = kind, corpus, opts, tags, content


def build(case, kind, c, rng=None, **kw):
    rng = rng or case.rng
    tmp = case.tmpdir()
    tags = list(c.tags)
    if kind == "static":
        opts = D.static_opts(c, **kw)
        tags = ["seq-%i" % i for i in range(c.n)]
        content = lambda i: {"data": c.data(i), "classes": c.classes(i)}
    elif kind == "hdf":
        opts = D.hdf_opts(c, tmp, num_files=rng.choice([1, 1, 2, 3]), **kw)
        content = lambda i: {"data": c.data(i), "classes": c.classes(i)}
    elif kind == "map":
        opts = {"class": "MapDatasetWrapper", "map_dataset": D.make_map_dataset(c), **kw}
        content = lambda i: {"data": c.data(i), "classes": c.classes(i)}
    elif kind == "lm":
        custom = rng.random() < 0.5
        opts = D.lm_opts(c, tmp, gz=rng.random() < 0.3, custom_tags=custom, num_files=rng.choice([1, 2, 3]), **kw)
        if not custom:
            tags = ["line-%i" % i for i in range(c.n)]
        content = lambda i: {"data": c.text_labels(i)}
    elif kind == "textdict":
        opts = D.text_dict_opts(c, tmp, gz=rng.random() < 0.3, **kw)
        content = lambda i: {"data": c.text_labels(i)}
    elif kind == "oggzip":
        opts = D.ogg_zip_opts(c, tmp, num_files=rng.choice([1, 2, 3]), **kw)
        content = lambda i: {"classes": c.text_labels(i)}
    else:
        raise ValueError(kind)
    return Built(kind, c, opts, tags, content)


def check_delivery(case, b, seq, what):
    """:return: corpus idx of the delivered seq, after checking that tag and content belong together"""
    import numpy

    tag, data = seq
    if b.kind in ("static", "hdf", "map"):
        i = D.Corpus.id_from_data(data["data"])
    else:
        key = "data" if "data" in data else "classes"
        i = int(data[key][0]) - 2
    case.require(0 <= i < b.corpus.n, f"{what}: unknown content delivered", tag=tag, data=data)
    case.require(tag == b.tags[i], f"{what}: tag does not belong to the delivered content", tag=tag, expected=b.tags[i], idx=i)
    for k, v in b.content(i).items():
        case.require(
            k in data and data[k].shape == v.shape and numpy.array_equal(data[k], v),
            f"{what}: content of seq {tag} key {k} differs from the corpus", got=data.get(k), expected=v,
        )
    return i
