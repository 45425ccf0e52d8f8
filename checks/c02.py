"""C02: the sequence order is a pure function of (options, epoch) and has the documented structure."""
import copy
import json
import os
import pickle
import subprocess
import sys
from vlib import ds as D
from vlib import orders as O

RULE = (
    "case = corpus x dataset class x seq_ordering x partition_epoch x seeds; the order of an epoch is recorded from "
    "fresh instances, used instances with random histories, pickled and deep-copied instances and other processes with "
    "another hash seed, and compared; and compared with the documented structure of the ordering. Non-trivial: more than one sequence."
)
ASSUMPTIONS = ["which permutation a random ordering gives for a seed is not judged, only its structure and stability"]
MIN_COUNTS = {"orders_compared": 200, "structure_checked": 50}
BUDGET = {"quick": 240, "thorough": 1500}


def worker_init():
    D.quiet_log()


def _gen(case, kinds=O.KINDS_DS, n=None, **corpus_kw):
    rng = case.rng
    n = n or rng.choice([2, 3, rng.randint(4, 20), rng.randint(20, 60)])
    kind = rng.choice(kinds)
    c = D.Corpus(rng, n, max_len=rng.choice([2, 6, 30]), **corpus_kw)
    extra = {}
    if rng.random() < 0.5:
        extra["partition_epoch"] = rng.randint(2, 5)
    if rng.random() < 0.3:
        extra["random_seed_offset"] = rng.randrange(10**6)
    elif rng.random() < 0.2:
        extra["fixed_random_seed"] = rng.randrange(10**6)
    return n, kind, c, extra


def _order(case, b, ds, epoch):
    got = D.read_epoch(ds, epoch)
    case.count("seqs_delivered", len(got))
    return [O.check_delivery(case, b, s, "epoch %i" % epoch) for s in got]


def history(case):
    """any sequence of earlier calls leaves the order of an epoch unchanged"""
    rng = case.rng
    n, kind, c, extra = _gen(case)
    b = O.build(case, kind, c, **extra)
    b.opts["seq_ordering"] = O.gen_ordering(rng, n)
    if b.opts["seq_ordering"].startswith("default_every_n") and n < extra.get("partition_epoch", 1):
        b.opts["seq_ordering"] = "random"
    case.desc(ds=kind, n=n, ordering=b.opts["seq_ordering"], **extra)
    epochs = sorted(rng.sample(range(1, 14), 4))
    ref = {e: _order(case, b, D.init_dataset(b.opts), e) for e in epochs}  # fresh instance each
    ds = D.init_dataset(b.opts)
    for _ in range(12):
        r = rng.random()
        e = rng.choice(epochs)
        if r < 0.5:
            case.equal(_order(case, b, ds, e), ref[e], f"order of epoch {e} depends on the history of the dataset object")
            case.count("orders_compared")
        elif r < 0.6:
            ds.init_seq_order(epoch=e)
        elif r < 0.7:
            ds.init_seq_order(epoch=e)
            if ds.is_less_than_num_seqs(0):
                ds.load_seqs(0, 1)
                ds.get_data(0, list(ds.get_data_keys())[0])
            if rng.random() < 0.5:
                ds.finish_epoch()
        elif r < 0.75:
            D.read_epoch(ds, e, init_kw={"seq_order": rng.sample(range(n), rng.randint(1, n))}, max_seqs=2)
        elif r < 0.8:
            ds.init_seq_order(epoch=None)
        elif r < 0.9 and kind != "map":
            ds = pickle.loads(pickle.dumps(ds))
        elif kind != "map":
            ds = copy.deepcopy(ds)
    # get_seq_order_for_epoch is the same function
    e = rng.choice(epochs)
    case.equal(_order(case, b, ds, e), ref[e], "final")
    case.count("orders_compared")


def _full_order(case, b, ds, full, p):
    out = []
    for sub in range(p):
        out += _order(case, b, ds, full * p + sub + 1)
    return out


def structure(case):
    """documented structure of each ordering, and of its restriction to sub-epochs"""
    rng = case.rng
    n, kind, c, extra = _gen(case)
    p = extra.get("partition_epoch", 1)
    so = O.gen_ordering(rng, n, allow_every_n=False)
    b = O.build(case, kind, c, **extra)
    b.opts["seq_ordering"] = so
    lens = list(c.lens)
    if rng.random() < 0.3 and kind not in ("textdict",):
        lens = [rng.randint(1, 10) for _ in range(n)]
        fn = case.tmpdir() + "/seq_lens.txt" + rng.choice(["", ".gz"])
        txt = "{" + ",\n".join("%r: %i" % (b.tags[i], lens[i]) for i in range(n)) + "}\n"
        import gzip

        with (gzip.open(fn, "wt") if fn.endswith(".gz") else open(fn, "w")) as f:
            f.write(txt)
        b.opts["seq_order_seq_lens_file"] = fn
    case.desc(ds=kind, n=n, ordering=so, lens_file="seq_order_seq_lens_file" in b.opts, **extra)
    ds = D.init_dataset(b.opts)
    base, *args = so.split(":")
    fulls = {full: _full_order(case, b, ds, full, p) for full in rng.sample(range(8), 2)}
    for full, order in fulls.items():
        case.require(sorted(order) == list(range(n)), "not a permutation", order=order)
        ls = [lens[i] for i in order]
        if base == "default":
            case.equal(order, list(range(n)), "default order")
        elif base == "reverse":
            case.equal(order, list(range(n))[::-1], "reverse order")
        elif base == "sorted":
            case.equal(order, sorted(range(n), key=lambda i: lens[i]), "sorted order (stable)")
        elif base == "sorted_reverse":
            case.equal(ls, sorted(lens, reverse=True), "sorted_reverse order")
        elif base == "laplace":
            bins = _num_bins(args, n)
            pos = 0
            for k in range(bins):
                m = (k + 1) * n // bins - k * n // bins
                part = ls[pos : pos + m]
                pos += m
                case.equal(part, sorted(part, reverse=bool(k % 2)), f"laplace bin {k}/{bins} alternates ascending / descending length")
        elif base.startswith("sort_bin_shuffle"):
            bins = _num_bins(args, n)
            # the bins are contiguous length ranges of equal count, in some order
            sizes = [(k + 1) * n // bins - k * n // bins for k in range(bins)]
            srt = sorted(lens)
            exp = {}
            for k in range(bins):
                exp.setdefault(tuple(srt[k * n // bins : (k + 1) * n // bins]), 0)
                exp[tuple(srt[k * n // bins : (k + 1) * n // bins])] += 1
            ok = _match_bins(ls, sizes, exp, x2=base.endswith("_x2"))
            case.require(ok, "sort_bin_shuffle: not a concatenation of the length bins", ls=ls, bins=bins)
        case.count("structure_checked")
    # parts are consecutive pieces of the full order of the unpartitioned dataset of the same seed
    if p > 1:
        o = {k: v for k, v in b.opts.items() if k != "partition_epoch"}
        ds1 = D.init_dataset(o)
        for full, order in fulls.items():
            case.equal(order, _order(case, b, ds1, full + 1), "sub-epochs in sequence = order of the full epoch without partitioning")
            case.count("orders_compared")
    # seed handling
    if base in ("random", "laplace", "sort_bin_shuffle", "sort_bin_shuffle_x2"):
        k = 0 if base == "random" else 1
        nth = int(args[k]) if len(args) > k else 1
        if "fixed_random_seed" in extra:
            vals = list(fulls.values())
            case.equal(vals[0], vals[1], "fixed_random_seed: same order in every epoch")
        else:
            f0 = rng.randrange(3) * nth
            orders = [_full_order(case, b, ds, f0 + j, p) for j in range(nth)]
            case.require(all(x == orders[0] for x in orders), f"{so}: order must be kept for {nth} epochs", orders=orders)
        case.count("orders_compared")


def _num_bins(args, n):
    if not args:
        return 2
    if args[0].startswith("."):
        return max(n // int(args[0][1:]), 2)
    return int(args[0])


def _match_bins(ls, sizes, exp, x2):
    """backtracking match of ls against the multiset of bins (tuple of sorted lengths)"""
    exp = {k: v for k, v in exp.items() if k}
    seen = set()

    def rec(pos, rem):
        key = (pos, tuple(sorted(rem.items())))
        if key in seen:
            return False
        seen.add(key)
        if pos == len(ls):
            return not any(rem.values())
        for bin_, cnt in list(rem.items()):
            if not cnt:
                continue
            part = ls[pos : pos + len(bin_)]
            if (sorted(part) if x2 else part) == list(bin_):
                if rec(pos + len(bin_), {**rem, bin_: cnt - 1}):
                    return True
        return False

    return rec(0, exp)


def shuffles(case):
    """the random orderings do shuffle: different epochs / seed offsets give different orders (n large, so chance < 1e-20)"""
    rng = case.rng
    n = rng.randint(40, 60)
    c = D.Corpus(rng, n, ties=False, min_len=1, max_len=80)
    so = rng.choice(["random", "laplace:.%i" % rng.randint(10, 20), "sort_bin_shuffle_x2:.20", "random:2"])
    p = rng.choice([1, 2, 3])
    kind = rng.choice(["static", "hdf", "lm"])
    b = O.build(case, kind, c, seq_ordering=so, partition_epoch=p)
    case.desc(ds=kind, ordering=so, p=p, n=n)
    ds = D.init_dataset(b.opts)
    nth = 2 if so == "random:2" else 1
    a, b_ = _full_order(case, b, ds, 0, p), _full_order(case, b, ds, nth, p)
    case.require(a != b_, "two different epochs have the same random order", order=a)
    ds2 = D.init_dataset({**b.opts, "random_seed_offset": rng.randint(1, 10**6)})
    case.require(a != _full_order(case, b, ds2, 0, p), "random_seed_offset has no effect", order=a)
    case.require(a != list(range(n)), "random order is the corpus order")
    case.count("orders_compared", 2)


_CHILD = """
import sys, json
sys.path[:0] = %r
from vlib import ds as D
import pickle
D.quiet_log()
for opts, epochs in pickle.load(open(%r, "rb")):
    ds = D.init_dataset(opts)
    print("RES " + json.dumps([[s[0] for s in D.read_epoch(ds, e)] for e in epochs]))
"""


def processes(case):
    """another process, another hash seed: same order"""
    rng = case.rng
    jobs, ref = [], []
    for _ in range(6):
        n, kind, c, extra = _gen(case, kinds=["static", "hdf", "lm", "textdict", "oggzip"])
        sub = case.tmpdir() + "/j%i" % len(jobs)
        os.mkdir(sub)
        old = case._tmp
        case._tmp = sub
        try:
            b = O.build(case, kind, c, **extra)
        finally:
            case._tmp = old
        b.opts["seq_ordering"] = O.gen_ordering(rng, n, allow_every_n=False)
        epochs = rng.sample(range(1, 20), 3)
        jobs.append((b.opts, epochs))
        ds = D.init_dataset(b.opts)
        ref.append([[s[0] for s in D.read_epoch(ds, e)] for e in epochs])
    fn = case.tmpdir() + "/jobs.pkl"
    with open(fn, "wb") as f:
        pickle.dump(jobs, f)
    case.desc(jobs=[(j[0]["class"], j[0]["seq_ordering"]) for j in jobs])
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 10**6)))
    out = subprocess.run(
        [sys.executable, "-c", _CHILD % (sys.path[:], fn)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True
    )
    res = [json.loads(l[4:]) for l in out.stdout.splitlines() if l.startswith("RES ")]
    case.equal(len(res), len(jobs), "child process failed: " + out.stdout[-1500:])
    for a, r, j in zip(res, ref, jobs):
        case.equal(a, r, f"order differs in another process ({j[0]['class']}, {j[0]['seq_ordering']})")
        case.count("orders_compared")


KINDS = {
    "history": {"func": history, "quick": 250, "thorough": 4000},
    "structure": {"func": structure, "quick": 400, "thorough": 8000},
    "shuffles": {"func": shuffles, "quick": 30, "thorough": 300},
    "processes": {"func": processes, "quick": 8, "thorough": 60},
}
