"""C01: epoch partitioning / sharding / repetition / filtering deliver every sequence exactly as often as configured."""
import collections
from vlib import ds as D
from vlib import orders as O

RULE = (
    "case = random corpus (1..60 seqs, ties in lengths) x dataset class x seq_ordering x partition_epoch x shards x "
    "repeat_epoch x unique tags x filter file x epoch range; every delivered sequence is identified by its content. "
    "Non-trivial: at least one sequence was delivered; distinct by the full case description."
)
ASSUMPTIONS = [
    "sharding is configured through the dataset options _num_shards/_shard_index, as the engine does it",
    "a filter is only combined with partitioning where no part can become empty",
]
MIN_COUNTS = {"seqs_delivered": 500, "epochs_read": 60}
BUDGET = {"quick": 240, "thorough": 1500}


def worker_init():
    D.quiet_log()


def _read(case, b, ds, epoch, what):
    got = D.read_epoch(ds, epoch, batch=case.rng.choice([1, 1, 3]))
    case.count("epochs_read")
    case.count("seqs_delivered", len(got))
    ids = [O.check_delivery(case, b, s, what) for s in got]
    case.equal(int(ds.num_seqs), len(ids), f"{what}: num_seqs does not match the number of delivered sequences")
    if ds.have_corpus_seq_idx():
        case.equal([int(ds.get_corpus_seq_idx(i)) for i in range(len(ids))], ids, f"{what}: get_corpus_seq_idx")
    return ids


def partition(case):
    rng = case.rng
    n = rng.choice([1, 2, 3, rng.randint(4, 20), rng.randint(20, 60)])
    kind = rng.choice(O.KINDS_DS)
    dup = kind in ("hdf", "map", "oggzip") and rng.random() < 0.3
    c = D.Corpus(rng, n, max_len=rng.choice([3, 12, 30]), tags=rng.choice(["plain", "path"]), dup_tags=dup)
    so = O.gen_ordering(rng, n)
    if rng.random() < 0.1:
        so_list = [so] + [O.gen_ordering(rng, n, allow_every_n=False) for _ in range(2)]
        if so_list[0].startswith("default_every"):
            so_list[0] = "default"
    else:
        so_list = None
    p = rng.choice([1, 1, 2, 3, rng.randint(2, 8), n, n + 2])
    s = rng.choice([1, 1, 2, 3, 5]) if kind in O.SHARD_OK else 1
    rep = rng.randint(2, 4) if p == 1 and rng.random() < 0.4 else 1
    if (n < p * s or dup) and so.startswith("default_every_n"):
        so = "default"
    every = int(so.split(":")[1]) if so.startswith("default_every_n") else None
    extra = {}
    if p > 1:
        extra["partition_epoch"] = p
    if rep > 1:
        extra["repeat_epoch"] = rep
    if rng.random() < 0.3:
        extra["random_seed_offset"] = rng.randrange(10**6)
    elif rng.random() < 0.15:
        extra["fixed_random_seed"] = rng.randrange(10**6)
    unique = dup and rng.random() < 0.7
    if unique:
        extra["unique_seq_tags"] = True
    b = O.build(case, kind, c, **extra)
    flt = None
    if kind != "static" and not dup and not every and rng.random() < 0.35 and n > 2 * p * s:
        min_part = n // (p * s)
        drop = set(rng.sample(range(n), rng.randint(1, min_part - 1) if p * s > 1 else rng.randint(1, n - 1)))
        flt = set(range(n)) - drop
        fn = case.tmpdir() + "/filter.txt"
        with open(fn, "w") as f:
            f.write("".join(b.tags[i] + "\n" for i in sorted(flt)))
        b.opts["seq_list_filter_file"] = fn
    b.opts["seq_ordering"] = so
    case.desc(ds=kind, n=n, ordering=so, P=p, S=s, repeat=rep, unique=unique, dup=dup, filter=len(flt) if flt else None)

    # expected multiset for a whole epoch
    if unique:
        exp_tags = collections.Counter({t: rep for t in set(b.tags)})
    shards = [D.init_dataset({**b.opts, **({"_num_shards": s, "_shard_index": k} if s > 1 else {})}) for k in range(s)]
    try:
        if shards[0].get_total_num_seqs() is not None:
            case.equal(int(shards[0].get_total_num_seqs()), n, "get_total_num_seqs")
        case.equal(list(shards[0].get_all_tags()), b.tags, "get_all_tags")
        for full in sorted(rng.sample(range(0, 7), rng.choice([1, 2, 3]))):
            total = collections.Counter()
            total_tags = collections.Counter()
            sizes = []
            parts = {}
            order = list(range(p))
            if rng.random() < 0.5:
                rng.shuffle(order)  # the sub-epochs may be asked for in any order
            for sub in order:
                for k in rng.sample(range(s), s):
                    epoch = full * p + sub + 1
                    ids = _read(case, b, shards[k], epoch, f"epoch {epoch} shard {k}/{s}")
                    total.update(ids)
                    total_tags.update(b.tags[i] for i in ids)
                    parts[(sub, k)] = [b.tags[i] for i in ids]
                    sizes.append(len(ids))
            if unique and rep == 1:
                # the order of the first ones stays the one without the option
                o1 = {k_: v for k_, v in b.opts.items() if k_ not in ("unique_seq_tags", "partition_epoch")}
                base = D.init_dataset(o1)
                seen, first = set(), []
                for i in _read(case, b, base, full + 1, "without unique_seq_tags"):
                    if b.tags[i] not in seen:
                        seen.add(b.tags[i])
                        first.append(b.tags[i])
                base.finish_epoch()
                got_order = [t for key in sorted(parts) for t in parts[key]]
                case.equal(got_order, first, "unique_seq_tags: order of the kept sequences")
            if unique:
                case.equal(total_tags, exp_tags, "each distinct tag exactly once per full epoch")
            elif every:
                case.require(max(total.values(), default=0) <= rep, "a sequence is repeated", total=total)
                case.equal(sum(total.values()), n // every * every * rep, "default_every_n: number of sequences")
            else:
                exp = collections.Counter({i: rep for i in (flt if flt is not None else range(n))})
                case.require(
                    total == exp,
                    f"full epoch {full + 1} must contain each sequence exactly {rep}x",
                    missing=sorted((exp - total).elements()), too_many=sorted((total - exp).elements()),
                )
            if flt is None:
                case.require(max(sizes) - min(sizes) <= rep, "sub-epoch / shard sizes differ by more than one", sizes=sizes)
            case.count("full_epochs")
    finally:
        for ds in shards:
            ds.finish_epoch()


def predefined(case):
    """explicit seq_order / seq_list is followed exactly"""
    rng = case.rng
    n = rng.randint(1, 25)
    kind = rng.choice(O.KINDS_DS)
    c = D.Corpus(rng, n, tags=rng.choice(["plain", "path"]))
    b = O.build(case, kind, c)
    b.opts["seq_ordering"] = O.gen_ordering(rng, n)
    ds = D.init_dataset(b.opts)
    use_list = rng.random() < 0.5 and kind not in ("textdict", "map")
    case.desc(ds=kind, n=n, use_list=use_list, ordering=b.opts["seq_ordering"])
    for _ in range(3):
        m = rng.randint(1, 2 * n)
        order = [rng.randrange(n) for _ in range(m)] if rng.random() < 0.4 else rng.sample(range(n), rng.randint(1, n))
        kw = {"seq_list": [b.tags[i] for i in order]} if use_list else {"seq_order": order}
        epoch = rng.choice([1, 2, 5])
        if rng.random() < 0.5:
            D.read_epoch(ds, epoch, max_seqs=rng.randint(1, n))
        got = D.read_epoch(ds, epoch, init_kw=kw)
        case.count("epochs_read")
        case.count("seqs_delivered", len(got))
        case.equal([O.check_delivery(case, b, s, "predefined") for s in got], order, "predefined order must be followed exactly")


def every_n(case):
    """default_every_n keeps N parallel streams: consecutive batches of N continue the N contiguous corpus segments"""
    rng = case.rng
    n, k = rng.randint(1, 40), rng.randint(1, 6)
    if n < k:
        n, k = k, n
    c = D.Corpus(rng, n)
    b = O.build(case, rng.choice(["static", "hdf", "map"]), c, seq_ordering="default_every_n:%i" % k)
    case.desc(n=n, k=k, ds=b.kind)
    ds = D.init_dataset(b.opts)
    ids = _read(case, b, ds, rng.randint(1, 5), "every_n")
    m = n // k
    case.equal(ids, [j * m + t for t in range(m) for j in range(k)], "default_every_n streams")


KINDS = {
    "partition": {"func": partition, "quick": 900, "thorough": 12000},
    "predefined": {"func": predefined, "quick": 150, "thorough": 1500},
    "every_n": {"func": every_n, "quick": 20, "thorough": 100},
}
