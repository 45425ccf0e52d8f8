"""C06: MultiProcDataset is indistinguishable from the wrapped dataset, and worker failures are never silent."""
import copy
import os
import pickle
import signal
from vlib import ds as D
from vlib import orders as O

RULE = (
    "case = corpus x wrapped dataset x sharding method x number of workers x buffer size x delays in the workers x random history "
    "of epochs (complete, aborted, predefined order, finish_epoch, pickling), every delivered sequence compared with the wrapped dataset "
    "read directly; or a fault injected into a worker. Non-trivial: at least one sequence delivered by a worker process."
)
ASSUMPTIONS = ["a hang is judged after 300 s without any progress"]
MIN_COUNTS = {"seqs_from_workers": 200, "epochs_compared": 30}
BUDGET = {"quick": 300, "thorough": 1500}
CASE_TIMEOUT = 300
HANG_IS_VIOLATION = True


def worker_init():
    D.quiet_log()


def _wrapped(case, dedicated):
    from vlib.mpfuncs import SlowMap

    rng = case.rng
    n = rng.choice([1, 2, 3, rng.randint(4, 12), rng.randint(12, 30)])
    kinds = ["hdf", "textdict", "oggzip", "lm"] if dedicated else ["hdf", "textdict", "oggzip", "lm", "slow", "slow"]
    kind = rng.choice(kinds)
    c = D.Corpus(rng, n, max_len=rng.choice([3, 12]), tags=rng.choice(["plain", "path", "unicode"]))
    kw = {}
    p = 1
    if rng.random() < 0.5:
        p = kw["partition_epoch"] = rng.randint(2, 3)
    so = O.gen_ordering(rng, n, allow_every_n=False)
    kw["seq_ordering"] = so
    if rng.random() < 0.3:
        kw["random_seed_offset"] = rng.randrange(1000)
    if kind == "slow":
        b = O.Built("map", c, {"class": "MapDatasetWrapper", "map_dataset": SlowMap(c, rng.randrange(1000), 0.01), **kw}, list(c.tags),
                    lambda i: {"data": c.data(i), "classes": c.classes(i)})
    else:
        b = O.build(case, kind, c, **kw)
    if dedicated and kind in ("hdf", "lm") and rng.random() < 0.35:  # number of sequences not known
        from vlib.mpfuncs import DropStream

        drop = DropStream(rng.choice([2, 3, 5]), 0)
        b.opts = {"class": "PostprocessingDataset", "dataset": b.opts, "map_seq_stream": drop}
        b.tags = [t for t in b.tags if drop.keeps(t)]
        kind += "+drop"
    case.desc(ds=kind, n=n, p=p, ordering=so)
    return b, n, p


def _mp_opts(case, b, dedicated):
    rng = case.rng
    o = {
        "class": "MultiProcDataset",
        "dataset": b.opts,
        "num_workers": rng.choice([1, 2, 2, 3, 4]),
        "buffer_size": rng.choice([1, 2, 5, 50]),
    }
    if dedicated:
        o["sharding_method"] = "dedicated"
    case.desc(workers=o["num_workers"], buf=o["buffer_size"], dedicated=dedicated)
    return o


def _same(case, got, exp, what):
    case.count("seqs_from_workers", len(got))
    case.count("epochs_compared")
    case.equal([t for t, _ in got], [t for t, _ in exp], f"{what}: other sequences or order than the wrapped dataset")
    for g, e in zip(got, exp):
        d = D.same_seq(g, e)
        case.require(d, f"{what}: seq {g[0]} differs from the wrapped dataset", got=g, exp=e)


def _meta(case, ds, ref):
    case.equal(sorted(ds.get_data_keys()), sorted(ref.get_data_keys()), "data keys")
    for k in ref.get_data_keys():
        case.equal(ds.get_data_dtype(k), ref.get_data_dtype(k), f"dtype of {k}")
        if isinstance(ref.num_outputs.get(k), (list, tuple)):
            case.equal(ds.is_data_sparse(k), ref.is_data_sparse(k), f"sparse of {k}")
    case.equal(dict(ds.num_outputs), dict(ref.num_outputs), "num_outputs")
    case.equal(ds.num_inputs, ref.num_inputs, "num_inputs")
    case.equal(ds.labels, ref.labels, "labels")
    case.count("meta_compared")


def _try(f):
    try:
        return f()
    except NotImplementedError:
        return NotImplementedError


def _close(ds):
    """end the worker processes"""
    import gc

    del ds
    gc.collect()


def seq_order(case):
    rng = case.rng
    b, n, p = _wrapped(case, False)
    ref = D.init_dataset(b.opts)
    ds = D.init_dataset(_mp_opts(case, b, False))
    _meta(case, ds, ref)
    steps = []
    for _ in range(rng.randint(4, 9)):
        e = rng.randint(1, 3 * p)
        r = rng.random()
        if r < 0.55:
            steps.append("epoch")
            got = D.read_epoch(ds, e, batch=rng.choice([1, 1, 3]))
            exp = D.read_epoch(ref, e)
            case.equal(ds.num_seqs, len(exp), f"num_seqs, steps {steps}")
            _same(case, got, exp, f"epoch {e} after {steps[:-1]}")
        elif r < 0.65:
            steps.append("abort")
            D.read_epoch(ds, e, max_seqs=rng.randint(0, 4))
        elif r < 0.8 and (b.kind not in ("map",) or rng.random() < 0.5):
            if rng.random() < 0.5 or b.kind in ("map", "textdict"):
                steps.append("seq_order")
                kw = {"seq_order": rng.sample(range(n), rng.randint(1, n))}
            else:
                steps.append("seq_list")
                kw = {"seq_list": [b.tags[i] for i in rng.sample(range(n), rng.randint(1, n))]}
            _same(case, D.read_epoch(ds, e, init_kw=kw), D.read_epoch(ref, e, init_kw=kw), f"epoch {e} predefined {kw} after {steps[:-1]}")
        elif r < 0.9:
            steps.append("finish")
            free = rng.random() < 0.5
            ds.finish_epoch(free_resources=free)
            if rng.random() < 0.4:
                steps[-1] += "+meta" + str(free)
                metas = ["get_total_num_seqs", "get_all_tags"]
                rng.shuffle(metas)
                for f in metas:
                    case.equal(_try(getattr(ds, f)), _try(getattr(ref, f)), f"{f} after {steps}")
        elif r < 0.93:
            steps.append("none")
            ds.init_seq_order(epoch=None)
            case.equal(ds.num_seqs, 0, "num_seqs for epoch None")
        else:
            steps.append("meta")
            case.equal(_try(ds.get_total_num_seqs), _try(ref.get_total_num_seqs), f"total num seqs after {steps}")
            case.equal(_try(ds.get_all_tags), _try(ref.get_all_tags), f"all tags after {steps}")
    e = rng.randint(1, 3 * p)
    _same(case, D.read_epoch(ds, e), D.read_epoch(ref, e), f"last epoch {e} after {steps}")
    case.desc(steps=steps)
    _close(ds)


def dedicated(case):
    rng = case.rng
    b, n, p = _wrapped(case, True)
    o = _mp_opts(case, b, True)
    w = o["num_workers"]
    ref = D.init_dataset(b.opts)
    ds = D.init_dataset(o)
    _meta(case, ds, ref)
    shards = [D.init_dataset({**b.opts, "_num_shards": w, "_shard_index": i}) for i in range(w)]
    if o["dataset"]["class"] == "PostprocessingDataset":
        for sh in shards:
            for e in range(1, 2 * p + 1):
                try:
                    D.read_epoch(sh, e)
                except AssertionError as exc:  # an epoch of unknown size without any sequence is refused by CachedDataset2
                    if "Not a single seq" in str(exc):
                        case.count("empty_shards")
                        _close(ds)
                        return case.trivial()
                    raise
    seen = {}
    steps = []
    for _ in range(rng.randint(3, 6)):
        e = rng.randint(1, 2 * p)
        r = rng.random()
        if r < 0.2:
            steps.append("abort")
            D.read_epoch(ds, e, max_seqs=rng.randint(0, 3))
            continue
        if r < 0.3:
            steps.append("finish")
            ds.finish_epoch(free_resources=rng.random() < 0.5)
            continue
        steps.append("epoch")
        got = D.read_epoch(ds, e)
        exp = [x for sh in shards for x in D.read_epoch(sh, e)]
        case.count("seqs_from_workers", len(got))
        case.count("epochs_compared")
        case.equal(ds.num_seqs, len(exp), "num_seqs (at the end of the epoch)")
        case.equal(sorted(t for t, _ in got), sorted(t for t, _ in exp), f"epoch {e} with {w} dedicated workers after {steps}: set of sequences")
        by = {t: d for t, d in exp}
        for t, d in got:
            case.require(D.same_seq((t, d), (t, by[t])), f"epoch {e}: content of seq {t}", got=d, exp=by[t])
        order = [t for t, _ in got]
        case.equal(order, seen.setdefault(e, order), f"epoch {e}: order not deterministic")
    case.desc(steps=steps)
    full = []
    for e in range(p + 1, 2 * p + 1):
        full += [t for t, _ in D.read_epoch(ds, e)]
    case.equal(sorted(full), sorted(b.tags), f"one full epoch ({p} parts, {w} dedicated workers) has to deliver every sequence exactly once")
    _close(ds)


def pickled(case):
    rng = case.rng
    b, n, p = _wrapped(case, False)
    ref = D.init_dataset(b.opts)
    ds = D.init_dataset(_mp_opts(case, b, False))
    if rng.random() < 0.5:
        e = rng.randint(1, p)
        _same(case, D.read_epoch(ds, e), D.read_epoch(ref, e), "before pickling")
    if rng.random() < 0.5:
        _try(ds.get_total_num_seqs)
        _try(ds.get_all_tags)
    ds2 = pickle.loads(pickle.dumps(ds)) if rng.random() < 0.6 else copy.deepcopy(ds)
    r = rng.random()
    if r < 0.3:
        case.equal(_try(ds2.get_total_num_seqs), _try(ref.get_total_num_seqs), "total num seqs of a pickled copy")
    elif r < 0.5:
        case.equal(_try(ds2.get_all_tags), _try(ref.get_all_tags), "all tags of a pickled copy")
    elif r < 0.6:
        ds2.finish_epoch()
    _meta(case, ds2, ref)
    for _ in range(2):
        e = rng.randint(1, 2 * p)
        exp = D.read_epoch(ref, e)
        _same(case, D.read_epoch(ds2, e), exp, "pickled copy")
        _same(case, D.read_epoch(ds, e), exp, "original")
    _close(ds)
    _close(ds2)


def fault(case):
    """a failing worker: the consumer gets an exception, never a shorter or different epoch"""
    from vlib.mpfuncs import SlowMap

    rng = case.rng
    n = rng.randint(3, 20)
    c = D.Corpus(rng, n, max_len=5)
    at = rng.randrange(n)
    kind = rng.choice(["raise", "exit", "kill", "oserror", "sigkill"])
    opts = {"class": "MapDatasetWrapper", "seq_ordering": rng.choice(["default", "random", "reverse"])}
    clean = D.init_dataset({**opts, "map_dataset": SlowMap(c)})
    e = rng.randint(1, 5)
    exp = D.read_epoch(clean, e)
    m = SlowMap(c, rng.randrange(1000), rng.choice([0.0, 0.01]), at if kind != "sigkill" else None, kind)
    nw = rng.choice([1, 2, 3])
    ds = D.init_dataset({"class": "MultiProcDataset", "dataset": {**opts, "map_dataset": m}, "num_workers": nw, "buffer_size": rng.choice([1, 3, 30])})
    case.desc(n=n, at=at, fault=kind, workers=nw)
    got = []
    exc = None
    victim = at  # position in the epoch at which we kill
    pids = None
    if kind == "sigkill":
        pids = _children()
    try:
        ds.init_seq_order(epoch=e)
        i = 0
        while ds.is_less_than_num_seqs(i):
            if kind == "sigkill" and i == victim and pids:
                for pid in pids:
                    os.kill(pid, signal.SIGKILL)
            ds.load_seqs(i, i + 1)
            got.append((ds.get_tag(i), {k: ds.get_data(i, k) for k in ds.get_data_keys()}))
            i += 1
    except Exception as e_:
        exc = e_
    case.count("faults_injected")
    case.count("seqs_from_workers", len(got))
    case.require(exc is not None, f"worker failure ({kind}) went unnoticed: the epoch ended normally with {len(got)} of {len(exp)} seqs")
    case.require(len(got) < len(exp), "all data delivered although a sequence cannot be loaded")
    for g, x in zip(got, exp):
        case.require(D.same_seq(g, x), "wrong data before the failure", got=g, exp=x)
    _close(ds)


def _children():
    """pids of the dataset workers (children of this process, spawned via multiprocessing)"""
    res = []
    me = os.getpid()
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open(f"/proc/{d}/stat") as f:
                    s = f.read()
                ppid = int(s[s.rindex(")") + 2 :].split()[1])
                with open(f"/proc/{d}/cmdline") as f:
                    cmd = f.read()
            except OSError:
                continue
            if ppid == me and "spawn_main" in cmd:
                res.append(int(d))
    return res


KINDS = {
    "seq_order": {"func": seq_order, "quick": 80, "thorough": 300},
    "dedicated": {"func": dedicated, "quick": 48, "thorough": 160},
    "pickled": {"func": pickled, "quick": 16, "thorough": 100},
    "fault": {"func": fault, "quick": 20, "thorough": 140},
}
