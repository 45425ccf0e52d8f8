"""C18: forwarding hands every sequence exactly once to the callback, with its own unpadded outputs."""
import collections
from vlib import eng
from vlib import ds as D

RULE = (
    "case = random corpus, ordering, batching, data loader workers, random set of outputs (dims order, batch not first, other time dims, derived dims, scalars, "
    "sparse, static dims, raw tensors), optional simulated out-of-memory in large batches; the callback's log is compared with outputs computed from each single "
    "sequence. Non-trivial: some batch had padding."
)
ASSUMPTIONS = ["min/max_seq_length unset, as the engine demands"]
MIN_COUNTS = {"seqs": 1500, "outputs": 4000, "oom_splits": 20, "workers": 1}
BUDGET = {"quick": 300, "thorough": 1500}
CASE_TIMEOUT = 300


def worker_init():
    eng.torch_init()


def _expected(kind, x, y):
    import numpy

    if kind in ("btf", "raw", "tbf", "bft"):
        v = x * 2
        return v.T if kind == "bft" else v
    if kind == "bt":
        return x.sum(-1)
    if kind == "bf":
        return x.sum(0)
    if kind == "b":
        return numpy.asarray(x[-1, 0])
    if kind == "down":
        return x[::2]
    if kind == "sparse":
        return y
    if kind == "outer":
        return x[:, None, 0] * y[None, :]
    if kind == "pad":
        return numpy.concatenate([numpy.zeros_like(x[:1]), x], axis=0)
    if kind == "len":
        return numpy.asarray(len(x))
    raise ValueError(kind)


def _mark(rf, ctx, kind, name, data, classes):
    import torch
    from returnn.tensor import Tensor, Dim

    b, t, f = data.dims
    s = classes.dims[1]
    x = data.raw_tensor
    if kind == "btf":
        ctx.mark_as_output(data * 2.0, name)
    elif kind == "raw":
        ctx.mark_as_output(x * 2.0, name, dims=[b, t, f])
    elif kind == "tbf":
        ctx.mark_as_output(rf.convert_to_tensor((x * 2.0).transpose(0, 1), dims=[t, b, f]), name, dims=[t, b, f])
    elif kind == "bft":
        ctx.mark_as_output(rf.convert_to_tensor((x * 2.0).permute(2, 0, 1), dims=[f, b, t]), name, dims=[f, b, t])
    elif kind == "bt":
        ctx.mark_as_output(rf.reduce_sum(data, axis=f), name)
    elif kind == "bf":
        ctx.mark_as_output(rf.reduce_sum(data, axis=t), name)
    elif kind == "b":
        last = rf.gather(data, axis=t, indices=t.get_size_tensor() - 1)
        ctx.mark_as_output(rf.gather(last, axis=f, indices=0), name)
    elif kind == "down":
        y, td = rf.slice(data, axis=t, step=2) if False else (None, None)
        td = (t + 1) // 2
        ctx.mark_as_output(rf.convert_to_tensor(x[:, ::2], dims=[b, td, f]), name, dims=[b, td, f])
    elif kind == "sparse":
        ctx.mark_as_output(classes, name)
    elif kind == "outer":
        v = rf.gather(data, axis=f, indices=0) * rf.cast(classes, "float32")
        ctx.mark_as_output(v.copy_transpose([b, t, s]), name, dims=[b, t, s])
    elif kind == "pad":
        y, (td,) = rf.pad(data, axes=[t], padding=[(1, 0)], value=0.0)
        ctx.mark_as_output(y, name, dims=[b, td, f])
    elif kind == "len":
        ctx.mark_as_output(rf.copy_to_device(t.get_size_tensor()), name)
    else:
        raise ValueError(kind)


def forward(case):
    import numpy

    rng = case.rng
    n = rng.randint(3, 30)
    c = D.Corpus(rng, n, max_len=rng.choice([6, 15]), dim=3, num_labels=6, tags=rng.choice(["plain", "path", "unicode"]))
    kinds = rng.sample(["btf", "raw", "tbf", "bft", "bt", "bf", "b", "down", "sparse", "outer", "pad", "len"], rng.randint(1, 6))
    oom = rng.random() < 0.3
    oom_max = rng.choice([1, 2])
    workers = rng.random() < 0.05
    init_epoch = rng.random() < 0.8
    cfg = dict(
        task="forward", device="cpu", backend="torch", behavior_version=21, extern_data={"data": {"dim": 3}, "classes": {"dim": 6, "sparse": True}},
        batch_size=rng.choice([15, 40, 200]), max_seqs=rng.choice([1, 2, 5, 20]),
    )
    if not workers:
        cfg["torch_dataloader_opts"] = {"num_workers": 0}
    if oom:
        cfg["forward_auto_split_batch_on_oom"] = True
    if rng.random() < 0.3:
        cfg["sort_dataset"] = False
    order = {"seq_ordering": rng.choice(["default", "random", "sorted", "laplace:2", "sorted_reverse", "reverse"])}
    case.desc(n=n, kinds=kinds, oom=oom and oom_max, workers=workers, order=order, init=init_epoch, bs=cfg["batch_size"], ms=cfg["max_seqs"], sort=cfg.get("sort_dataset"))
    repeat = rng.choice([1, 1, 2])

    def run():
        import torch
        import returnn.frontend as rf
        from returnn.config import Config, global_config_ctx
        from returnn.torch.engine import Engine
        from returnn.forward_iface import ForwardCallbackIface
        from returnn.datasets.map import MapDatasetWrapper
        from vlib.mpfuncs import PMap

        stats = {"oom": 0, "pad": 0}

        def forward_step(*, extern_data, **_kw):
            data, classes = extern_data["data"], extern_data["classes"]
            if oom and data.raw_tensor.shape[0] > oom_max:
                stats["oom"] += 1
                raise torch.cuda.OutOfMemoryError("simulated")
            lens = data.dims[1].dyn_size_ext.raw_tensor
            stats["pad"] += bool((lens < data.raw_tensor.shape[1]).any())
            # what is in the padded part must not matter
            m = torch.arange(data.raw_tensor.shape[1])[None, :] < lens[:, None]
            data.raw_tensor = torch.where(m[:, :, None], data.raw_tensor, torch.full_like(data.raw_tensor, -777.0))
            for k in kinds:
                _mark(rf, rf.get_run_ctx(), k, "out_" + k, data, classes)

        events = []

        class Cb(ForwardCallbackIface):
            def init(self, *, model):
                events.append(("init",))

            def process_seq(self, *, seq_tag, outputs):
                events.append(("seq", str(seq_tag), {
                    k: (numpy.array(v.raw_tensor), [int(d.get_dim_value()) for d in v.dims], v.dtype) for k, v in outputs.data.items()
                }))

            def finish(self):
                events.append(("finish",))

        config = Config(dict(cfg, get_model=lambda **_kw: torch.nn.Module(), forward_step=forward_step))
        ds = MapDatasetWrapper(map_dataset=PMap(c), name="fwd", **order)
        ds.initialize()
        with global_config_ctx(config):
            engine = Engine(config=config)
            engine.init_network_from_config()
            for _ in range(repeat):
                exp_order = None
                if not init_epoch:
                    ds.init_seq_order(epoch=3)
                    exp_order = [str(c.tags[i]) for i in ds.get_current_seq_order()]
                engine.forward_with_callback(dataset=ds, callback=Cb(), dataset_init_epoch=init_epoch)
        return events, stats, exp_order

    st, res = eng.in_child(run)
    case.require(st == "ok", "forward failed", status=st, res=res)
    events, stats, exp_order = res
    case.count("padded_batches", stats["pad"])
    case.count("oom_splits", stats["oom"])
    case.count("workers", int(workers))
    if not stats["pad"]:
        case.trivial()
    names = [e[0] for e in events]
    case.equal(names, (["init"] + ["seq"] * n + ["finish"]) * repeat, "callback protocol: init, each sequence, finish")
    for r in range(repeat):
        seqs = [e for e in events[r * (n + 2) : (r + 1) * (n + 2)] if e[0] == "seq"]
        case.equal(collections.Counter(e[1] for e in seqs), collections.Counter(c.tags), "every sequence exactly once")
        if exp_order and not oom:
            case.equal([e[1] for e in seqs], exp_order, "order of the sequences")
        for _, tag, outs in seqs:
            case.count("seqs")
            i = c.tags.index(tag)
            case.equal(set(outs), {"out_" + k for k in kinds}, f"{tag}: outputs")
            for k in kinds:
                got, dims, _dt = outs["out_" + k]
                exp = _expected(k, c.data(i), c.classes(i))
                case.count("outputs")
                case.require(tuple(got.shape) == tuple(exp.shape), f"{tag}: shape of output {k}", got=got.shape, expected=exp.shape)
                case.equal(dims, list(exp.shape), f"{tag}: dims of output {k}")
                case.require(numpy.allclose(got, exp, rtol=1e-5), f"{tag}: output {k} is not that of the sequence", got=got.ravel()[:6], expected=exp.ravel()[:6])


KINDS = {"forward": {"func": forward, "quick": 140, "thorough": 4000}}
