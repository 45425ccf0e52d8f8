"""C34: distributed training (torch_distributed): all ranks train one model."""
import os
import pickle
import signal
import socket
import sys
import time
import traceback

from vlib import eng
from vlib import ds as D

RULE = (
    "case = 2..3 engine processes (gloo, loopback) with different data per rank (different number of batches), random optimizer, gradient accumulation, clipping, "
    "reduce_type grad or param (sync interval, on CPU or not), learning rate schedule, dev data, partly a restart from the checkpoint; every rank records each train batch and the "
    "parameters before each step; compared with an independent plain-torch simulation of synchronous training on the recorded batches. Distinct by case description."
)
ASSUMPTIONS = [
    "gloo backend on CPU: the CUDA-only assertion of the engine is lifted by the hook RETURNN_VERIF_DIST_CPU, the DDP class is given by config (without device_ids)",
    "deterministic float64 models; a deadlock is decided by no CPU progress of any rank, not by wall-clock alone",
]
MIN_COUNTS = {"train_steps": 100, "ranks": 20, "params_compared": 200, "uneven_epochs": 5}
BUDGET = {"quick": 420, "thorough": 1800}
CASE_TIMEOUT = 400
JOBS = 3


def worker_init():
    os.environ["RETURNN_VERIF_DIST_CPU"] = "1"
    eng.torch_init()
    import torch.distributed  # noqa
    import torch.nn.parallel  # noqa
    import returnn.torch.distributed  # noqa


def _cpu(pid):
    """CPU ticks of the process and its children"""
    tot = 0
    try:
        pgid = pid
        for p in os.listdir("/proc"):
            if p.isdigit():
                try:
                    with open("/proc/%s/stat" % p) as f:
                        parts = f.read().rsplit(")", 1)[1].split()
                except OSError:
                    continue
                if int(parts[2]) == pgid:
                    tot += int(parts[11]) + int(parts[12])
    except OSError:
        pass
    return tot


def run_ranks(funcs, tmp, *, hang=60):
    """:return: list of (status, result); ("hang", None) if nothing progresses any more"""
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        port = s.getsockname()[1]
    pids = []
    n = len(funcs)
    for r, func in enumerate(funcs):
        res_fn = "%s/res.%i" % (tmp, r)
        if os.path.exists(res_fn):
            os.remove(res_fn)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.setpgid(0, 0)
                os.environ.update(RANK=str(r), WORLD_SIZE=str(n), LOCAL_RANK=str(r), LOCAL_WORLD_SIZE=str(n), MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port))
                try:
                    res = ("ok", func())
                except BaseException:
                    res = ("exc", traceback.format_exc()[-3000:])
                with open(res_fn + ".tmp", "wb") as f:
                    f.write(pickle.dumps(res))
                os.rename(res_fn + ".tmp", res_fn)
                rc = 0
            finally:
                os._exit(rc)
        pids.append(pid)
    out = [None] * n
    last, last_t = None, time.time()
    start = time.time()
    failed_t = None
    while any(o is None for o in out):
        for r, pid in enumerate(pids):
            if out[r] is None:
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    fn = "%s/res.%i" % (tmp, r)
                    if os.path.exists(fn):
                        with open(fn, "rb") as f:
                            out[r] = pickle.loads(f.read())
                    else:
                        out[r] = ("died", os.waitstatus_to_exitcode(st))
                    if out[r][0] != "ok" and failed_t is None:
                        failed_t = time.time()
        time.sleep(0.02)
        cur = tuple(_cpu(p) for p in pids)
        if last is None or any(a > b + 2 for a, b in zip(cur, last)):
            last, last_t = cur, time.time()
        if time.time() - last_t > hang or (failed_t and time.time() - failed_t > 15):
            for r, pid in enumerate(pids):
                if out[r] is None:
                    os.killpg(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    out[r] = ("hang" if not failed_t else "killed", None)
        elif time.time() - start > 300:
            from vlib.core import Inconclusive

            for r, pid in enumerate(pids):
                if out[r] is None:
                    os.killpg(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
            raise Inconclusive("ranks still busy after 300 s")
    for pid in pids:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    return out


class CpuDDP:
    """DDP without device_ids"""

    def __new__(cls, module, device_ids=None, **kwargs):
        from torch.nn.parallel import DistributedDataParallel

        return DistributedDataParallel(module=module, **kwargs)


def _model(dim, hid):
    import torch

    class Model(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.lin1 = torch.nn.Linear(dim, hid, dtype=torch.float64)
            self.lin2 = torch.nn.Linear(hid, 2, dtype=torch.float64)
            self.scale = torch.nn.Parameter(torch.rand(hid, dtype=torch.float64))

        def forward(self, x):
            return self.lin2(torch.tanh(self.lin1(x)) * self.scale)

    return Model()


def _loss(model, x, lens, kind):
    import torch

    y = model(x.to(torch.float64) / 2048.0)
    mask = (torch.arange(x.shape[1])[None, :] < lens[:, None]).to(torch.float64)
    tgt = torch.tensor([0.5, -0.25], dtype=torch.float64)
    err = ((y - tgt) ** 2).sum(-1) * mask
    if kind == "sum":
        return err.sum() * 0.1
    return err.sum() / mask.sum()


def _opt(torch, params, spec, lr):
    k = spec["class"]
    if k == "sgd":
        return torch.optim.SGD(params, lr=lr, momentum=spec.get("momentum", 0))
    if k == "adam":
        return torch.optim.Adam(params, lr=lr, eps=spec["eps"])
    raise KeyError(k)


def k_train(case):
    import numpy
    import torch

    rng = case.rng
    tmp = case.tmpdir()
    size = rng.choice([2, 2, 3])
    epochs = rng.choice([2, 3])
    hid = rng.choice([3, 5])
    reduce_type = rng.choice(["grad", "grad", "param"])
    accum = rng.choice([1, 1, 2, 3])
    accum_dyn = accum > 1 and rng.random() < 0.3
    opt = rng.choice([{"class": "sgd"}, {"class": "sgd", "momentum": 0.9}, {"class": "adam", "eps": 1e-3}])
    clip = rng.choice([None, None, 0.05])
    loss_kind = rng.choice(["sum", "mean"])
    sync = rng.choice([1, 2, 3, 5])
    on_cpu = rng.random() < 0.4
    # every combination of reduction and number of ranks, also in few cases
    size, reduce_type, on_cpu = [
        (size, reduce_type, on_cpu), (3, "param", True), (3, "grad", False), (2, "grad", False), (3, "param", False), (2, "param", True),
    ][case.index % 6]
    same_n = rng.random() < 0.25
    n0 = rng.randint(3, 14)
    ns = [n0 if same_n else rng.randint(2, 14) for _ in range(size)]
    corpora = [D.Corpus(rng, n, max_len=8, dim=3, num_labels=4) for n in ns]
    many_dev = rng.random() < 0.15
    dev = D.Corpus(rng, 130 if many_dev else rng.randint(2, 5), max_len=3, dim=3, num_labels=4) if rng.random() < 0.6 else None
    max_seqs = rng.choice([1, 2, 3])
    restart = rng.random() < 0.35
    ordering = rng.choice(["default", "random", "sorted"])
    case.desc(size=size, epochs=epochs, hid=hid, reduce=reduce_type, accum=accum, dyn=accum_dyn, opt=opt, clip=clip, loss=loss_kind, sync=sync if reduce_type == "param" else None,
              on_cpu=on_cpu, ns=ns, dev=dev.n if dev else 0, max_seqs=max_seqs, restart=restart, ordering=ordering)
    dist = {"backend": "gloo"}
    if reduce_type == "grad":
        dist["class"] = CpuDDP
        if rng.random() < 0.5:
            dist["reduce_type"] = "grad"
        if rng.random() < 0.3:
            dist["options"] = {"broadcast_buffers": False}
    else:
        dist.update(reduce_type="param", param_sync_step=sync)
        if on_cpu:
            dist["sync_on_cpu"] = True
    cfg = {
        "backend": "torch", "device": "cpu", "batch_size": 10000, "max_seqs": max_seqs, "optimizer": dict(opt), "learning_rate": 0.1,
        "log_verbosity": 0, "num_epochs": epochs, "save_interval": 1, "torch_dataloader_opts": {"num_workers": 0},
        "extern_data": {"data": {"dim": 3}, "classes": {"dim": 4, "sparse": True}}, "torch_distributed": dist,
        "model": f"{tmp}/run/net/epoch", "learning_rate_file": f"{tmp}/run/lr/scores",
        "random_seed": rng.randint(1, 99),
    }
    if accum > 1:
        cfg["accum_grad_multiple_step"] = (lambda *, epoch, global_train_step, **_kw: accum) if accum_dyn else accum
    if clip:
        cfg["gradient_clip_global_norm"] = clip
    lr_kind = rng.choice(["list", "newbob", "const"])
    if lr_kind == "list":
        cfg["learning_rates"] = [0.1, 0.05, 0.02]
    elif lr_kind == "newbob" and dev:
        cfg.update(learning_rate_control="newbob_multi_epoch", learning_rate_control_relative_error_relative_lr=True, newbob_multi_num_epochs=1, newbob_learning_rate_decay=0.5, newbob_relative_error_threshold=0.5)
    os.makedirs(f"{tmp}/run")

    def rank_func(rank, num_epochs):
        def func():
            import torch
            import returnn.frontend as rf
            from returnn.tensor import Tensor
            from returnn.config import Config, global_config_ctx
            from returnn.torch.engine import Engine
            from returnn.datasets.map import MapDatasetWrapper
            from vlib.mpfuncs import PMap

            rec = []

            def train_step(*, model, extern_data, **_kw):
                ctx = rf.get_run_ctx()
                data = extern_data["data"].copy_as_batch_major()
                x = data.raw_tensor
                lens = extern_data["data"].get_time_dim_tag().get_size_tensor().raw_tensor
                if ctx.train_flag:
                    rec.append((ctx.epoch, x.numpy().copy(), lens.numpy().copy(), {k: v.detach().numpy().copy() for k, v in model.state_dict().items()}))
                loss = _loss(model, x, lens, loss_kind)
                ctx.mark_as_loss(Tensor("l", dims=(), dtype="float64", raw_tensor=loss), name="l")

            c = dict(cfg, num_epochs=num_epochs, get_model=lambda **_kw: _model(3, hid), train_step=train_step)
            config = Config(c)
            hook = eng.Hook(f"{tmp}/run")
            with global_config_ctx(config):
                engine = Engine(config=config)

                def mk(corpus, name, **kw):
                    d = MapDatasetWrapper(map_dataset=PMap(corpus), name=name, **kw)
                    d.initialize()
                    return d

                train = mk(corpora[rank], "train", seq_ordering=ordering)
                devs = {"dev_data": mk(dev, "dev")} if dev else {}
                sys.addaudithook(hook)
                engine.init_train_from_config(train_data=train, **devs)
                engine.train()
                ed = engine.learning_rate_control.epoch_data
                return {
                    "rec": rec,
                    "final": {k: v.detach().numpy().copy() for k, v in engine.get_pt_model().state_dict().items()},
                    "lr": {e: ed[e].learning_rate for e in ed},
                    "error": {e: dict(ed[e].error) for e in ed},
                    "step": engine.global_train_step,
                    "writes": list(hook.log),
                    "ctx": (rank,),
                }

        return func

    def run(num_epochs):
        for attempt in range(3):
            res = run_ranks([rank_func(r, num_epochs) for r in range(size)], tmp)
            if any(s == "exc" and ("EADDRINUSE" in str(v) or "address already in use" in str(v).lower()) for s, v in res):
                continue
            break
        for r, (st, v) in enumerate(res):
            case.require(st != "hang", "distributed training hangs (no rank progresses)", status=[s for s, _ in res])
        for r, (st, v) in enumerate(res):
            if st in ("exc", "died"):
                case.require(False, "distributed training failed on rank %i" % r, err=v)
        case.require(all(s == "ok" for s, _ in res), "not all ranks finished", status=[s for s, _ in res])
        case.count("ranks", size)
        return [v for _, v in res]

    parts = []
    if restart:
        parts.append(run(1))
    parts.append(run(epochs))
    start_params = None
    opts = None
    for pi, res in enumerate(parts):
        first = parts[pi][0]["rec"][0][0] if parts[pi][0]["rec"] else None
        for r in range(1, size):
            case.equal(res[r]["writes"], [], "rank %i writes into the model directory" % r)
        case.require(res[0]["writes"], "rank 0 does not write")
        init = res[0]["rec"][0][3]
        for r in range(size):
            d = eng.diff(init, res[r]["rec"][0][3])
            case.require(d is None, "ranks start with different parameters", rank=r, diff=d)
        if pi == 1 and start_params is not None:
            d = eng.diff(start_params, init)
            case.require(d is None, "parameters after the restart are not the ones of rank 0 at the end of the epoch", diff=d)
        models = [_model(3, hid) for _ in range(size)]
        for m in models:
            m.load_state_dict({k: torch.tensor(v) for k, v in init.items()})
        pos = [0] * size
        todo = sorted({e for e, *_ in res[0]["rec"]})
        case.equal(todo, list(range(1, 2)) if restart and pi == 0 else list(range(2 if restart else 1, epochs + 1)), "epochs trained")
        new_opts = []
        for r in range(size):
            o = _opt(torch, models[r].parameters(), opt, 0.1)
            if pi == 1 and opts is not None:
                # the optimizer state in the checkpoint is the one of rank 0
                import copy

                o.load_state_dict(copy.deepcopy(opts[0].state_dict()))
            new_opts.append(o)
        opts = new_opts
        for e in todo:
            lr = res[0]["lr"][e]
            for r in range(size):
                case.equal(res[r]["lr"][e], lr, "learning rate of rank %i in epoch %i" % (r, e))
            counts = [sum(1 for x in res[r]["rec"] if x[0] == e) for r in range(size)]
            want = min((ns[r] + max_seqs - 1) // max_seqs for r in range(size))
            case.equal(counts, [want] * size, "number of train steps per rank (all stop with the shortest)")
            if len(set((n + max_seqs - 1) // max_seqs for n in ns)) > 1:
                case.count("uneven_epochs")
            for o in opts:
                for g in o.param_groups:
                    g["lr"] = lr
                o.zero_grad()
            k = 0
            for i in range(want):
                grads = []
                for r in range(size):
                    _, x, lens, params = res[r]["rec"][pos[r]]
                    pos[r] += 1
                    for name, v in models[r].state_dict().items():
                        case.require(numpy.allclose(v.numpy(), params[name], rtol=1e-9, atol=1e-11), "parameters of rank %i before step %i of epoch %i" % (r, i, e), name=name,
                                     max_diff=float(numpy.abs(v.numpy() - params[name]).max()))
                        case.count("params_compared")
                    _loss(models[r], torch.tensor(x), torch.tensor(lens), loss_kind).backward()
                case.count("train_steps")
                k += 1
                if k >= accum:
                    if reduce_type == "grad":
                        for ps in zip(*[m.parameters() for m in models]):
                            g = sum(p.grad for p in ps) / size
                            for p in ps:
                                p.grad = g.clone()
                    for r in range(size):
                        if clip:
                            torch.nn.utils.clip_grad_norm_(models[r].parameters(), clip)
                        opts[r].step()
                        opts[r].zero_grad()
                    k = 0
                if reduce_type == "param" and i % sync == sync - 1:
                    with torch.no_grad():
                        for ps in zip(*[m.parameters() for m in models]):
                            g = sum(p for p in ps) / size
                            for p in ps:
                                p.copy_(g)
                    case.count("param_syncs")
        for r in range(size):
            for name, v in models[r].state_dict().items():
                case.require(numpy.allclose(v.numpy(), res[r]["final"][name], rtol=1e-9, atol=1e-11), "final parameters of rank %i" % r, name=name)
            d = eng.diff(res[0]["error"], res[r]["error"])
            if reduce_type == "grad" or True:
                case.require(d is None, "scores known to the ranks differ", diff=d)
            case.equal(res[r]["step"], res[0]["step"], "global train step of the ranks")
        start_params = res[0]["final"]
        # dev scores are of rank 0
        if dev:
            for e in todo:
                case.require(any(kk.startswith("dev_") for kk in res[0]["error"][e]), "no dev score", got=sorted(res[0]["error"][e]))


KINDS = {"train": {"func": k_train, "quick": 24, "thorough": 400}}
