"""C17: losses, gradients and scores of the PyTorch engine are those of the individual sequences, independent of batching."""
import json
import math
import os
from vlib import eng
from vlib import ds as D

RULE = (
    "case = random data, random losses (frame-wise, sequence-wise, raw packed tensors, errors; scale, normalised, custom norm factor), gradient accumulation, "
    "clipping, learning rate function, batching; trained by the real engine; every update, the reported train and dev scores and the gradient norm are compared "
    "with an independent float64 model which processes every sequence on its own. Non-trivial: more than one sequence per batch occurred."
)
ASSUMPTIONS = ["numerical tolerance 1e-6 relative for float64 models, 2e-4 for float32 models"]
MIN_COUNTS = {"train_steps": 400, "scores": 400, "updates": 200, "multi_seq_batches": 50}
BUDGET = {"quick": 300, "thorough": 1500}
CASE_TIMEOUT = 300


def worker_init():
    eng.torch_init()


def _gen_losses(rng):
    ls = []
    for i in range(rng.randint(1, 3)):
        ls.append(dict(
            name="l%i" % i, kind=rng.choice(["frame", "frame", "seq", "raw", "target", "scalar"]), scale=rng.choice([1.0, 0.3, 0.0 if i else 0.7]),
            err=bool(i) and rng.random() < 0.3, norm=rng.random() < 0.4, cust=rng.choice([None, None, "lens", "tlens", "const"]), flat=rng.random() < 0.8,
        ))
        if ls[-1]["kind"] == "scalar":
            ls[-1]["cust"] = rng.choice(["lens", "const"])
    return ls


def accounting(case):
    import numpy
    import torch

    rng = case.rng
    tmp = case.tmpdir()
    n = rng.randint(4, 14)
    c = D.Corpus(rng, n, max_len=9, dim=3, num_labels=6)
    dev = D.Corpus(rng, rng.randint(1, 6), max_len=9, dim=3, num_labels=6)
    losses = _gen_losses(rng)
    use_rf = rng.random() < 0.5
    epochs = rng.choice([1, 2, 3, 4])
    dbl = rng.random() < 0.8
    lr = rng.choice([0.02, 0.005]) if dbl else 1e-5
    rtol, atol = (1e-6, 1e-8) if dbl else (2e-4, 1e-4)
    accum = rng.choice([1, 1, 2, 3, "func"])
    clip_norm = rng.choice([0.0, 0.0, 0.3])
    dyn = rng.random() < 0.4
    grad_norm = rng.random() < 0.3
    exp_loss = rng.random() < 0.3
    trace_fn = f"{tmp}/trace"

    def accum_func(*, epoch, global_train_step, **_kw):
        return 1 + (epoch + global_train_step) % 3

    class Model(torch.nn.Module):
        def __init__(self):
            super().__init__()
            g = torch.Generator().manual_seed(7)
            self.w = torch.nn.Parameter(torch.randn(3, 4, generator=g) * 0.5)
            self.e = torch.nn.Parameter(torch.randn(6, 4, generator=g) * 0.5)

    def frame_loss(m, x):  # x [...,T,3] -> [...,T]
        return (torch.tanh(x @ m.w) - 0.3).pow(2).sum(-1)

    def target_loss(m, y):  # [...,S] ints -> [...,S]
        return torch.sin(m.e[y]).pow(2).sum(-1) + 0.1

    def get_model(**_kw):
        return Model().double() if dbl else Model()

    def train_step(*, model, extern_data, **_kw):
        import returnn.frontend as rf

        ctx = rf.get_run_ctx()
        assert model.training == bool(ctx.train_flag), "model train mode does not match train_flag"
        data, classes = extern_data["data"], extern_data["classes"]
        b, t = data.dims[0], data.dims[1]
        s = classes.dims[1]
        lens, tlens = t.dyn_size_ext.raw_tensor.long(), s.dyn_size_ext.raw_tensor.long()
        with open(trace_fn, "a") as f:
            f.write(json.dumps([bool(ctx.train_flag), ctx.epoch, ctx.step, [str(x) for x in extern_data["seq_tag"].raw_tensor]]) + "\n")
        x = data.raw_tensor.to(model.w.dtype) / 512.0
        mask = torch.arange(x.shape[1])[None, :] < lens[:, None]
        tmask = torch.arange(classes.raw_tensor.shape[1])[None, :] < tlens[:, None]
        fl = frame_loss(model, x)
        tl = target_loss(model, classes.raw_tensor.long())
        # garbage in the padded part must not matter
        fl = torch.where(mask, fl, torch.full_like(fl, 1e4))
        tl = torch.where(tmask, tl, torch.full_like(tl, -1e4))
        for li, o in enumerate(losses):
            a = 1.0 + li
            kw = dict(scale=o["scale"], as_error=o["err"], use_normalized_loss=o["norm"], use_flatten_frames=o["flat"])
            if o["cust"] == "lens":
                kw["custom_inv_norm_factor"] = t.get_size_tensor()
            elif o["cust"] == "tlens":
                kw["custom_inv_norm_factor"] = rf.cast(s.get_size_tensor(), "float32")
            elif o["cust"] == "const":
                kw["custom_inv_norm_factor"] = rf.convert_to_tensor(2.5)
            k = o["kind"]
            if k == "frame":
                ctx.mark_as_loss(rf.convert_to_tensor(fl * a, dims=[b, t]) if use_rf else fl * a, o["name"], **({} if use_rf else {"dims": [b, t]}), **kw)
            elif k == "target":
                ctx.mark_as_loss(tl * a, o["name"], dims=[b, s], **kw)
            elif k == "seq":
                ctx.mark_as_loss(torch.where(mask, fl, torch.zeros_like(fl)).sum(-1) * a, o["name"], dims=[b], **kw)
            elif k == "raw":
                ctx.mark_as_loss(fl[mask] * a, o["name"], **kw)
            elif k == "scalar":
                v = fl[mask].sum() * a
                ctx.mark_as_loss(rf.convert_to_tensor(v, dims=[]), o["name"], **kw)

    cfg = dict(
        task="train", device="cpu", backend="torch", behavior_version=21, extern_data={"data": {"dim": 3}, "classes": {"dim": 6, "sparse": True}},
        model=f"{tmp}/net/ckpt", learning_rate_file=f"{tmp}/scores", num_epochs=epochs, learning_rate=lr, optimizer={"class": "sgd"},
        batch_size=rng.choice([9, 20, 60]), max_seqs=rng.choice([1, 2, 3, 10]), torch_dataloader_opts={"num_workers": 0},
        get_model=get_model, train_step=train_step,
    )
    if rng.random() < 0.3:
        cfg["batch_size"] = {"data": 25, "classes": 12}
    if accum != 1:
        cfg["accum_grad_multiple_step"] = accum_func if accum == "func" else accum
    if clip_norm:
        cfg["gradient_clip_global_norm"] = clip_norm
    if dyn:
        cfg["dynamic_learning_rate"] = lambda *, global_train_step, learning_rate, **_kw: learning_rate / (1.0 + 0.2 * global_train_step)
    if grad_norm:
        cfg["log_grad_norm"] = True
    if exp_loss:
        cfg["calculate_exp_loss"] = True
    order = rng.choice(["default", "random", "sorted", "laplace:2"])
    case.desc(n=n, losses=losses, rf=use_rf, epochs=epochs, accum=accum, clip=clip_norm, dyn=dyn, dbl=dbl, gn=grad_norm, exp=exp_loss, bs=str(cfg["batch_size"]), ms=cfg["max_seqs"], order=order)

    def data():
        from returnn.datasets.map import MapDatasetWrapper
        from vlib.mpfuncs import PMap

        tr = MapDatasetWrapper(map_dataset=PMap(c), name="train", seq_ordering=order)
        dv = MapDatasetWrapper(map_dataset=PMap(dev), name="dev")
        tr.initialize(), dv.initialize()
        return tr, {"dev_data": dv}

    st, res = eng.in_child(lambda: eng.run_engine(cfg, data))
    case.require(st == "ok", "training failed", status=st, res=res)
    scores = eng.read_lr_file(f"{tmp}/scores")
    trace = [json.loads(x) for x in open(trace_fn)]

    # --- independent model ---
    m = Model().double()

    def seq_values(corp, i):
        x = torch.tensor(corp.data(i).astype("float64")) / 512.0
        y = torch.tensor(corp.classes(i).astype("int64"))
        return frame_loss(m, x), target_loss(m, y)

    def batch_terms(corp, ids):
        """:return: per loss (sum, norm)"""
        vals = [seq_values(corp, i) for i in ids]
        out = []
        for li, o in enumerate(losses):
            a = 1.0 + li
            k = o["kind"]
            if k == "target":
                tot, cnt = sum(v[1].sum() for v in vals) * a, sum(len(v[1]) for v in vals)
            else:
                tot, cnt = sum(v[0].sum() for v in vals) * a, {"frame": sum(len(v[0]) for v in vals), "raw": sum(len(v[0]) for v in vals), "seq": len(ids), "scalar": 1}[k]
            if o["cust"] == "lens":
                cnt = sum(corp.lens[i] for i in ids)
            elif o["cust"] == "tlens":
                cnt = sum(corp.target_lens[i] for i in ids)
            elif o["cust"] == "const":
                cnt = 2.5
            out.append((tot, cnt, corp))
        return out

    def close(got, exp, msg, **kw):
        case.count("scores")
        case.require(math.isclose(got, exp, rel_tol=rtol, abs_tol=atol), msg, got=got, expected=exp, **kw)

    step = 0
    pos = 0
    for ep in range(1, epochs + 1):
        seen = []
        acc = [[0.0, 0.0] for _ in losses]
        norms = []
        m.zero_grad()
        count = 0
        while pos < len(trace) and trace[pos][0] and trace[pos][1] == ep:
            _, _, got_step, tags = trace[pos]
            pos += 1
            case.count("train_steps")
            case.equal(got_step, step, f"step number in epoch {ep}")
            ids = [c.tags.index(t) for t in tags]
            if len(ids) > 1:
                case.count("multi_seq_batches")
            seen += ids
            terms = batch_terms(c, ids)
            total = 0.0
            for j, (o, (tot, cnt, _)) in enumerate(zip(losses, terms)):
                acc[j][0] += float(tot.detach())
                acc[j][1] += cnt
                if o["err"] or o["scale"] == 0.0:
                    continue
                red = tot
                if o["norm"]:
                    red = tot / cnt
                total = total + red * o["scale"]
            total.backward()
            count += 1
            need = accum_func(epoch=ep, global_train_step=step) if accum == "func" else accum
            if count >= need:
                gs = [p.grad for p in m.parameters() if p.grad is not None]
                gn = math.sqrt(sum(float((g**2).sum()) for g in gs))
                norms.append(gn)
                f = clip_norm / (gn + 1e-6) if clip_norm and gn > clip_norm else 1.0
                eff = lr / (1.0 + 0.2 * step) if dyn else lr
                with torch.no_grad():
                    for p in m.parameters():
                        if p.grad is not None:
                            p -= eff * f * p.grad
                m.zero_grad()
                count = 0
                case.count("updates")
            step += 1
        case.equal(sorted(seen), list(range(n)), f"sequences trained in epoch {ep}")
        err = scores[ep][1]
        exp_keys = set()
        for j, o in enumerate(losses):
            key = f"train_loss_{o['name']}"
            case.require(key in err, f"score {key} missing", got=sorted(err))
            close(err[key], acc[j][0] / acc[j][1], f"epoch {ep}: {key} is the average over all {n} sequences", loss=o)
            if exp_loss and not o["err"]:
                if acc[j][0] / acc[j][1] < 20:
                    close(err[key + ":exp"], math.exp(acc[j][0] / acc[j][1]), f"epoch {ep}: {key}:exp")
                exp_keys |= {key + ":exp", f"dev_loss_{o['name']}:exp"}
            exp_keys |= {key, f"dev_loss_{o['name']}"}
        if grad_norm:
            gkeys = [k for k in err if k.startswith("train_loss_grad_norm")]
            if norms:
                case.require(len(gkeys) >= 1, "gradient norm not reported", got=sorted(err))
                g = [k for k in gkeys if not k.endswith(":exp")][0]
                close(err[g], sum(norms) / len(norms), f"epoch {ep}: {g} is the mean over the updates")
            exp_keys |= set(gkeys)
        # dev
        seen = []
        acc = [[0.0, 0.0] for _ in losses]
        while pos < len(trace) and not trace[pos][0] and trace[pos][1] == ep:
            ids = [dev.tags.index(t) for t in trace[pos][3]]
            pos += 1
            seen += ids
            for j, (tot, cnt, _) in enumerate(batch_terms(dev, ids)):
                acc[j][0] += float(tot.detach())
                acc[j][1] += cnt
        case.equal(sorted(seen), list(range(dev.n)), f"sequences evaluated in epoch {ep}")
        for j, o in enumerate(losses):
            close(err[f"dev_loss_{o['name']}"], acc[j][0] / acc[j][1], f"epoch {ep}: dev score {o['name']} is the average over all {dev.n} sequences", loss=o)
        case.equal(set(err), exp_keys, f"epoch {ep}: reported scores")
    case.equal(pos, len(trace), "number of steps")
    case.equal(res["step"], step, "global train step")
    for name, p in m.named_parameters():
        got = res["params"][name]
        e = p.detach().numpy()
        case.require(numpy.allclose(got, e, rtol=rtol * 10, atol=atol * 10), f"parameter {name} after training", got=got.ravel()[:4].tolist(), expected=e.ravel()[:4].tolist())


def nonfinite(case):
    """a nan/inf train score must stop the training before anything of that epoch is saved"""
    import torch

    rng = case.rng
    tmp = case.tmpdir()
    c = D.Corpus(rng, 6, max_len=6, dim=3, num_labels=6)
    bad_epoch = rng.choice([1, 2, 3])
    bad_tag = rng.choice(c.tags)
    val = rng.choice([float("nan"), float("inf"), -float("inf")])
    as_err = rng.random() < 0.2
    case.desc(bad_epoch=bad_epoch, val=str(val), as_err=as_err)

    class Model(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.w = torch.nn.Parameter(torch.ones(3))

    def train_step(*, model, extern_data, **_kw):
        import returnn.frontend as rf

        ctx = rf.get_run_ctx()
        x = extern_data["data"].raw_tensor / 512.0
        v = (x * model.w).mean(-1).mean(-1)
        bad = ctx.train_flag and ctx.epoch == bad_epoch and bad_tag in [str(t) for t in extern_data["seq_tag"].raw_tensor]
        ctx.mark_as_loss(v * (val if bad and not as_err else 1.0), "a", dims=[extern_data["data"].dims[0]])
        if as_err:
            ctx.mark_as_loss(v.detach() * (val if bad else 1.0), "e", dims=[extern_data["data"].dims[0]], as_error=True)

    cfg = dict(
        task="train", device="cpu", backend="torch", behavior_version=21, extern_data={"data": {"dim": 3}}, model=f"{tmp}/net/ckpt",
        learning_rate_file=f"{tmp}/scores", num_epochs=4, learning_rate=0.01, optimizer={"class": "sgd"}, batch_size=12, max_seqs=2,
        torch_dataloader_opts={"num_workers": 0}, get_model=lambda **_kw: Model(), train_step=train_step,
    )

    def data():
        from returnn.datasets.map import MapDatasetWrapper
        from vlib.mpfuncs import PMap

        tr = MapDatasetWrapper(map_dataset=PMap(c), name="train")
        tr.initialize()
        return tr, {}

    st, res = eng.in_child(lambda: eng.run_engine(cfg, data))
    case.require(st == "exc", "training continued with a non-finite train score", status=st)
    files = sorted(os.listdir(f"{tmp}/net")) if os.path.isdir(f"{tmp}/net") else []
    bad = [f for f in files if int(f.split(".")[1]) >= bad_epoch]
    case.equal(bad, [], f"checkpoints of the broken epoch {bad_epoch}")
    case.equal([f for f in files if f.endswith(".pt") and ".opt" not in f], ["ckpt.%03d.pt" % e for e in range(1, bad_epoch)], "checkpoints of the epochs before")
    case.count("nonfinite_stops")


KINDS = {
    "accounting": {"func": accounting, "quick": 120, "thorough": 3000},
    "nonfinite": {"func": nonfinite, "quick": 12, "thorough": 120},
}
