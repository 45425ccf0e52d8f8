"""Random models / configs for the PyTorch engine."""

from __future__ import annotations


def gen_model(rng, dim, num_classes, stochastic=True):
    """:return: (get_model, train_step, desc)"""
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Dim

    kind = rng.choice(["torch", "torch", "rf"])
    hid = rng.choice([4, 7])
    drop = rng.choice([0.0, 0.3])
    if not stochastic:
        drop = 0.0
    bn = rng.random() < 0.3
    ln = rng.random() < 0.4
    noise = stochastic and rng.random() < 0.3
    two_losses = rng.random() < 0.4
    scale = rng.choice([1.0, 0.5])
    norm_mode = rng.choice(["none", "frames", "const"])
    desc = dict(kind=kind, hid=hid, drop=drop, bn=bn, ln=ln, noise=noise, two_losses=two_losses, norm=norm_mode)

    class Model(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.emb = torch.nn.Embedding(num_classes, hid)
            self.lin1 = torch.nn.Linear(dim, hid)
            self.ln = torch.nn.LayerNorm(hid) if ln else None
            self.bn = torch.nn.BatchNorm1d(hid) if bn else None
            self.lin2 = torch.nn.Linear(hid, num_classes)

        def forward(self, x):
            y = self.lin1(x)
            if self.bn is not None and y.shape[0] * y.shape[1] > 1:
                y = self.bn(y.transpose(1, 2)).transpose(1, 2)
            if self.ln is not None:
                y = self.ln(y)
            y = torch.nn.functional.dropout(torch.tanh(y), drop, self.training)
            if noise and self.training:
                y = y + torch.randn_like(y) * 0.1
            return y, self.lin2(y)

    class RfModel(rf.Module):
        def __init__(self):
            super().__init__()
            self.in_dim = Dim(dim, name="in")
            self.hid = Dim(hid, name="hid")
            self.out = Dim(num_classes, name="out")
            self.emb = rf.Embedding(self.out, self.hid)
            self.lin1 = rf.Linear(self.in_dim, self.hid)
            self.ln = rf.LayerNorm(self.hid) if ln else None
            self.bn = rf.BatchNorm(self.hid, use_mask=True) if bn else None
            self.lin2 = rf.Linear(self.hid, self.out)

        def __call__(self, x, spatial_dim):
            y = self.lin1(x)
            if self.bn is not None:
                y = self.bn(y)
            if self.ln is not None:
                y = self.ln(y)
            y = rf.dropout(rf.tanh(y), drop, axis=self.hid)
            if noise and rf.get_run_ctx().train_flag:  # the eval after a resume does not have the same random state
                y = y + rf.random_normal(y.dims, stddev=0.1, dtype=y.dtype)
            return y, self.lin2(y)

    def get_model(**_kw):
        return RfModel() if kind == "rf" else Model()

    def train_step(*, model, extern_data, **_kw):
        data = extern_data["data"]
        classes = extern_data["classes"]
        ctx = rf.get_run_ctx()
        if kind == "rf":
            t = data.get_time_dim_tag()
            x = rf.copy(data)
            x = x / 2048.0
            x.feature_dim = data.feature_dim
            x, _ = rf.replace_dim(x, in_dim=data.feature_dim, out_dim=model.in_dim)
            x.feature_dim = model.in_dim
            y, logits = model(x, t)
            ty = classes.get_time_dim_tag()
            e = model.emb(_sparse(rf, classes, model.out))
            pooled = rf.reduce_mean(y, axis=t)
            pe = rf.reduce_mean(e, axis=ty)
            loss1 = rf.reduce_sum(rf.square(pooled - pe), axis=model.hid)  # [B]
            loss2 = rf.reduce_mean(rf.square(logits), axis=model.out)  # [B,T]
            kw = {}
            if norm_mode == "frames":
                kw["custom_inv_norm_factor"] = rf.cast(t.get_size_tensor(), "float32") if False else t.get_size_tensor()
            elif norm_mode == "const":
                kw["custom_inv_norm_factor"] = rf.convert_to_tensor(7.0)
            ctx.mark_as_loss(loss1, "match", scale=scale, **({} if norm_mode == "frames" else kw))
            if two_losses:
                ctx.mark_as_loss(loss2, "reg", scale=0.01)
                ctx.mark_as_loss(loss2, "err", as_error=True)
            return
        x = data.raw_tensor / 2048.0
        lens = data.dims[1].dyn_size_ext.raw_tensor
        mask = torch.arange(x.shape[1])[None, :] < lens[:, None]
        y, logits = model(x)
        y = torch.where(mask[:, :, None], y, torch.zeros_like(y))
        pooled = y.sum(1) / lens[:, None]
        tl = classes.dims[1].dyn_size_ext.raw_tensor
        m2 = torch.arange(classes.raw_tensor.shape[1])[None, :] < tl[:, None]
        e = model.emb(classes.raw_tensor.long()) * m2[:, :, None]
        pe = e.sum(1) / tl[:, None]
        loss1 = ((pooled - pe) ** 2).sum(-1)
        kw = {}
        if norm_mode == "const":
            kw["custom_inv_norm_factor"] = torch.tensor(7.0)
        ctx.mark_as_loss(loss1, "match", scale=scale, dims=[data.dims[0]], **({} if not kw else {"custom_inv_norm_factor": rf.convert_to_tensor(7.0)}))
        if two_losses:
            l2 = (logits**2).mean(-1)[mask]
            ctx.mark_as_loss(name="reg", loss=l2, scale=0.01)
            ctx.mark_as_loss(name="err", loss=(l2 > 0.1).float(), as_error=True)

    return get_model, train_step, desc


def _sparse(rf, classes, out_dim):
    c = classes.copy()
    c.sparse_dim = out_dim
    return c


def gen_config(rng, c, model_dir, num_epochs):
    """:return: (cfg dict, desc)"""
    cfg = dict(
        task="train", device="cpu", backend="torch", behavior_version=21,
        extern_data={"data": {"dim": c.dim}, "classes": {"dim": c.num_labels, "sparse": True}},
        model=f"{model_dir}/net/ckpt", learning_rate_file=f"{model_dir}/lr/scores", num_epochs=num_epochs,
        learning_rate=rng.choice([0.1, 0.01]),
    )
    opt = rng.choice([
        {"class": "sgd"}, {"class": "sgd", "momentum": 0.9}, {"class": "sgd", "momentum": 0.9, "nesterov": True},
        {"class": "adam"}, {"class": "adam", "betas": (0.5, 0.9), "epsilon": 1e-6}, {"class": "adamw", "weight_decay": 0.1},
        {"class": "rmsprop", "momentum": 0.5}, {"class": "nadam"}, {"class": "radam"}, {"class": "adagrad"}, {"class": "adamax"},
        {"class": "adamw", "weight_decay": 0.05, "amsgrad": True},
    ])
    cfg["optimizer"] = dict(opt)
    cfg["batch_size"] = rng.choice([15, 30, 60])
    cfg["max_seqs"] = rng.choice([2, 4, 10])
    if rng.random() < 0.4:
        cfg["accum_grad_multiple_step"] = rng.choice([2, 3, lambda *, epoch, global_train_step, **_: 1 + (epoch + global_train_step) % 3])
    for k, vs in [("gradient_clip", [0.05]), ("gradient_clip_global_norm", [0.1, 1.0]), ("gradient_noise", [0.01]), ("random_seed", [1, 7]),
                  ("online_shuffle_batches", [3]), ("calculate_exp_loss", [True]), ("default_float_dtype", ["float64"])]:
        if rng.random() < 0.25:
            cfg[k] = rng.choice(vs)
    if cfg.get("default_float_dtype") and opt["class"] == "nadam":
        cfg.pop("default_float_dtype")  # PyTorch itself restores the float32 mu_product of NAdam as float64
    if rng.random() < 0.3:
        cfg["max_seq_length"] = {"data": 10}
    lrc = rng.choice(["constant", "constant", "newbob", "newbob_abs", "newbob_multi_epoch"])
    if lrc != "constant":
        cfg["learning_rate_control"] = lrc
        cfg["learning_rate_decay"] = 0.7
        cfg["newbob_relative_error_threshold"] = rng.choice([-0.01, 0.0, 0.2, -0.5])
        if rng.random() < 0.5:
            cfg["learning_rate_growth"] = 1.1
        if lrc == "newbob_multi_epoch":
            cfg["newbob_multi_num_epochs"] = 2
            cfg["newbob_multi_update_interval"] = rng.choice([1, 2])
        if rng.random() < 0.3:
            cfg["learning_rate_control_min_num_epochs_per_new_lr"] = 2
        if rng.random() < 0.3:
            cfg["learning_rate_control_relative_error_relative_lr"] = True
    elif rng.random() < 0.4:
        cfg["learning_rates"] = rng.choice([[0.1, 0.05, 0.02], {1: 0.03, 3: 0.01}])
    if rng.random() < 0.4:
        mode = rng.choice(["step", "cont", "epoch"])

        def dyn(*, global_train_step, epoch, epoch_continuous=None, learning_rate, **_kw):
            if mode == "step":
                return learning_rate / (1.0 + 0.1 * global_train_step)
            if mode == "cont" and epoch_continuous is not None:
                return learning_rate * (0.9**epoch_continuous)
            return learning_rate * (0.8**epoch)

        cfg["dynamic_learning_rate"] = dyn
    desc = {k: v for k, v in cfg.items() if k not in ("model", "learning_rate_file", "extern_data", "task", "device", "backend", "behavior_version") and not callable(v)}
    desc["dyn"] = "dynamic_learning_rate" in cfg
    desc["lrc"] = lrc
    return cfg, desc
