"""C20: RF layers: the result for a sequence does not depend on the batch it is in, nor on the content of the padding."""
from vlib import rfseq as S

RULE = (
    "case = one random layer/model of returnn.frontend with random options, random (float64) parameters and a random batch of sequences of different lengths with garbage in the padding; "
    "run once on the padded batch and once per sequence alone (batch size 1, no padding), in eval mode; outputs (valid frames, sizes), input gradients (also: zero for padded frames) and the "
    "parameter gradients (batch = sum over sequences) of a random linear functional of the valid frames are compared. Distinct by case description."
)
ASSUMPTIONS = [
    "behaviour version 24 (masking on by default, consistent same padding); eager PyTorch backend; float64; no dropout (eval mode)",
    "padding='same' avg-pooling and transposed convolutions with output_padding are compared like the rest; BatchNorm in training mode is not per-sequence by definition and is checked in C23",
]
MIN_COUNTS = {"compared": 300, "padded_cases": 150, "param_grads": 300}
BUDGET = {"quick": 300, "thorough": 1500}


def worker_init():
    S.init()


def _randomize(case, module):
    import torch

    if module is None:
        return []
    g = case.np_rng()
    ps = []
    for name, p in module.named_parameters():
        raw = p.raw_tensor
        v = torch.tensor(g.normal(size=tuple(raw.shape)) * 0.4)
        if "variance" in name:
            v = v.abs() + 0.5
        if name.endswith("scale"):
            v = v + 1.0
        with torch.no_grad():
            raw.copy_(v.to(raw.dtype))
        ps.append((name, raw))
    return ps


def run(case, module, fn, inputs, *, tol=1e-9, grad=True, min_len=1, max_len=7, num_dyn=1, tie=None):
    """
    :param inputs: func(env) -> list of dict(dims=..., sparse_dim=..., batch=True); dims without batch
    :param fn: func(env, *tensors) -> (tensor, dims)  or list of these
    """
    import numpy
    import torch
    import returnn.frontend as rf

    env = S.Env(case, num_dyn=num_dyn, min_len=min_len, max_len=max_len)
    if tie:
        tie(env)
    params = _randomize(case, module)
    case.desc(nb=env.nb, lens=list(env.lens.values()))
    rf.init_forward_step_run_ctx()
    made = [env.make(spec["dims"], sparse_dim=spec.get("sparse_dim"), feature_dim=spec.get("feature_dim"), garbage=spec.get("garbage")) for spec in inputs(env)]

    def _run(e, tensors, weights):
        for t in tensors:
            if t.dtype.startswith("float"):
                t.raw_tensor.requires_grad_(True)
        for _, p in params:
            p.grad = None
        outs = fn(e, *tensors)
        if isinstance(outs, tuple):
            outs = [outs]
        res = []
        loss = 0.0
        for oi, (o, dims) in enumerate(outs):
            sq = S.seqs(e, o, dims)
            res.append(sq)
            if grad and o.dtype.startswith("float"):
                # random linear functional of the valid frames, indexed by sequence
                have = list(o.dims)
                wb = any(d == e.batch for d in have)
                want = ([e.batch] if wb else []) + list(dims)
                raw = o.raw_tensor.permute([have.index(d) for d in want])
                for b in range(e.nb):
                    r = raw[b] if wb else raw
                    r = r[tuple(slice(0, n) for n in sq[b].shape)]
                    w = weights(oi, b, tuple(r.shape))
                    loss = loss + (r * w).sum()
        gp, gi = {}, []
        if grad and isinstance(loss, torch.Tensor) and loss.requires_grad:
            loss.backward()
            gp = {n: None if p.grad is None else p.grad.clone() for n, p in params}
            gi = [t.raw_tensor.grad for t in tensors]
        return res, gp, gi

    wcache = {}

    def weights(oi, b, shape):
        key = (oi, b)
        if key not in wcache:
            wcache[key] = torch.tensor(numpy.asarray(env.np.normal(size=shape)))
        case.require(tuple(wcache[key].shape) == shape, f"sequence {b}: output shape alone {list(shape)}, in the batch {list(wcache[key].shape)}")
        return wcache[key]

    res, gp, gi = _run(env, [t for t, _ in made], weights)
    padded = any(len(set(v)) > 1 for v in env.lens.values())
    total = {}
    specs = inputs(env)
    for b in range(env.nb):
        e1 = S.Env.__new__(S.Env)
        e1.case, e1.rng, e1.np, e1.dtype, e1.nb, e1.sizes = case, env.rng, env.np, env.dtype, 1, env.sizes
        from returnn.tensor import Dim

        e1.batch = Dim(1, name="batch1", kind=Dim.Types.Batch)
        e1.lens, e1.dyn = {}, []
        for d in env.dyn:
            e1.dyn.append(e1.new_dyn(d.name, lens=[env.lens[d][b]]))
        specs1 = inputs(e1)
        made1 = []
        for i, spec in enumerate(specs1):
            made1.append(e1.make(spec["dims"], sparse_dim=spec.get("sparse_dim"), feature_dim=spec.get("feature_dim"), seqs=[made[i][1][b]])[0])
        r1, gp1, gi1 = _run(e1, made1, lambda oi, _b, shape: weights(oi, b, shape))
        for oi, sq in enumerate(r1):
            g, x = res[oi][b], sq[0]
            case.require(g.shape == x.shape, f"sequence {b}: shape in the batch {list(g.shape)}, alone {list(x.shape)}", out=oi)
            ok = numpy.allclose(g, x, rtol=tol, atol=tol, equal_nan=True)
            case.require(ok, f"output {oi} of sequence {b} in the batch differs from the result for the sequence alone", max_diff=float(numpy.nanmax(numpy.abs(g - x))) if g.size else 0, shape=list(g.shape))
            case.require(numpy.isfinite(x).all() if x.dtype.kind == "f" else True, f"output {oi} of sequence {b}: not finite")
            case.count("compared")
            case.count("frames", int(x.size))
        for n, v in gp1.items():
            if v is not None:
                total[n] = v if total.get(n) is None else total[n] + v
        for i, spec in enumerate(specs1):
            if not gi or gi[i] is None or not made1[i].dtype.startswith("float"):
                continue
            full = made[i][0]
            have = list(full.dims)
            raw = gi[i].permute([have.index(env.batch)] + [have.index(d) for d in specs[i]["dims"]])[b]
            valid = tuple(slice(0, n) for n in made[i][1][b].shape)
            have1 = list(made1[i].dims)
            raw1 = gi1[i].permute([have1.index(e1.batch)] + [have1.index(d) for d in spec["dims"]])[0]
            case.require(torch.allclose(raw[valid], raw1, rtol=tol * 10, atol=tol * 10), f"gradient of input {i}, sequence {b}, in the batch differs from the one of the sequence alone")
            mask = torch.ones_like(raw, dtype=torch.bool)
            mask[valid] = False
            case.require(bool((raw[mask] == 0).all()), f"gradient of input {i}, sequence {b}: padded frames have a gradient", n=int((raw[mask] != 0).sum()))
            case.count("input_grads")
    for n, v in gp.items():
        t = total.get(n)
        if v is None or t is None:
            case.require((v is None or not v.any()) and (t is None or not t.any()), f"parameter {n}: has gradient only in one of batch/alone")
            continue
        case.require(torch.allclose(v, t, rtol=tol * 100, atol=tol * 100), f"gradient of parameter {n} for the batch is not the sum over the sequences", max_diff=float((v - t).abs().max()))
        case.count("param_grads")
    if padded:
        case.count("padded_cases")


def _f(n, name="f"):
    from returnn.tensor import Dim

    return Dim(n, name=name, kind=Dim.Types.Feature)


def _extra(case, p=0.3):
    """other dims, e.g. a beam"""
    from returnn.tensor import Dim

    return [Dim(case.rng.randint(1, 3), name="beam", kind=Dim.Types.Spatial)] if case.rng.random() < p else []


# --- conv, pool, signal ---


def _padding(rng, allow_int=True):
    return rng.choice(["same", "valid", "same", rng.randint(0, 3)] if allow_int else ["same", "valid"])


def conv(case):
    import returnn.frontend as rf

    rng = case.rng
    nd = rng.choice([1, 1, 1, 2, 2, 3])
    groups = rng.choice([None, None, 1, 2, 4])
    fi, fo = _f((groups or 1) * rng.randint(1, 2), "in"), _f((groups or 1) * rng.randint(1, 2), "out")
    if fi.dimension == fo.dimension and rng.random() < 0.3:
        fo = fi
    size = [rng.randint(1, 4) for _ in range(nd)]
    strides = rng.choice([None, [rng.randint(1, 3) for _ in range(nd)]])
    dil = rng.choice([None, None, [rng.randint(1, 2) for _ in range(nd)]])
    pad = _padding(rng)
    if isinstance(pad, int):
        pad = min(pad, 2)
    other = [rng.randint(8, 9), rng.randint(8, 9)][: nd - 1]
    from returnn.tensor import Dim

    other = [Dim(n, name="s%i" % i) for i, n in enumerate(other)]
    dyn2 = nd >= 2 and rng.random() < 0.4
    pos = rng.randrange(nd)
    case.desc(layer="conv%id" % nd, groups=groups, size=size, strides=strides, dilation=dil, padding=pad, fi=fi.dimension, fo=fo.dimension, pos=pos, dyn2=dyn2)
    if isinstance(pad, int):
        mod = None
        cls = {1: rf.Conv1d, 2: rf.Conv2d, 3: rf.Conv3d}[nd]
        mod = cls(fi, fo, size if nd > 1 else size[0], padding="valid", strides=(strides if nd > 1 or not strides else strides[0]), dilation_rate=(dil if nd > 1 or not dil else dil[0]), groups=groups, with_bias=rng.random() < 0.7)
        mod.padding = pad
    else:
        cls = {1: rf.Conv1d, 2: rf.Conv2d, 3: rf.Conv3d}[nd]
        mod = cls(fi, fo, size if nd > 1 else size[0], padding=pad, strides=(strides if nd > 1 or not strides else strides[0]), dilation_rate=(dil if nd > 1 or not dil else dil[0]), groups=groups, with_bias=rng.random() < 0.7)
    extra = _extra(case)

    def spatial(env):
        sp = list(other)
        sp.insert(pos, env.dyn[0])
        if dyn2:
            sp[(pos + 1) % nd] = env.dyn[1]
        return sp

    def fn(env, x):
        sp = spatial(env)
        if nd == 1 and rng.random() < 0.3:
            out, sp2 = rf.conv(
                x, in_dim=fi, out_dim=fo, in_spatial_dims=sp, filter=mod.filter, filter_size=mod.filter_size, padding=mod.padding, strides=mod.strides, dilation_rate=mod.dilation_rate, groups=mod.groups, bias=mod.bias
            )
        elif nd == 1:
            out, sp2 = mod(x, in_spatial_dim=sp[0])
            sp2 = [sp2]
        else:
            out, sp2 = mod(x, in_spatial_dims=sp)
        return out, list(sp2) + extra + [fo]

    run(case, mod, fn, lambda env: [dict(dims=spatial(env) + extra + [fi])], min_len=8, max_len=14, num_dyn=2 if dyn2 else 1)


def pool(case):
    import returnn.frontend as rf
    from returnn.tensor import Dim

    rng = case.rng
    nd = rng.choice([1, 1, 2, 2, 3])
    mode = rng.choice(["max", "avg"])
    size = [rng.randint(1, 4) for _ in range(nd)]
    strides = rng.choice([None, [rng.randint(1, 3) for _ in range(nd)]])
    dil = [rng.randint(1, 2) for _ in range(nd)] if mode == "max" and rng.random() < 0.3 else [1] * nd
    pad = rng.choice(["same", "same", "valid"])
    if pad == "same":
        dil = [1] * nd
        if all(x == 1 for x in strides or size):  # even size not supported then
            size = [x - 1 + x % 2 for x in size]
    elif rng.random() < 0.3:
        pad = min(size) // 2
    other = [Dim(rng.randint(8, 9), name="s%i" % i) for i in range(nd - 1)]
    pos = rng.randrange(nd)
    dyn2 = nd >= 2 and rng.random() < 0.4
    f = _f(rng.randint(1, 3))
    extra = _extra(case)
    case.desc(layer="%s_pool%id" % (mode, nd), size=size, strides=strides, padding=pad, pos=pos, dilation=dil, dyn2=dyn2)

    def spatial(env):
        sp = list(other)
        sp.insert(pos, env.dyn[0])
        if dyn2:
            sp[(pos + 1) % nd] = env.dyn[1]
        return sp

    def fn(env, x):
        sp = spatial(env)
        if nd == 1 and rng.random() < 0.5:
            out, sp2 = rf.pool1d(x, mode=mode, pool_size=size[0], padding=pad, strides=strides and strides[0], dilation_rate=dil[0], in_spatial_dim=sp[0])
            sp2 = [sp2]
        else:
            out, sp2 = rf.pool(x, mode=mode, pool_size=size, padding=pad, strides=strides, dilation_rate=dil, in_spatial_dims=sp)
        return out, list(sp2) + extra + [f]

    run(case, None, fn, lambda env: [dict(dims=spatial(env) + extra + [f])], min_len=8, max_len=14, num_dyn=2 if dyn2 else 1)


def signal(case):
    import returnn.frontend as rf

    rng = case.rng
    kind = rng.choice(["stft", "stft", "logmel"])
    if kind == "stft":
        fl = rng.randint(4, 20)
        kw = dict(frame_step=rng.randint(1, fl), frame_length=fl, fft_length=rng.choice([None, fl, fl + rng.randint(1, 8)]), window_use_frame_length=rng.random() < 0.6, align_window_left=rng.random() < 0.6, window_enforce_even=rng.random() < 0.5)
        case.desc(layer=kind, **kw)

        def fn(env, x):
            out, sp, f = rf.stft(x, in_spatial_dim=env.dyn[0], **kw)
            res = []
            for part in (rf.real(out) if hasattr(rf, "real") else None, rf.abs(out)):
                if part is not None:
                    res.append((part, [sp, f] + extra))
            return res

    else:
        f = _f(rng.choice([5, 10, 20]), "mel")
        kw = dict(sampling_rate=rng.choice([1000, 2000]), window_len=0.025, step_len=rng.choice([0.01, 0.0125]), log_base=rng.choice([10, 2.3026, 2]))
        case.desc(layer=kind, f=f.dimension, **kw)

        def fn(env, x):
            out, sp = rf.audio.log_mel_filterbank_from_raw(x, in_spatial_dim=env.dyn[0], out_dim=f, **kw)
            return out, [sp, f] + extra

    extra = _extra(case)
    run(case, None, fn, lambda env: [dict(dims=[env.dyn[0]] + extra)], min_len=60, max_len=120, tol=1e-5 if kind == "logmel" else 1e-8, grad=kind == "stft" and False)


# --- simple layers ---


def simple(case):
    import returnn.frontend as rf

    rng = case.rng
    kind = rng.choice(["Linear", "Embedding", "LayerNorm", "RMSNorm", "GroupNorm", "BatchNorm", "Normalize", "normalize_time", "FeedForward", "FeedForwardGated", "ff_conv_gated"])
    extra = _extra(case)
    f = _f(rng.randint(2, 4))
    o = _f(rng.randint(1, 4), "out")
    case.desc(layer=kind, f=f.dimension, o=o.dimension)
    out_f = f
    sparse = None
    if kind == "Linear":
        mod, out_f = rf.Linear(f, o, with_bias=rng.random() < 0.6), o
    elif kind == "Embedding":
        mod, out_f, sparse = rf.Embedding(f, o), o, f
    elif kind == "LayerNorm":
        mod = rf.LayerNorm(f, with_bias=rng.random() < 0.6)
    elif kind == "RMSNorm":
        mod = rf.RMSNorm(f, with_bias=rng.random() < 0.6)
    elif kind == "GroupNorm":
        f = out_f = _f(rng.choice([4, 6]))
        mod = rf.GroupNorm(f, num_groups=2)
    elif kind == "BatchNorm":
        mod = rf.BatchNorm(f, use_mask=rng.choice([True, False, None]), affine=rng.random() < 0.7)
    elif kind == "Normalize":
        mod = rf.Normalize(param_dims=f)
    elif kind == "normalize_time":
        mod = None
    elif kind == "FeedForward":
        from returnn.frontend.decoder.transformer import FeedForward

        mod = FeedForward(f, ff_dim=rng.choice([rng.randint(2, 5), o]), activation=rng.choice([rf.relu, rf.gelu, rf.swish]), with_bias=rng.random() < 0.5)
    elif kind == "FeedForwardGated":
        from returnn.frontend.decoder.transformer import FeedForwardGated

        mod = FeedForwardGated(f, ff_dim=rng.randint(2, 5))
    else:
        from returnn.frontend.encoder.e_branchformer import FeedForwardConvGated

        mod = FeedForwardConvGated(f, ff_dim=2 * rng.randint(1, 3), kernel_size=rng.choice([1, 3, 5, 4]))

    def fn(env, x):
        t = env.dyn[0]
        if kind == "Normalize":
            out = mod(x, axis=rng_axis(env))
        elif kind == "normalize_time":
            out = rf.normalize(x, axis=rng_axis(env))
        elif kind == "ff_conv_gated":
            out = mod(x, spatial_dim=t)
        else:
            out = mod(x)
        return out, [t] + extra + [out_f]

    ax = rng.randrange(3)

    def rng_axis(env):
        return [[env.dyn[0]], [f], [env.dyn[0], f]][ax] if kind == "normalize_time" else [[f], [f], [env.dyn[0], f]][ax]

    run(case, mod, fn, lambda env: [dict(dims=[env.dyn[0]] + extra + ([] if sparse else [f]), sparse_dim=sparse, feature_dim=f if kind == "BatchNorm" else None)], min_len=2 if "ormalize" in kind else 1, tol=2e-6 if "ormalize" in kind else 1e-9)


def attention(case):
    import returnn.frontend as rf

    rng = case.rng
    kind = rng.choice(["SelfAttention", "CausalSelfAttention", "RotaryPosSelfAttention", "RotaryPosCausalSelfAttention", "RelPosSelfAttention", "RelPosCausalSelfAttention", "CrossAttention", "dot_attention"])
    heads = rng.randint(1, 3)
    f = _f(rng.randint(1, 4))
    if kind.startswith("RelPos"):
        f = _f(heads * 4)
    proj = rng.choice([None, _f(rng.randint(1, 4), "proj")])
    kd, vd = _f(heads * 2 * rng.randint(2, 3), "key"), _f(heads * rng.randint(1, 3), "val")
    extra = _extra(case)
    kw = dict(key_dim_total=kd, value_dim_total=vd, num_heads=heads, with_bias=rng.random() < 0.6)
    case.desc(layer=kind, heads=heads, f=f.dimension, kd=kd.dimension, vd=vd.dimension, proj=proj and proj.dimension)
    out_f = proj or vd
    num_dyn = 1
    if kind.startswith("RelPos"):
        opts = dict(with_linear_pos=rng.random() < 0.5, with_pos_bias=rng.random() < 0.5, learnable_pos_emb=rng.random() < 0.4, learnable_pos_emb_clipping=rng.choice([1, 2, 16]), separate_pos_emb_per_head=rng.random() < 0.5)
        case.desc(**opts)
        kw.update(opts)
    if kind == "CrossAttention":
        enc = _f(rng.randint(1, 4), "enc")
        mod = rf.CrossAttention(enc, f, proj, **kw)
        num_dyn = 2
    elif kind == "dot_attention":
        mod, num_dyn = None, 2
        k, v = _f(3, "k"), _f(2, "v")
    else:
        mod = getattr(rf, kind)(f, proj, **kw)

    def inputs(env):
        if kind == "CrossAttention":
            return [dict(dims=[env.dyn[0]] + extra + [f]), dict(dims=[env.dyn[1], enc])]
        if kind == "dot_attention":
            return [dict(dims=[env.dyn[0]] + extra + [k]), dict(dims=[env.dyn[1], k]), dict(dims=[env.dyn[1], v])]
        return [dict(dims=[env.dyn[0]] + extra + [f])]

    def fn(env, x, *more):
        t = env.dyn[0]
        if kind == "CrossAttention":
            out = mod(x, mod.transform_encoder(more[0], axis=env.dyn[1]))
        elif kind == "dot_attention":
            return rf.dot_attention(x, more[0], more[1], key_dim=k, axis=env.dyn[1]), [t] + extra + [v]
        else:
            out = mod(x, axis=t)
            if "Causal" in kind:
                out = out[0]
        return out, [t] + extra + [out_f]

    run(case, mod, fn, inputs, num_dyn=num_dyn)


def rec(case):
    import returnn.frontend as rf

    rng = case.rng
    f, o = _f(rng.randint(1, 4)), _f(rng.randint(1, 4), "out")
    zone = rng.random() < 0.4
    kw = dict(with_bias=rng.random() < 0.7)
    if zone:
        kw.update(zoneout_factor_cell=rng.choice([0.0, 0.2]), zoneout_factor_output=rng.choice([0.0, 0.1]), use_zoneout_output=rng.random() < 0.5, forget_bias=rng.choice([0.0, 1.0]), parts_order=rng.choice(["ifco", "jifo", "icfo"]))
    case.desc(layer="ZoneoutLSTM" if zone else "LSTM", f=f.dimension, o=o.dimension, **kw)
    mod = (rf.ZoneoutLSTM if zone else rf.LSTM)(f, o, **kw)
    extra = _extra(case)
    with_state = rng.random() < 0.5

    def inputs(env):
        r = [dict(dims=[env.dyn[0]] + extra + [f])]
        if with_state:
            r += [dict(dims=extra + [o], feature_dim=o), dict(dims=extra + [o], feature_dim=o)]
        return r

    def fn(env, x, *st):
        state = rf.LstmState(h=st[0], c=st[1]) if st else mod.default_initial_state(batch_dims=[env.batch] + extra)
        out, new = mod(x, state=state, spatial_dim=env.dyn[0])
        res = [(out, [env.dyn[0]] + extra + [o])]
        res += [(new.h, extra + [o]), (new.c, extra + [o])]
        return res

    run(case, mod, fn, inputs)


# --- models ---


def encoder(case):
    import returnn.frontend as rf
    from returnn.frontend.encoder import conformer as cf, conformer_v2 as cf2, e_branchformer as eb, transformer as tf_enc

    rng = case.rng
    kind = rng.choice(["conformer", "conformer", "subsample", "conformer_v2", "e_branchformer", "conv_block", "transformer"])
    heads = rng.choice([1, 2])
    f = _f(rng.randint(3, 5))
    o = _f(heads * rng.choice([4, 6]), "model")
    extra = _extra(case, 0.15)
    case.desc(layer=kind, heads=heads, f=f.dimension, o=o.dimension)
    out_f, sparse, in_f = o, None, f
    sub = None

    def make_sub(in_dim):
        n = rng.randint(1, 2)
        filt = [rng.choice([(3, 3), (1, 3), (3, 1), (2, 3)]) for _ in range(n)]
        kw = dict(
            out_dims=[_f(rng.randint(1, 2), "c%i" % i) for i in range(n)], filter_sizes=filt,
            strides=rng.choice([None, [rng.choice([1, 2, (2, 1), (3, 1)]) for _ in range(n)]]),
            pool_sizes=rng.choice([None, [rng.choice([(1, 2), (2, 1), (1, 1), (3, 1)]) for _ in range(n)]]),
            padding=rng.choice(["same", "same", "valid"]),
        )
        if kw["padding"] == "valid":  # few frames stay
            kw["strides"] = kw["pool_sizes"] = None
        case.desc(filter_sizes=filt, strides=kw["strides"], pool=kw["pool_sizes"], padding=kw["padding"])
        return cf.ConformerConvSubsample(in_dim, **kw)

    norm = rng.choice([{}, {"conv_norm": rf.LayerNorm}, {"conv_norm": {"class": "rf.BatchNorm", "use_mask": True}}])
    ff = rng.choice([{}, {"ff_dim": _f(3, "ff")}, {"ff_activation": rf.relu}, {"ff_activation": {"class": "rf.relu_square"}}])
    layer = {"conv_kernel_size": rng.choice([1, 3, 4, 5])}
    if kind == "subsample":
        f = in_f = _f(10)
        mod = make_sub(f)
        out_f = mod.out_dim
    elif kind == "conformer":
        with_sub = rng.random() < 0.6
        if with_sub:
            f = in_f = _f(10)
            sub = make_sub(f)
        else:
            f = in_f = o
        mod = cf.ConformerEncoder(f, o, num_layers=rng.randint(1, 2), input_layer=sub, num_heads=heads, **norm, **ff, **layer)
    elif kind == "conformer_v2":
        in_f = o
        mod = cf2.ConformerEncoderV2(o, num_layers=rng.randint(1, 2), num_heads=heads, **norm, **ff, **layer)
    elif kind == "conv_block":
        in_f = o
        mod = cf.ConformerConvBlock(o, kernel_size=rng.choice([1, 3, 5, 4]), norm=rng.choice([rf.BatchNorm(o, use_mask=False), rf.LayerNorm(o)]))
    elif kind == "e_branchformer":
        in_f = o
        mod = eb.EBranchformerLayer(o, num_heads=heads, cgmlp_ff_dim=2 * rng.randint(1, 3), cgmlp_conv_kernel=rng.choice([1, 3, 5]), merge_conv_kernel=rng.choice([1, 3]), ff_dim=4)
    else:
        sparse = f
        mod = tf_enc.TransformerEncoder(f, o, num_layers=rng.randint(1, 2), num_heads=heads, norm=rng.choice([rf.LayerNorm, rf.RMSNorm]))

    def fn(env, x):
        t = env.dyn[0]
        if kind in ("subsample", "conformer"):
            col = {}
            if kind == "conformer":
                out, t2 = mod(x, in_spatial_dim=t, collected_outputs=col)
            else:
                out, t2 = mod(x, in_spatial_dim=t)
            return [(out, [t2] + extra + [out_f])] + [(v, [t2] + extra + [out_f]) for k, v in sorted(col.items())]
        return mod(x, spatial_dim=t), [t] + extra + [out_f]

    run(case, mod, fn, lambda env: [dict(dims=[env.dyn[0]] + extra + ([] if sparse else [in_f]), sparse_dim=sparse)], min_len=12 if kind in ("subsample", "conformer") else 1, max_len=18 if kind in ("subsample", "conformer") else 7, tol=1e-8)


def decoder(case):
    import returnn.frontend as rf
    from returnn.frontend.decoder.transformer import TransformerDecoder, FeedForwardGated

    rng = case.rng
    heads = rng.choice([1, 2])
    enc = rng.choice([None, _f(3, "enc")])
    vocab = _f(5, "vocab")
    model = _f(heads * rng.choice([4, 6]), "model")
    opts = {}
    if rng.random() < 0.3:
        opts["ff"] = FeedForwardGated
    if rng.random() < 0.3:
        opts["norm"] = rf.RMSNorm
    if rng.random() < 0.3:
        opts["pos_enc"] = None
        opts["layer_opts"] = {"self_att": rng.choice([rf.RotaryPosCausalSelfAttention, rf.RelPosCausalSelfAttention])}
    if rng.random() < 0.3:
        opts["embed_dim"] = _f(6, "embed")
        opts["share_embedding"] = False
    elif rng.random() < 0.3:
        opts["logits_with_bias"] = True
        opts["share_embedding"] = False
    elif rng.random() < 0.5:
        opts["share_embedding"] = rng.random() < 0.5
    nl = rng.randint(1, 2)
    case.desc(layer="TransformerDecoder", heads=heads, enc=bool(enc), nl=nl, opts=sorted((k, str(getattr(v, "__name__", v))) for k, v in opts.items()))
    mod = TransformerDecoder(enc, vocab, model, num_layers=nl, num_heads=heads, **opts)
    extra = _extra(case, 0.2)
    last = rng.random() < 0.0

    def inputs(env):
        return [dict(dims=[env.dyn[0]] + extra, sparse_dim=vocab)] + ([dict(dims=[env.dyn[1], enc])] if enc else [])

    def fn(env, x, *e):
        encoder = mod.transform_encoder(e[0], axis=env.dyn[1]) if e else None
        out, _ = mod(x, spatial_dim=env.dyn[0], state=mod.default_initial_state(batch_dims=[env.batch] + extra), encoder=encoder)
        return out, [env.dyn[0]] + extra + [vocab]

    run(case, mod, fn, inputs, num_dyn=2, tol=1e-8)


KINDS = {
    "conv": {"func": conv, "quick": 240, "thorough": 1500},
    "pool": {"func": pool, "quick": 160, "thorough": 800},
    "signal": {"func": signal, "quick": 64, "thorough": 200},
    "simple": {"func": simple, "quick": 240, "thorough": 1200},
    "attention": {"func": attention, "quick": 240, "thorough": 1500},
    "rec": {"func": rec, "quick": 120, "thorough": 500},
    "encoder": {"func": encoder, "quick": 160, "thorough": 800},
    "decoder": {"func": decoder, "quick": 96, "thorough": 500},
}
