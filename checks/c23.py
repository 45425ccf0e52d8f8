"""C23: RF layers compute their documented function (independent numpy definition), on padded batches."""
from vlib import rfseq as S

RULE = (
    "case = one random layer of returnn.frontend with random options and parameters (float64) on a random padded batch with garbage in the padding; outputs (and running statistics / final states) are compared with an "
    "independent numpy implementation of the documented formula, run on each sequence alone. Distinct by case description."
)
ASSUMPTIONS = ["behaviour version 24; eager PyTorch backend; float64", "running variance of BatchNorm is only compared for the masked variant (the fused PyTorch op uses the unbiased estimate)"]
MIN_COUNTS = {"results": 300, "padded_results": 100, "bn_train": 8, "dropout_train": 8, "specaugment_train": 8}
BUDGET = {"quick": 300, "thorough": 1500}


def worker_init():
    S.init()


def _tools():
    from checks.c20 import _f, _randomize, _extra

    return _f, _randomize, _extra


def _np(t):
    return t.raw_tensor.detach().cpu().numpy()


def _env(case, **kw):
    import returnn.frontend as rf

    env = S.Env(case, **kw)
    case.desc(nb=env.nb, lens=list(env.lens.values()))
    rf.init_forward_step_run_ctx()
    return env


def conv(case):
    import itertools
    import numpy
    import returnn.frontend as rf
    from returnn.tensor import Dim

    rng = case.rng
    _f, _rand, _ = _tools()
    nd = rng.choice([1, 1, 2])
    groups = rng.choice([None, 1, 2])
    g = groups or 1
    fi, fo = _f(g * rng.randint(1, 2), "in"), _f(g * rng.randint(1, 2), "out")
    size = [rng.randint(1, 4) for _ in range(nd)]
    strides = rng.choice([None, rng.randint(1, 3), [rng.randint(1, 3) for _ in range(nd)]])
    dil = rng.choice([None, rng.randint(1, 2), [rng.randint(1, 2) for _ in range(nd)]])
    if nd == 1:
        strides = strides[0] if isinstance(strides, list) else strides
        dil = dil[0] if isinstance(dil, list) else dil
    pad = rng.choice(["same", "valid"])
    bias = rng.random() < 0.7
    case.desc(layer="conv%id" % nd, groups=groups, size=size, strides=strides, dilation=dil, padding=pad, fi=fi.dimension, fo=fo.dimension, bias=bias)
    mod = (rf.Conv1d if nd == 1 else rf.Conv2d)(fi, fo, size if nd > 1 else size[0], padding=pad, strides=strides, dilation_rate=dil, groups=groups, with_bias=bias)
    _rand(case, mod)
    env = _env(case, num_dyn=1, min_len=8, max_len=13)
    sp = [env.dyn[0]] + ([Dim(rng.randint(8, 9), name="s")] if nd == 2 else [])
    if rng.random() < 0.5:
        sp = sp[::-1]
    x, sq = env.make(sp + [fi])
    if nd == 1:
        out, o = mod(x, in_spatial_dim=sp[0])
        osp = [o]
    else:
        out, osp = mod(x, in_spatial_dims=sp)
    st = [strides or 1] * nd if not isinstance(strides, list) else strides
    dl = [dil or 1] * nd if not isinstance(dil, list) else dil
    fin = mod.filter.copy_transpose([fo] + [d for d in mod.filter.dims if d != fo and d not in mod.filter_size] + list(mod.filter_size))
    w = _np(fin)
    b = _np(mod.bias) if bias else numpy.zeros(fo.dimension)
    exp = [_np_conv(s, w, b, st, dl, pad, g) for s in sq]
    S.check(case, env, out, list(osp) + [fo], exp, "conv")


def _np_conv(x, w, b, st, dl, pad, g):
    """x: [*spatial, in], w: [out, in/g, *size]"""
    import itertools
    import numpy

    nd = x.ndim - 1
    size = w.shape[2:]
    pads, outs = [], []
    for i in range(nd):
        k = (size[i] - 1) * dl[i]
        if pad == "same":
            pads.append((k // 2, k - k // 2))
            outs.append(-(-x.shape[i] // st[i]))
        else:
            pads.append((0, 0))
            outs.append(-(-(x.shape[i] - k) // st[i]))
    x = numpy.pad(x, pads + [(0, 0)])
    co, ci = w.shape[0] // g, w.shape[1]
    res = numpy.zeros(outs + [w.shape[0]])
    for pos in itertools.product(*[range(n) for n in outs]):
        for kk in itertools.product(*[range(n) for n in size]):
            v = x[tuple(p * s + k * d for p, s, k, d in zip(pos, st, kk, dl))]
            for gi in range(g):
                res[pos + (slice(gi * co, (gi + 1) * co),)] += w[(slice(gi * co, (gi + 1) * co), slice(None)) + kk] @ v[gi * ci : (gi + 1) * ci]
    return res + b


def pool(case):
    import itertools
    import numpy
    import returnn.frontend as rf
    from returnn.tensor import Dim

    rng = case.rng
    _f, _, _ = _tools()
    nd = rng.choice([1, 1, 2])
    mode = rng.choice(["max", "avg"])
    size = [rng.randint(1, 4) for _ in range(nd)]
    strides = rng.choice([None, [rng.randint(1, 3) for _ in range(nd)]])
    pad = rng.choice(["same", "valid"])
    if pad == "same":
        if mode == "avg" or all(s == 1 for s in strides or size):
            size = [x - 1 + x % 2 for x in size]
    f = _f(rng.randint(1, 2))
    case.desc(layer="%s_pool%id" % (mode, nd), size=size, strides=strides, padding=pad)
    env = _env(case, num_dyn=1, min_len=6, max_len=12)
    sp = [env.dyn[0]] + ([Dim(rng.randint(6, 9), name="s")] if nd == 2 else [])
    if rng.random() < 0.5:
        sp = sp[::-1]
    x, sq = env.make(sp + [f])
    if nd == 1:
        out, o = rf.pool1d(x, mode=mode, pool_size=size[0], strides=strides and strides[0], padding=pad, in_spatial_dim=sp[0])
        osp = [o]
    else:
        out, osp = rf.pool2d(x, mode=mode, pool_size=size, strides=strides, padding=pad, in_spatial_dims=sp)
    st = strides or size
    exp = []
    for s in sq:
        outs, left = [], []
        for i in range(nd):
            left.append((size[i] - 1) // 2 if pad == "same" else 0)
            outs.append(-(-s.shape[i] // st[i]) if pad == "same" else -(-(s.shape[i] - size[i] + 1) // st[i]))
        r = numpy.zeros(outs + [f.dimension])
        for pos in itertools.product(*[range(n) for n in outs]):
            win = s[tuple(slice(max(0, p * a - l), max(0, p * a - l + k)) for p, a, l, k in zip(pos, st, left, size))].reshape(-1, f.dimension)
            r[pos] = win.max(axis=0) if mode == "max" else win.mean(axis=0)
        exp.append(r)
    S.check(case, env, out, list(osp) + [f], exp, f"{mode}_pool")


def _sigmoid(x):
    import numpy

    return 1 / (1 + numpy.exp(-x))


def lstm(case):
    import numpy
    import returnn.frontend as rf

    rng = case.rng
    _f, _rand, _ = _tools()
    f, o = _f(rng.randint(1, 3)), _f(rng.randint(1, 3), "out")
    zone = rng.random() < 0.5
    kw = dict(with_bias=rng.random() < 0.7)
    if zone:
        kw.update(zoneout_factor_cell=rng.choice([0.0, 0.2]), zoneout_factor_output=rng.choice([0.0, 0.1]), use_zoneout_output=rng.random() < 0.5, forget_bias=rng.choice([0.0, 1.0]), parts_order=rng.choice(["ifco", "jifo", "icfo", "gifo"]))
    case.desc(layer="ZoneoutLSTM" if zone else "LSTM", **kw)
    mod = (rf.ZoneoutLSTM if zone else rf.LSTM)(f, o, **kw)
    _rand(case, mod)
    env = _env(case, num_dyn=1)
    t = env.dyn[0]
    x, sq = env.make([t, f])
    h0, h0s = env.make([o], feature_dim=o)
    c0, c0s = env.make([o], feature_dim=o)
    out, st = mod(x, state=rf.LstmState(h=h0, c=c0), spatial_dim=t)
    n = o.dimension
    w = _np(mod.ff_weight.copy_transpose([f, [d for d in mod.ff_weight.dims if d != f][0]]))
    r = _np(mod.rec_weight.copy_transpose([o, [d for d in mod.rec_weight.dims if d != o][0]]))
    b = _np(mod.bias) if kw["with_bias"] else 0.0
    order = kw.get("parts_order", "ifgo").replace("c", "g").replace("j", "g")
    zc, zo = kw.get("zoneout_factor_cell", 0.0), kw.get("zoneout_factor_output", 0.0)
    exp, eh, ec = [], [], []
    for i, s in enumerate(sq):
        h, c = h0s[i], c0s[i]
        outs = []
        for v in s:
            z = v @ w + h @ r + b
            p = {k: z[order.index(k) * n : (order.index(k) + 1) * n] for k in "ifgo"}
            nc = _sigmoid(p["f"] + kw.get("forget_bias", 0.0)) * c + _sigmoid(p["i"]) * numpy.tanh(p["g"])
            nh = _sigmoid(p["o"]) * numpy.tanh(nc)
            c, h = (1 - zc) * nc + zc * c, (1 - zo) * nh + zo * h
            outs.append(h if kw.get("use_zoneout_output", True) else nh)
        exp.append(numpy.stack(outs)), eh.append(h), ec.append(c)
    S.check(case, env, out, [t, o], exp, "LSTM output")
    S.check(case, env, st.h, [o], eh, "LSTM final h")
    S.check(case, env, st.c, [o], ec, "LSTM final c")


def _softmax(x):
    import numpy

    e = numpy.exp(x - x.max(axis=-1, keepdims=True))
    return e / e.sum(axis=-1, keepdims=True)


def _rope(x, pos):
    """x: [T,H,D]: pairs of consecutive features are rotated by pos * 10000^(-2i/D)"""
    import numpy

    d = x.shape[-1]
    ang = numpy.asarray(pos)[:, None] * (10000.0 ** (-2.0 * numpy.arange(d // 2) / d))[None]
    c, s = numpy.cos(ang)[:, None], numpy.sin(ang)[:, None]
    re, im = x[..., 0::2], x[..., 1::2]
    out = numpy.empty_like(x)
    out[..., 0::2] = re * c - im * s
    out[..., 1::2] = re * s + im * c
    return out


def attention(case):
    import numpy
    import returnn.frontend as rf

    rng = case.rng
    _f, _rand, _ = _tools()
    kind = rng.choice(["SelfAttention", "CausalSelfAttention", "RotaryPosSelfAttention", "RotaryPosCausalSelfAttention", "RelPosSelfAttention", "RelPosSelfAttention", "RelPosCausalSelfAttention", "RelPosCausalSelfAttention", "CrossAttention"])
    heads = rng.randint(1, 3)
    rel = kind.startswith("RelPos")
    f = _f(heads * 2 if rel else rng.randint(1, 4))
    proj = rng.choice([None, _f(rng.randint(1, 4), "proj")])
    dk, dv = 2 * rng.randint(2, 3), rng.randint(1, 3)
    kd, vd = _f(heads * dk, "key"), _f(heads * dv, "val")
    kw = dict(key_dim_total=kd, value_dim_total=vd, num_heads=heads, with_bias=rng.random() < 0.6)
    case.desc(layer=kind, heads=heads, f=f.dimension, dk=dk, dv=dv, proj=proj and proj.dimension, bias=kw["with_bias"])
    opts = {}
    if rel:
        opts = dict(with_linear_pos=rng.random() < 0.5, with_pos_bias=rng.random() < 0.5, learnable_pos_emb=rng.random() < 0.4, learnable_pos_emb_clipping=rng.choice([1, 2, 16]), separate_pos_emb_per_head=rng.random() < 0.5)
        case.desc(**opts)
    enc = _f(rng.randint(1, 3), "enc")
    mod = rf.CrossAttention(enc, f, proj, **kw) if kind == "CrossAttention" else getattr(rf, kind)(f, proj, **kw, **opts)
    _rand(case, mod)
    env = _env(case, num_dyn=2)
    t, et = env.dyn
    x, sq = env.make([t, f])

    def lin(m, v, in_dim):
        o = [d for d in m.weight.dims if d != in_dim] or [in_dim]
        y = v @ _np(m.weight.copy_transpose([in_dim] + o))
        return y + _np(m.bias) if m.bias is not None else y

    if kind == "CrossAttention":
        e, esq = env.make([et, enc])
        out = mod(x, mod.transform_encoder(e, axis=et))
    else:
        out = mod(x, axis=t)
        if "Causal" in kind:
            out = out[0]
    exp = []
    for i, s in enumerate(sq):
        n = len(s)
        if kind == "CrossAttention":
            q = lin(mod.q, s, f).reshape(n, heads, dk)
            kv = lin(mod.kv, esq[i], enc).reshape(len(esq[i]), heads, dk + dv)
            k, v = kv[..., :dk], kv[..., dk:]
        else:
            qkv = lin(mod.qkv, s, f).reshape(n, heads, 2 * dk + dv)
            q, k, v = qkv[..., :dk], qkv[..., dk : 2 * dk], qkv[..., 2 * dk :]
        if kind.startswith("Rotary"):
            q, k = _rope(q, range(n)), _rope(k, range(n))
        if rel:
            u = _np(mod.pos_bias_u) if opts["with_pos_bias"] else 0.0
            vb = _np(mod.pos_bias_v) if opts["with_pos_bias"] else 0.0
            pd = f.dimension if opts["with_linear_pos"] else heads * dk if opts["separate_pos_emb_per_head"] else dk
            scores = numpy.einsum("qhd,khd->hqk", q + u, k)
            for a in range(n):
                for b in range(n):
                    r = b - a
                    if opts["learnable_pos_emb"]:
                        c = opts["learnable_pos_emb_clipping"]
                        p = _np(mod.learned_pos_emb.pos_emb)[min(max(r, -c), c) + c]
                    else:
                        ang = r * 10000.0 ** (-2.0 * numpy.arange(pd // 2) / pd)
                        p = numpy.concatenate([numpy.sin(ang), numpy.cos(ang)])
                    if opts["with_linear_pos"]:
                        p = lin(mod.linear_pos, p, f)
                    if opts["separate_pos_emb_per_head"]:
                        p = p.reshape(heads, dk)
                    scores[:, a, b] += ((q[a] + vb) * p).sum(axis=-1)
        else:
            scores = numpy.einsum("qhd,khd->hqk", q, k)
        scores = scores * dk**-0.5
        if "Causal" in kind:
            scores = numpy.where(numpy.tri(n, dtype=bool)[None], scores, -numpy.inf)
        att = numpy.einsum("hqk,khd->qhd", _softmax(scores), v).reshape(n, heads * dv)
        exp.append(lin(mod.proj, att, vd) if proj else att)
    S.check(case, env, out, [t, proj or vd], exp, kind, tol=1e-8)


def norm(case):
    import numpy
    import returnn.frontend as rf

    rng = case.rng
    _f, _rand, _ = _tools()
    kind = rng.choice(["LayerNorm", "LayerNorm2", "RMSNorm", "GroupNorm", "BatchNormEval", "Normalize", "normalize"])
    f = _f(rng.choice([2, 4, 6]))
    g2 = _f(rng.randint(2, 3), "g")
    bias = rng.random() < 0.6
    eps = rng.choice([1e-6, 1e-3, 0.1])
    case.desc(layer=kind, f=f.dimension, bias=bias, eps=eps)
    dims2 = None
    if kind == "LayerNorm":
        mod = rf.LayerNorm(f, eps=eps, with_bias=bias)
    elif kind == "LayerNorm2":
        mod, dims2 = rf.LayerNorm([f, g2], eps=eps, with_bias=bias), [f, g2]
    elif kind == "RMSNorm":
        mod = rf.RMSNorm(f, eps=eps, with_bias=bias)
    elif kind == "GroupNorm":
        groups = rng.choice([1, 2])
        mod = rf.GroupNorm(f, num_groups=groups, eps=eps)
    elif kind == "BatchNormEval":
        mod = rf.BatchNorm(f, eps=eps, affine=bias, use_mask=rng.choice([True, False, None]))
    elif kind == "Normalize":
        mod = rf.Normalize(param_dims=f, epsilon=eps, scale=rng.random() < 0.7, bias=bias)
    else:
        mod = None
    _rand(case, mod)
    env = _env(case, num_dyn=1, min_len=2)
    t = env.dyn[0]
    dims = [t] + (dims2 or [f])
    x, sq = env.make(dims, feature_dim=f)
    axis = rng.choice([[t], [f], [t, f]])
    if kind == "Normalize":
        out = mod(x, axis=axis)
    elif kind == "normalize":
        out = rf.normalize(x, axis=axis if len(axis) > 1 or rng.random() < 0.5 else axis[0], epsilon=eps)
    else:
        out = mod(x)
    exp = []
    for s in sq:
        if kind in ("LayerNorm", "LayerNorm2"):
            ax = tuple(range(1, s.ndim))
            y = (s - s.mean(axis=ax, keepdims=True)) / numpy.sqrt(s.var(axis=ax, keepdims=True) + eps) * _np(mod.scale)
            y = y + _np(mod.bias) if bias else y
        elif kind == "RMSNorm":
            y = s / numpy.sqrt((s**2).mean(axis=-1, keepdims=True) + eps) * _np(mod.scale)
            y = y + _np(mod.bias) if bias else y
        elif kind == "GroupNorm":
            z = s.reshape(len(s), groups, -1)
            y = ((z - z.mean(axis=-1, keepdims=True)) / numpy.sqrt(z.var(axis=-1, keepdims=True) + eps)).reshape(s.shape) * _np(mod.scale) + _np(mod.bias)
        elif kind == "BatchNormEval":
            y = (s - _np(mod.running_mean)) / numpy.sqrt(_np(mod.running_variance) + eps)
            y = y * _np(mod.gamma) + _np(mod.beta) if bias else y
        else:
            ax = tuple({t: 0, f: 1}[a] for a in axis)
            y = (s - s.mean(axis=ax, keepdims=True)) / numpy.sqrt(s.var(axis=ax, keepdims=True) + eps)
            if kind == "Normalize":
                y = y * _np(mod.scale) if mod.scale is not None else y
                y = y + _np(mod.bias) if mod.bias is not None else y
        exp.append(y)
    # the masked mean uses a float32 factor
    S.check(case, env, out, dims, exp, kind, tol=1e-4 if "ormalize" in kind else 1e-9)


def batch_norm_train(case):
    import numpy
    import returnn.frontend as rf

    rng = case.rng
    _f, _rand, _extra = _tools()
    f = _f(rng.randint(1, 4))
    extra = _extra(case)
    use_mask = rng.choice([True, True, None, False])
    momentum, eps, affine, track = rng.choice([0.1, 0.3, 1.0]), rng.choice([1e-3, 1e-5]), rng.random() < 0.6, rng.random() < 0.8
    case.desc(layer="BatchNorm", use_mask=use_mask, momentum=momentum, eps=eps, affine=affine, track=track)
    mod = rf.BatchNorm(f, use_mask=use_mask, momentum=momentum, eps=eps, affine=affine, track_running_stats=track)
    _rand(case, mod)
    from returnn.tensor import Dim

    env = S.Env(case, num_dyn=1, min_len=2)
    case.desc(nb=env.nb, lens=list(env.lens.values()))
    t = env.dyn[0]
    for step in range(rng.randint(1, 3)):
        train = rng.random() < 0.75
        rf.init_train_step_run_ctx(train_flag=train) if train else rf.init_forward_step_run_ctx()
        x, sq = env.make([t] + extra + [f], feature_dim=f)
        mean0, var0 = (_np(mod.running_mean).copy(), _np(mod.running_variance).copy()) if track else (None, None)
        out = mod(x)
        if use_mask is not False:
            flat = numpy.concatenate([s.reshape(-1, f.dimension) for s in sq])
        else:  # all frames including the padding
            flat = _np(x.copy_transpose([d for d in x.dims if d != f] + [f])).reshape(-1, f.dimension)
        if train or not track:
            m, v = flat.mean(axis=0), flat.var(axis=0)
        else:
            m, v = mean0, var0
        exp = []
        for s in sq:
            y = (s - m) / numpy.sqrt(v + eps)
            exp.append(y * _np(mod.gamma) + _np(mod.beta) if affine else y)
        S.check(case, env, out, [t] + extra + [f], exp, "BatchNorm train=%s" % train, tol=1e-5)
        if track:
            new_m, new_v = _np(mod.running_mean), _np(mod.running_variance)
            if train:
                case.require(numpy.allclose(new_m, (1 - momentum) * mean0 + momentum * m, rtol=1e-5, atol=1e-5), "BatchNorm: running mean", got=new_m.tolist(), expected=((1 - momentum) * mean0 + momentum * m).tolist())
                if use_mask is not False and env.lens and t.need_masking():
                    case.require(numpy.allclose(new_v, (1 - momentum) * var0 + momentum * v, rtol=1e-5, atol=1e-5), "BatchNorm: running variance", got=new_v.tolist(), expected=((1 - momentum) * var0 + momentum * v).tolist())
                case.count("bn_train")
            else:
                case.require((new_m == mean0).all() and (new_v == var0).all(), "BatchNorm: running statistics changed in eval mode")
                case.count("bn_eval")
    rf.init_forward_step_run_ctx()


def dropout(case):
    import numpy
    import torch
    import returnn.frontend as rf

    rng = case.rng
    _f, _, _extra = _tools()
    f = _f(rng.choice([4, 20, 50]))
    p = rng.choice([0.0, 0.1, 0.3, 0.5, 0.9])
    env = S.Env(case, num_dyn=1, min_len=3, max_len=10)
    t = env.dyn[0]
    extra = _extra(case)
    dims = [t] + extra + [f]
    x, sq = env.make(dims, feature_dim=f, gen=lambda shape: env.np.uniform(0.5, 2.0, size=shape))
    axis = rng.choice([None, False, f, [f], [t, f], [env.batch, f]])
    train, on_forward = rng.random() < 0.7, rng.random() < 0.3
    case.desc(layer="dropout", p=p, nb=env.nb, lens=list(env.lens.values()), axis=str(axis), train=train, on_forward=on_forward)
    rf.init_train_step_run_ctx(train_flag=train) if train else rf.init_forward_step_run_ctx()
    torch.manual_seed(rng.randrange(1 << 30))
    out = rf.dropout(x, p, axis=axis, on_forward=on_forward)
    rf.init_forward_step_run_ctx()
    if not (train or on_forward) or p == 0:
        S.check(case, env, out, dims, sq, "dropout when not training")
        return
    got = S.seqs(env, out, dims)
    ratio = [g / s for g, s in zip(got, sq)]
    k = 1 / (1 - p)
    zeros = total = 0
    for r in ratio:
        ok = numpy.isclose(r, 0) | numpy.isclose(r, k, rtol=1e-6)
        case.require(ok.all(), "dropout: a value is neither dropped nor scaled by 1/keep_prob", got=r[~ok].ravel()[:5].tolist(), expected=k)
    noise = dims if axis in (None, False) else [axis] if not isinstance(axis, list) else axis
    ratio = [numpy.isclose(r, 0) for r in ratio]
    # the mask is the same along all other axes
    for r in ratio:
        for i, d in enumerate(dims):
            if d not in noise:
                case.require((r == r[(slice(None),) * i + (slice(0, 1),)]).all(), f"dropout axis={axis}: mask differs along {d}")
    if env.batch not in noise and axis not in (None, False):
        for r in ratio[1:]:
            n = [min(a, b) for a, b in zip(r.shape, ratio[0].shape)]
            sl = tuple(slice(0, a) for a in n)
            case.require((r[sl] == ratio[0][sl]).all(), f"dropout axis={axis}: mask differs between sequences")
    num = int(numpy.prod([d.dimension or 1 for d in noise if d.dimension] or [1]))
    zeros = sum(int(r.sum()) for r in ratio)
    total = sum(r.size for r in ratio)
    eff = total if axis in (None, False) else f.dimension
    # very loose bound: 6 sigma
    sigma = (p * (1 - p) / eff) ** 0.5
    case.require(abs(zeros / total - p) <= 7 * sigma + 1e-9, f"dropout {p}: fraction of dropped values {zeros / total}", n=eff)
    case.count("dropout_train")
    case.count("results")


def specaugment(case):
    import numpy
    import torch
    import returnn.frontend as rf

    rng = case.rng
    _f, _, _extra = _tools()
    f = _f(rng.choice([5, 10, 20]))
    env = S.Env(case, num_dyn=1, min_len=2, max_len=30)
    t = env.dyn[0]
    x, sq = env.make([t, f], feature_dim=f, gen=lambda shape: env.np.uniform(0.5, 2.0, size=shape))
    train, only = rng.random() < 0.7, rng.random() < 0.7
    kw = dict(only_on_train=only, max_consecutive_spatial_dims=rng.choice([0, 1, 3]), max_consecutive_feature_dims=rng.choice([None, 1, 3]), num_spatial_mask_factor=rng.choice([100, 5]), global_train_step_dependent=rng.random() < 0.6)
    step = rng.choice([0, 500, 1500, 5000])
    case.desc(layer="specaugment", nb=env.nb, lens=list(env.lens.values()), train=train, step=step, **kw)
    rf.init_train_step_run_ctx(train_flag=train, step=step) if train else rf.init_forward_step_run_ctx(step=step)
    torch.manual_seed(rng.randrange(1 << 30))
    out = rf.audio.specaugment(x, spatial_dim=t, feature_dim=rng.choice([None, f]), **kw)
    rf.init_forward_step_run_ctx()
    if not train and only:
        S.check(case, env, out, [t, f], sq, "specaugment when not training")
        return
    got = S.seqs(env, out, [t, f])
    s1, s2 = (1, 1) if not kw["global_train_step_dependent"] else (int(step >= 1000), int(step >= 2000))
    max_len = max(env.lens[t])
    max_t = min(max(max_len // kw["num_spatial_mask_factor"], 2) * (1 + s1 + s2 * 2), max_len) * kw["max_consecutive_spatial_dims"]
    fmax = kw["max_consecutive_feature_dims"] or f.dimension // 5
    max_f = (2 + s1 + 2 * s2) * fmax
    for b, (g, s) in enumerate(zip(got, sq)):
        z = g == 0
        case.require((z | (g == s)).all(), "specaugment: a value is neither kept nor masked")
        rows, cols = z.all(axis=1), z.all(axis=0)
        case.require((z == (rows[:, None] | cols[None])).all() or z.all(), "specaugment: mask is not made of whole frames and whole features", seq=b)
        if not z.all():
            case.require(rows.sum() <= max_t, "specaugment: too many frames masked", got=int(rows.sum()), bound=max_t)
            case.require(cols.sum() <= max_f, "specaugment: too many features masked", got=int(cols.sum()), bound=max_f)
            case.count("masked_frames", int(rows.sum()))
            case.count("masked_features", int(cols.sum()))
            if s1 and fmax:
                case.require(cols.sum() >= 1 , "specaugment: no feature masked although at least one mask is required", seq=b)
    case.count("specaugment_train")
    case.count("results")


def signal(case):
    import numpy
    import returnn.frontend as rf

    rng = case.rng
    _f, _, _ = _tools()
    kind = rng.choice(["stft", "stft", "mel", "logmel"])
    if kind == "stft":
        fl = rng.randint(4, 20)
        fft = rng.choice([None, fl, fl + rng.randint(1, 8)])
        kw = dict(frame_step=rng.randint(1, fl), frame_length=fl, fft_length=fft, window_use_frame_length=rng.random() < 0.6, align_window_left=rng.random() < 0.6, window_enforce_even=rng.random() < 0.5)
        case.desc(layer=kind, **kw)
        env = _env(case, num_dyn=1, min_len=40, max_len=80)
        t = env.dyn[0]
        x, sq = env.make([t])
        out, sp, fd = rf.stft(x, in_spatial_dim=t, **kw)
        exp = [_np_stft(s, **kw) for s in sq]
        S.check(case, env, rf.abs(out), [sp, fd], [numpy.abs(e) for e in exp], "stft magnitude", tol=1e-5)
        S.check(case, env, out, [sp, fd], exp, "stft", tol=1e-5)
    elif kind == "mel":
        n_fft, nf, sr = rng.choice([32, 64, 128]), rng.randint(3, 20), rng.choice([1000, 8000, 16000])
        fmin, fmax = rng.choice([(None, None), (20, None), (50, sr * 0.4)])
        case.desc(layer=kind, n_fft=n_fft, nf=nf, sr=sr, fmin=fmin, fmax=fmax)
        env = _env(case, num_dyn=1)
        i, o = _f(n_fft // 2 + 1, "freq"), _f(nf, "mel")
        x, sq = env.make([env.dyn[0], i])
        out = rf.audio.mel_filterbank(x, in_dim=i, out_dim=o, sampling_rate=sr, fft_length=rng.choice([None, n_fft]), f_min=fmin, f_max=fmax)
        m = _np_mel(fmin or 0, fmax or sr / 2, sr, n_fft, nf)
        S.check(case, env, out, [env.dyn[0], o], [s @ m for s in sq], "mel_filterbank", tol=1e-3)
    else:
        sr, wl, sl, nf, base = rng.choice([1000, 2000]), 0.025, rng.choice([0.01, 0.0125]), rng.choice([4, 6]), rng.choice([10, 2.0])
        case.desc(layer=kind, sr=sr, sl=sl, nf=nf, base=base)
        env = _env(case, num_dyn=1, min_len=60, max_len=120)
        t, o = env.dyn[0], _f(nf, "mel")
        x, sq = env.make([t])
        out, sp = rf.audio.log_mel_filterbank_from_raw(x, in_spatial_dim=t, out_dim=o, sampling_rate=sr, window_len=wl, step_len=sl, log_base=base)
        w, h = int(wl * sr), int(sl * sr)
        n_fft = 1
        while n_fft < w:
            n_fft *= 2
        m = _np_mel(0, sr / 2, sr, n_fft, nf)
        exp = [numpy.log(numpy.maximum((numpy.abs(_np_stft(s, frame_step=h, frame_length=w, fft_length=n_fft)) ** 2) @ m, 1e-10)) / numpy.log(base) for s in sq]
        S.check(case, env, out, [sp, o], exp, "log_mel_filterbank_from_raw", tol=2e-3)


def _np_stft(x, *, frame_step, frame_length, fft_length=None, window_use_frame_length=True, align_window_left=True, window_enforce_even=True):
    import numpy

    fft = fft_length or frame_length
    wlen = frame_length - frame_length % 2 if window_enforce_even else frame_length
    win = 0.5 - 0.5 * numpy.cos(2 * numpy.pi * numpy.arange(wlen) / wlen)
    left = 0 if align_window_left else (fft - wlen) // 2
    w = numpy.zeros(fft)
    w[left : left + wlen] = win
    size = frame_length if window_use_frame_length else fft
    n = -(-(len(x) - size + 1) // frame_step)
    xp = numpy.concatenate([x, numpy.zeros(fft)])
    return numpy.stack([numpy.fft.rfft(xp[i * frame_step : i * frame_step + fft] * w) for i in range(n)])


def _np_mel(fmin, fmax, sr, n_fft, nf):
    import numpy

    mel = lambda fr: 1125.0 * numpy.log(1 + fr / 700.0)
    pts = 700.0 * (numpy.exp(numpy.linspace(mel(fmin), mel(fmax), nf + 2) / 1125.0) - 1) * n_fft / sr
    bins = numpy.arange(n_fft // 2 + 1)
    return numpy.stack([numpy.interp(bins, pts[i : i + 3], [0.0, 1.0, 0.0], left=0.0, right=0.0) for i in range(nf)], axis=1)


def pos_enc(case):
    import numpy
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Tensor, single_step_dim

    rng = case.rng
    _f, _, _ = _tools()
    f = _f(2 * rng.randint(2, 6))
    env = _env(case, num_dyn=2)
    t, t2 = env.dyn
    base = rng.choice([1e4, 100.0])
    case.desc(layer="sinusoidal", f=f.dimension, base=base)
    off_kind = rng.choice(["none", "int", "tensor", "per_seq"])
    offs = [0] * env.nb
    off = None
    if off_kind == "int":
        off = rng.randint(0, 9)
        offs = [off] * env.nb
    elif off_kind == "tensor":
        v = rng.randint(0, 9)
        off, offs = Tensor("off", [], "int32", raw_tensor=torch.tensor(v, dtype=torch.int32)), [v] * env.nb
    elif off_kind == "per_seq":
        offs = [rng.randint(0, 9) for _ in range(env.nb)]
        off = Tensor("off", [env.batch], "int32", raw_tensor=torch.tensor(offs, dtype=torch.int32))
    single = off is not None and rng.random() < 0.4
    case.desc(off=off_kind, single=single)

    def ref(pos):
        n = f.dimension // 2
        ang = numpy.asarray(pos)[..., None] * base ** (-numpy.arange(n) / (n - 1))
        return numpy.concatenate([numpy.sin(ang), numpy.cos(ang)], axis=-1)

    for _ in range(2):  # second time from the cache
        out = rf.sinusoidal_positional_encoding(spatial_dim=single_step_dim if single else t, feat_dim=f, offset=off, base=base)
        if single:
            S.check(case, env, out, [f], [ref(o) for o in offs], "sinusoidal_positional_encoding single step", tol=1e-8)
        else:
            S.check(case, env, out, [t, f], [ref(numpy.arange(n) + o) for n, o in zip(env.lens[t], offs)], "sinusoidal_positional_encoding", tol=1e-8)


def pos_enc_cache(case):
    """long history of calls: the internal caches must never give a result for other sizes/dims"""
    import gc
    import numpy
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Tensor, Dim, single_step_dim

    rng = case.rng
    _f, _, _ = _tools()
    env = _env(case, num_dyn=0)
    alive, feats = [], [_f(n) for n in (4, 4, 6)]
    n_calls = rng.randint(20, 60)
    case.desc(layer="pos_enc_history", n=n_calls, s=rng.randrange(1 << 30))

    def dim():
        if alive and rng.random() < 0.5:
            return rng.choice(alive)
        r = rng.random()
        if r < 0.3:
            d = Dim(rng.randint(1, 6), name="st")
            env.lens[d] = [d.dimension] * env.nb
        elif r < 0.6:
            n = rng.randint(1, 6)
            d = Dim(Tensor("len", [], "int32", raw_tensor=torch.tensor(n, dtype=torch.int32)), name="sc")
            env.lens[d] = [n] * env.nb
        else:
            d = env.new_dyn("dyn", lens=[rng.randint(1, 6) for _ in range(env.nb)])
        alive.append(d)
        return d

    def sincos(pos, freq):
        ang = numpy.asarray(pos)[..., None] * freq
        return numpy.concatenate([numpy.sin(ang), numpy.cos(ang)], axis=-1)

    for _ in range(n_calls):
        if rng.random() < 0.3 and alive:  # dims go out of scope
            d = alive.pop(rng.randrange(len(alive)))
            env.lens.pop(d)
            del d
            if rng.random() < 0.5:
                gc.collect()
        f = rng.choice(feats)
        if rng.random() < 0.2:
            feats[rng.randrange(3)] = f = _f(rng.choice([4, 6]))
        n = f.dimension // 2
        if rng.random() < 0.5:
            off = rng.choice([None, 0, 1, 2, 3])
            d = dim()
            out = rf.sinusoidal_positional_encoding(spatial_dim=d, feat_dim=f, offset=off)
            S.check(case, env, out, [d, f], [sincos(numpy.arange(k) + (off or 0), 1e4 ** (-numpy.arange(n) / (n - 1))) for k in env.lens[d]], "sinusoidal_positional_encoding in a history of calls", tol=1e-8)
        else:
            d = dim()
            if rng.random() < 0.5:
                d2 = d
            else:
                d2 = dim()
            single = rng.random() < 0.3
            out, od = rf.relative_positional_encoding(query_spatial_dim=single_step_dim if single else d, key_value_spatial_dim=d2, feat_dim=f)
            freq = 10000.0 ** (-2.0 * numpy.arange(n) / f.dimension)
            if single:
                S.check(case, env, out, [d2, f], [sincos(numpy.arange(k) - (k - 1), freq) for k in env.lens[d2]], "relative_positional_encoding single step in a history of calls", tol=1e-8)
            else:
                a, b = max(env.lens[d]), max(env.lens[d2])
                case.require(set(out.dims) == {od, f}, f"relative_positional_encoding: dims {out.dims}")
                got = _np(out.copy_transpose([od, f]))
                exp = sincos(numpy.arange(-(a - 1), b), freq)
                case.require(got.shape == exp.shape and numpy.allclose(got, exp, rtol=1e-8, atol=1e-8), "relative_positional_encoding in a history of calls", shape=list(got.shape), expected=list(exp.shape))
                case.count("results")
            del d2, od
        del d, out
    case.count("history_calls", n_calls)


def linear(case):
    import numpy
    import returnn.frontend as rf

    rng = case.rng
    _f, _rand, _extra = _tools()
    env = _env(case, num_dyn=2)
    t = env.dyn[0]
    i, o = _f(rng.randint(1, 5), "in"), _f(rng.randint(1, 5), "out")
    extra = _extra(case) + ([env.dyn[1]] if rng.random() < 0.3 else [])
    kind = rng.choice(["Linear", "LinearSame", "Embedding", "FeedForward", "FeedForwardGated"])
    if kind == "LinearSame":
        o = i
    bias = rng.random() < 0.6
    case.desc(layer=kind, i=i.dimension, o=o.dimension, bias=bias)
    if kind.startswith("Linear"):
        mod = rf.Linear(i, o, with_bias=bias)
    elif kind == "Embedding":
        mod = rf.Embedding(i, o)
    else:
        from returnn.frontend.decoder.transformer import FeedForward, FeedForwardGated

        act = rng.choice([rf.relu, rf.swish])
        o = i
        mod = FeedForward(i, ff_dim=rng.randint(1, 4), activation=act, with_bias=bias) if kind == "FeedForward" else FeedForwardGated(i, ff_dim=rng.randint(1, 4), activation=act, with_bias=bias)
    _rand(case, mod)
    sparse = kind in ("Embedding",)
    x, sq = env.make([t] + extra + ([] if sparse else [i]), sparse_dim=i if sparse else None)
    out = mod(x)
    exp = []
    for s in sq:
        if sparse:
            w = _np(mod.weight.copy_transpose([i, o]))
            y = w[s]
        elif kind.startswith("Linear"):
            w = _np(mod.weight) if o == i else _np(mod.weight.copy_transpose([i, o]))
            y = s @ w + (_np(mod.bias) if bias else 0.0)
        else:
            a = (lambda v: numpy.maximum(v, 0)) if act is rf.relu else (lambda v: v * _sigmoid(v))
            w1, w2 = _np(mod.linear_ff.weight), _np(mod.linear_out.weight)
            z = s @ w1 + (_np(mod.linear_ff.bias) if bias else 0.0)
            if kind == "FeedForward":
                z = a(z)
            else:
                n = z.shape[-1] // 2
                z = a(z[..., :n]) * z[..., n:]
            y = z @ w2 + (_np(mod.linear_out.bias) if bias else 0.0)
        exp.append(y)
    S.check(case, env, out, [t] + extra + [o], exp, kind)


KINDS = {
    "conv": {"func": conv, "quick": 240, "thorough": 1000},
    "pool": {"func": pool, "quick": 240, "thorough": 1000},
    "lstm": {"func": lstm, "quick": 180, "thorough": 600},
    "attention": {"func": attention, "quick": 480, "thorough": 2000},
    "norm": {"func": norm, "quick": 240, "thorough": 1000},
    "batch_norm_train": {"func": batch_norm_train, "quick": 180, "thorough": 600},
    "dropout": {"func": dropout, "quick": 180, "thorough": 600},
    "specaugment": {"func": specaugment, "quick": 180, "thorough": 600},
    "signal": {"func": signal, "quick": 180, "thorough": 600},
    "pos_enc": {"func": pos_enc, "quick": 180, "thorough": 500},
    "pos_enc_cache": {"func": pos_enc_cache, "quick": 96, "thorough": 400},
    "linear": {"func": linear, "quick": 240, "thorough": 800},
}
