"""C19: RF functional ops on padded batches give for every sequence what the op on this sequence alone gives."""
from vlib import rfseq as S

RULE = (
    "case = one random op of returnn.frontend with random options on tensors with random named dims (static, dynamic, with and without batch), dim order, memory layout and dtype, "
    "garbage in all padded frames; the result (torch backend) is compared per sequence, restricted to the valid frames, with a numpy reference on the unpadded sequence, "
    "including the sizes of created dims. Distinct by case description."
)
ASSUMPTIONS = ["behaviour version 24 (latest); eager PyTorch backend; float64", "frames behind the end of a sequence are not looked at"]
MIN_COUNTS = {"results": 1500, "padded_results": 300}
BUDGET = {"quick": 300, "thorough": 1500}


def worker_init():
    S.init()


def _lse(x, axis):
    import numpy

    m = x.max(axis=axis, keepdims=True)
    return (numpy.log(numpy.exp(x - m).sum(axis=axis, keepdims=True)) + m).squeeze(axis)


def _env(case, **kw):
    env = S.Env(case, **kw)
    case.desc(nb=env.nb, lens=list(env.lens.values()))
    return env


# --- reduce ---


def reduce(case):
    import numpy
    import returnn.frontend as rf

    rng = case.rng
    env = _env(case)
    dims = rng.sample([env.dyn[0], env.dyn[1], env.static(), env.static(name="g")], rng.randint(1, 4))
    batch = any(d in env.lens for d in dims) or rng.random() < 0.7
    mode = rng.choice(["sum", "max", "min", "mean", "logsumexp", "logmeanexp", "any", "all", "argmin", "argmax"])
    dtype = "bool" if mode in ("any", "all") else rng.choice(["float64", "float32", "int32"] if mode in ("sum", "max", "min", "argmax", "argmin") else ["float64"])
    t, sq = env.make(dims, batch=batch, dtype=dtype)
    k = 1 if mode.startswith("arg") else rng.randint(1, len(dims))
    red = rng.sample(dims, k)
    with_batch = batch and mode not in ("argmin", "argmax") and rng.random() < 0.25
    axes = tuple(dims.index(d) for d in red)
    rest = [d for d in dims if d not in red]
    case.desc(op="reduce_" + mode, dims=len(dims), red=len(red), dtype=dtype, batch=batch, over_batch=with_batch)
    if with_batch and any(d in env.lens for d in rest):
        red, axes, rest = list(dims), tuple(range(len(dims))), []
    axis = red if len(red) > 1 or with_batch or rng.random() < 0.5 else red[0]
    if with_batch:
        axis = list(red) + [env.batch]
        rng.shuffle(axis)
    out = getattr(rf, "reduce_" + mode)(t, axis=axis) if mode == "logmeanexp" or rng.random() < 0.7 else rf.reduce(t, mode=mode, axis=axis)
    f = {
        "sum": lambda x, a: x.sum(axis=a), "max": lambda x, a: x.max(axis=a), "min": lambda x, a: x.min(axis=a), "mean": lambda x, a: x.mean(axis=a),
        "logsumexp": lambda x, a: numpy.log(numpy.exp(x).sum(axis=a)), "logmeanexp": lambda x, a: numpy.log(numpy.exp(x).mean(axis=a)),
        "any": lambda x, a: x.any(axis=a), "all": lambda x, a: x.all(axis=a), "argmin": lambda x, a: x.argmin(axis=a[0]), "argmax": lambda x, a: x.argmax(axis=a[0]),
    }[mode]
    if with_batch:
        # move the reduced axes to one flat axis and concatenate over the sequences
        flat = [numpy.moveaxis(x, axes, range(len(axes))).reshape((-1,) + tuple(x.shape[i] for i in range(x.ndim) if i not in axes)) for x in sq]
        exp = [f(numpy.concatenate(flat, axis=0), (0,))] * env.nb
    else:
        exp = [f(x, axes) for x in sq]
    if mode.startswith("arg"):
        # ties: any index of the extreme value is fine
        got = S.seqs(env, out, rest)
        for g, x in zip(got, sq):
            a = axes[0]
            v = numpy.take_along_axis(x, numpy.expand_dims(g.astype("int64"), a), axis=a).squeeze(a)
            case.require(numpy.array_equal(v, (x.max if mode == "argmax" else x.min)(axis=a)), f"reduce_{mode}: not the index of the extreme value", got=g.tolist(), x=x.tolist())
        case.require(out.sparse_dim == red[0], "reduce_arg: sparse_dim")
        case.count("results")
        return
    S.check(case, env, out, rest, exp, f"reduce_{mode} over {len(red)} axes", tol=1e-4 if dtype == "float32" else 1e-6 if mode == "mean" else 1e-9, dtype=dtype if mode != "sum" else None)


# --- math / elementwise along an axis ---


def math(case):
    import numpy
    import returnn.frontend as rf

    rng = case.rng
    env = _env(case)
    f = env.static()
    dims = rng.choice([[env.dyn[0], f], [env.dyn[0]], [f], [env.dyn[0], env.dyn[1]], [env.dyn[0], f, env.static(name="g")]])
    batch = any(d in env.lens for d in dims) or rng.random() < 0.7
    op = rng.choice(["softmax", "log_softmax", "cumsum", "unary", "unary", "where", "clip", "lerp", "moments", "normalize", "cast", "range", "linspace", "mask", "num_elements", "last_frame", "masked"])
    case.desc(op=op, dims=len(dims), batch=batch)
    t, sq = env.make(dims, batch=batch)
    ax = rng.choice(dims)
    a = dims.index(ax)
    if op in ("softmax", "log_softmax"):
        out = getattr(rf, op)(t, axis=ax)

        def ref(x):
            y = x - x.max(axis=a, keepdims=True)
            y = y - numpy.log(numpy.exp(y).sum(axis=a, keepdims=True))
            return numpy.exp(y) if op == "softmax" else y

        S.check(case, env, out, dims, [ref(x) for x in sq], op)
    elif op == "cumsum":
        S.check(case, env, rf.cumsum(t, spatial_dim=ax), dims, [x.cumsum(axis=a) for x in sq], op)
    elif op == "unary":
        import math as m

        def sig(x):
            return 1 / (1 + numpy.exp(-x))

        erf = numpy.vectorize(m.erf, otypes=["float64"])
        name, ref = rng.choice(
            [
                ("exp", numpy.exp), ("expm1", numpy.expm1), ("sin", numpy.sin), ("cos", numpy.cos), ("tanh", numpy.tanh), ("sigmoid", sig), ("log_sigmoid", lambda x: numpy.log(sig(x))),
                ("ceil", numpy.ceil), ("floor", numpy.floor), ("abs", numpy.abs), ("square", numpy.square), ("neg", numpy.negative), ("relu", lambda x: numpy.maximum(x, 0)),
                ("relu_square", lambda x: numpy.maximum(x, 0) ** 2), ("elu", lambda x: numpy.where(x > 0, x, numpy.expm1(x))), ("silu", lambda x: x * sig(x)), ("gelu", lambda x: x * 0.5 * (1 + erf(x / m.sqrt(2)))),
                ("reciprocal", lambda x: 1 / x), ("identity", lambda x: x), ("round", numpy.round), ("is_finite", numpy.isfinite), ("is_infinite", numpy.isinf), ("is_neg_infinite", numpy.isneginf),
                ("selu", lambda x: 1.0507009873554805 * numpy.where(x > 0, x, 1.6732632423543772 * numpy.expm1(x))),
                ("log", None), ("log1p", None), ("sqrt", None), ("rsqrt", None), ("safe_log", None),
            ]
        )
        case.desc(func=name)
        if ref is None:
            t, sq = env.make(dims, batch=batch, gen=lambda shape: numpy.abs(env.values(shape)) + 0.1)
            ref = {"log": numpy.log, "log1p": numpy.log1p, "sqrt": numpy.sqrt, "rsqrt": lambda x: x**-0.5, "safe_log": numpy.log}[name]
        if name.startswith("is_"):
            t, sq = env.make(dims, batch=batch, gen=lambda shape: env.np.choice([0.0, 1.5, numpy.inf, -numpy.inf], size=shape))
        S.check(case, env, getattr(rf, name)(t), dims, [ref(x) for x in sq], name)
    elif op == "where":
        cond, csq = env.make(dims[: rng.randint(0, len(dims))], batch=batch, dtype="bool")
        other, osq = env.make(dims, batch=batch)
        nd = len(cond.dims) - int(batch)
        ex = (lambda c: c.reshape(c.shape + (1,) * (len(dims) - nd)))
        if rng.random() < 0.3:
            S.check(case, env, rf.where(cond, t, 0.5), dims, [numpy.where(ex(c), x, 0.5) for c, x in zip(csq, sq)], "where")
        else:
            S.check(case, env, rf.where(cond, t, other), dims, [numpy.where(ex(c), x, y) for c, x, y in zip(csq, sq, osq)], "where")
    elif op == "clip":
        lo, hi = sorted([rng.uniform(-2, 2), rng.uniform(-2, 2)])
        S.check(case, env, rf.clip_by_value(t, lo, hi), dims, [numpy.clip(x, lo, hi) for x in sq], op)
    elif op == "lerp":
        other, osq = env.make(dims, batch=batch)
        w = rng.uniform(0, 1)
        if rng.random() < 0.5:
            wt, wsq = env.make(dims[:1], batch=batch)
            S.check(case, env, rf.lerp(t, other, wt), dims, [x + ww.reshape(ww.shape + (1,) * (len(dims) - 1)) * (y - x) for x, y, ww in zip(sq, osq, wsq)], op)
        else:
            S.check(case, env, rf.lerp(t, other, w), dims, [x + w * (y - x) for x, y in zip(sq, osq)], op)
    elif op == "moments":
        axes = rng.sample(dims, rng.randint(1, len(dims)))
        an = tuple(dims.index(d) for d in axes)
        rest = [d for d in dims if d not in axes]
        corr = rng.choice([0, 0, 1, 0.5])
        if any(int(numpy.prod([x.shape[i] for i in an])) < 2 for x in sq):
            corr = 0
        kw = {"correction": corr} if corr else {}
        if rng.random() < 0.2:
            # without the mask, padding counts, so make it part of the data
            kw["use_mask"] = False
            if any(len({env.size(d, b) for b in range(env.nb)}) > 1 for d in axes if d in env.lens):
                mv = rng.uniform(-2, 2)
                t = t.copy_masked(mv, dims=[d for d in axes if d in env.lens])
                full = [max(env.size(d, b) for b in range(env.nb)) if d in axes else None for d in dims]
                sq = [numpy.pad(x, [(0, (full[i] or x.shape[i]) - x.shape[i]) for i in range(x.ndim)], constant_values=mv) for x in sq]
        mean, var = rf.moments(t, axis=axes if len(axes) > 1 else axes[0], **kw)
        S.check(case, env, mean, rest, [x.mean(axis=an) for x in sq], "moments: mean", tol=1e-6)
        S.check(case, env, var, rest, [x.var(axis=an, ddof=corr) for x in sq], "moments: variance", tol=1e-6)
    elif op == "normalize":
        axes = rng.sample(dims, rng.randint(1, len(dims)))
        an = tuple(dims.index(d) for d in axes)
        eps = 10 ** rng.uniform(-6, -1)
        out = rf.normalize(t, axis=axes if len(axes) > 1 else axes[0], epsilon=eps)
        S.check(case, env, out, dims, [(x - x.mean(axis=an, keepdims=True)) / numpy.sqrt(x.var(axis=an, keepdims=True) + eps) for x in sq], op, tol=1e-6)
    elif op == "cast":
        dt = rng.choice(["int32", "float32", "int64", "bool", "float64"])
        S.check(case, env, rf.cast(t, dt), dims, [x.astype(dt) for x in sq], op, tol=1e-6, dtype=dt)
    elif op == "range":
        st = rng.randint(1, 3)
        if rng.random() < 0.5:
            S.check(case, env, rf.range_over_dim(ax), [ax], [numpy.arange(env.size(ax, b)) for b in range(env.nb)], "range_over_dim")
        else:
            out, od = rf.range_over_dim_strided(ax, stride=st)
            S.check(case, env, out, [od], [numpy.arange(0, env.size(ax, b), st) for b in range(env.nb)], "range_over_dim_strided")
    elif op == "linspace":
        s, e = rng.uniform(-2, 2), rng.uniform(-2, 2)
        out = rf.linspace_over_dim(ax, s, e)
        S.check(case, env, out, [ax], [s + numpy.arange(env.size(ax, b)) / max(env.size(ax, b), 1) * (e - s) for b in range(env.nb)], op)
    elif op == "mask":
        ms = rng.sample(dims, rng.randint(1, len(dims)))
        out = rf.sequence_mask(ms)
        v = out.raw_tensor
        # over the full padded range
        full = {d: int(d.get_dim_value()) for d in out.dims}
        have = list(out.dims)
        arr = v.numpy()
        for idx in numpy.ndindex(*arr.shape):
            pos = dict(zip(have, idx))
            b = pos.get(env.batch)
            exp = True
            for d in ms:
                if d in env.lens and d in pos:
                    bb = b if b is not None else 0
                    exp = exp and pos[d] < env.lens[d][bb]
            case.require(bool(arr[idx]) == exp, "sequence_mask is wrong", pos=[str(x) for x in pos.items()])
        for d in ms:
            case.require(d in have or d not in env.lens or len(set(env.lens[d])) == 1, "sequence_mask: dim missing")
        case.count("results")
    elif op == "num_elements":
        ds_ = list(dims) + ([env.batch] if rng.random() < 0.7 or any(d in env.lens for d in dims) else [])
        tot = 0
        for b in range(env.nb):
            p = 1
            for d in dims:
                p *= env.size(d, b)
            tot += p
        if env.batch not in ds_:
            tot //= env.nb
        got = rf.num_elements_of_shape(ds_)
        got = int(got.raw_tensor) if hasattr(got, "raw_tensor") else int(got)
        case.equal(got, tot, "num_elements_of_shape")
        case.count("results")
    elif op == "last_frame":
        out = rf.last_frame_position_of_dim(ax)
        if isinstance(out, int):
            case.equal(out, env.size(ax, 0) - 1, "last_frame_position_of_dim of a static dim")
            return
        S.check(case, env, out, [], [numpy.array(env.size(ax, b) - 1) for b in range(env.nb)], op)
    elif op == "masked":
        mv = rng.choice([0, -1.5, float("-inf")])
        out = t.copy_masked(mv)
        S.check(case, env, out, dims, sq, "copy_masked: valid frames must not change")
        if any(d in env.lens for d in dims):
            raw = numpy.transpose(out.raw_tensor.numpy(), [list(out.dims).index(d) for d in [env.batch] + dims])
            for b in range(env.nb):
                m = numpy.zeros(raw.shape[1:], bool)
                m[tuple(slice(0, env.size(d, b)) for d in dims)] = True
                case.require((raw[b][~m] == mv).all(), "copy_masked: padded frames must be masked")


# --- matmul ---


def matmul(case):
    import numpy
    import returnn.frontend as rf

    rng = case.rng
    env = _env(case)
    pool = [env.dyn[0], env.dyn[1], env.static(), env.static(name="g"), env.static(name="h")]
    rng.shuffle(pool)
    k = rng.randint(1, 2)
    red = pool[:k]
    rest = pool[k:]
    a_only = [d for d in rest if rng.random() < 0.35]
    rest = [d for d in rest if d not in a_only]
    b_only = [d for d in rest if rng.random() < 0.5]
    shared = [d for d in rest if d not in b_only and rng.random() < 0.5]
    ad, bd = red + a_only + shared, red + b_only + shared
    rng.shuffle(ad)
    rng.shuffle(bd)
    ba = any(d in env.lens for d in ad) or rng.random() < 0.5
    bb = any(d in env.lens for d in bd) or rng.random() < 0.5
    a, asq = env.make(ad, batch=ba)
    b, bsq = env.make(bd, batch=bb)
    case.desc(op="matmul", red=[d in env.lens for d in red], a=len(ad), b=len(bd), shared=len(shared), ba=ba, bb=bb)
    names = {d: chr(ord("a") + i) for i, d in enumerate(pool)}
    out_dims = shared + a_only + b_only
    kw = {}
    if any(d.need_masking() for d in red):
        # the torch backend has no masking in matmul, the caller masks
        kw["use_mask"] = False
        a, b = a.copy_masked(0, dims=red), b.copy_masked(0, dims=red)
    if rng.random() < 0.15 and ba and bb and not any(d in env.lens for d in out_dims):
        # also over batch
        out = rf.matmul(a, b, reduce=red + [env.batch], **kw)
        eq = "".join(names[d] for d in ad) + "," + "".join(names[d] for d in bd) + "->" + "".join(names[d] for d in out_dims)
        e = sum(numpy.einsum(eq, x, y) for x, y in zip(asq, bsq))
        S.check(case, env, out, out_dims, [e] * env.nb, "matmul over batch", tol=1e-8)
        return
    out = rf.matmul(a, b, reduce=red if k > 1 or rng.random() < 0.5 else red[0], **kw)
    eq = "".join(names[d] for d in ad) + "," + "".join(names[d] for d in bd) + "->" + "".join(names[d] for d in out_dims)
    S.check(case, env, out, out_dims, [numpy.einsum(eq, x, y) for x, y in zip(asq, bsq)], "matmul", tol=1e-8)


# --- gather / scatter ---


def gather(case):
    import numpy
    import returnn.frontend as rf

    rng = case.rng
    env = _env(case)
    f = env.static()
    src_dims = rng.choice([[env.dyn[0], f], [env.dyn[0]], [f, env.static(name="g")], [f]])
    ax = rng.choice(src_dims)
    rest = [d for d in src_dims if d != ax]
    batch = any(d in env.lens for d in src_dims) or rng.random() < 0.6
    t, sq = env.make(src_dims, batch=batch)
    mode = rng.choice(["int", "tensor", "tensor", "tensor", "clip"])
    a = src_dims.index(ax)
    case.desc(op="gather", mode=mode, dims=len(src_dims), batch=batch, dyn=ax in env.lens)
    mn = min(env.size(ax, b) for b in range(env.nb))
    if mode == "int":
        i = rng.randrange(mn)
        S.check(case, env, rf.gather(t, indices=i, axis=ax), rest, [numpy.take(x, i, axis=a) for x in sq], "gather int")
        return
    ibatch = rng.random() < 0.6
    extra = rng.choice([[], [env.dyn[1]], [env.static(name="i")], [env.static(name="i"), env.dyn[1]]])
    share = rng.choice([[], rest[:1]]) if rest else []
    idims = extra + share
    rng.shuffle(idims)
    ibatch = ibatch or any(d in env.lens for d in idims)

    def gen_b(b):
        n = env.size(ax, b) if ibatch else mn
        if mode == "clip":
            return env.np.randint(-3, n + 4, size=[env.size(d, b) for d in idims])
        return env.np.randint(0, n, size=[env.size(d, b) for d in idims])

    isq = [gen_b(b) for b in range(env.nb if ibatch else 1)]
    dt = rng.choice(["int32", "int64"])
    idx, isq = env.make(idims, batch=ibatch, dtype=dt, seqs=[i.astype(dt) for i in isq], garbage=0)
    if rng.random() < 0.3:
        idx.sparse_dim = ax
        kw = {}
    else:
        kw = {"axis": ax}
    out = rf.gather(t, indices=idx, clip_to_valid=mode == "clip", **kw)
    out_dims = [d for d in idims] + [d for d in rest if d not in share]

    def ref(x, i):
        if mode == "clip":
            i = numpy.clip(i, 0, x.shape[a] - 1)
        x = numpy.moveaxis(x, a, 0)  # ax, rest...
        if not share:
            return x[i]
        # x: ax, share, rest...; i: idims incl share
        xs = numpy.moveaxis(x, 1 + rest.index(share[0]), 0)  # share, ax, rest...
        si = idims.index(share[0])
        i = numpy.moveaxis(i, si, 0)  # share, other idims
        y = numpy.stack([xs[s][i[s]] for s in range(xs.shape[0])], axis=0)  # share, other idims, rest
        return numpy.moveaxis(y, 0, si)

    S.check(case, env, out, out_dims, [ref(x, i) for x, i in zip(sq, isq)], "gather")


def scatter(case):
    import numpy
    import returnn.frontend as rf

    rng = case.rng
    env = _env(case)
    f = env.static()
    ind_dim = rng.choice([env.dyn[0], env.dyn[0], env.static(name="i")])
    feat = rng.choice([[], [f]])
    out_dim = env.static(rng.randint(1, 5), name="o") if rng.random() < 0.7 else env.dyn[1]
    mode = rng.choice(["sum", "sum", "max", "min", "logsumexp", "logmeanexp", "argmax"])
    dtype = rng.choice(["float64", "int32"]) if mode in ("sum", "max", "min") else "float64"
    t, sq = env.make([ind_dim] + feat, dtype=dtype)
    fill = rng.choice([None, None, 0, -7]) if mode in ("max", "min", "sum", "argmax") else None
    if mode == "argmax" and fill is None:
        fill = -1
    isq = [env.np.randint(0, env.size(out_dim, b), size=[env.size(ind_dim, b)]).astype("int32") for b in range(env.nb)]
    idx, isq = env.make([ind_dim], dtype="int32", seqs=isq, garbage=rng.randrange(min(env.size(out_dim, b) for b in range(env.nb))))
    case.desc(op="scatter", mode=mode, dtype=dtype, dyn_ind=ind_dim in env.lens, dyn_out=out_dim in env.lens, fill=fill, feat=len(feat))
    out = rf.scatter(t, indices=idx, indices_dim=ind_dim, mode=mode, out_dim=out_dim, **({"fill_value": fill} if fill is not None else {}))
    exp = []
    for b, (x, i) in enumerate(zip(sq, isq)):
        n = env.size(out_dim, b)
        e = numpy.zeros((n,) + x.shape[1:], dtype="float64")
        for o in range(n):
            sel = x[i == o]
            if mode == "sum":
                e[o] = sel.sum(axis=0) if len(sel) else (fill or 0)
            elif mode in ("max", "min"):
                if fill is None:
                    lim = {"float64": numpy.inf, "int32": None}[dtype]
                    if dtype == "int32":
                        fv = numpy.iinfo("int32").min if mode == "max" else numpy.iinfo("int32").max
                    else:
                        fv = -lim if mode == "max" else lim
                else:
                    fv = fill
                e[o] = fv if not len(sel) else sel.max(axis=0) if mode == "max" else sel.min(axis=0)
            elif mode == "argmax":
                pos = numpy.where(i == o)[0]
                e[o] = fill if len(pos) == 0 else pos[sel.argmax(axis=0)]
            else:
                with numpy.errstate(divide="ignore"):
                    e[o] = numpy.log(numpy.exp(sel).sum(axis=0))
                    if mode == "logmeanexp" and len(sel):
                        e[o] -= numpy.log(len(sel))
        exp.append(e)
    S.check(case, env, out, [out_dim] + feat, exp, f"scatter {mode}")


# --- slicing, padding, concat, ... ---


def layout(case):
    import numpy
    import returnn.frontend as rf
    from returnn.tensor import Dim

    rng = case.rng
    op = rng.choice(
        ["slice", "slice", "pad", "pad", "pad_value", "pad_ext", "concat", "concat_bc", "stack", "split", "expand", "merge", "split_dims", "shift", "shift", "reverse", "window", "squeeze", "replace", "cum_concat", "reshape", "copy", "merge_split"]
    )
    env = _env(case)
    f = env.static()
    T = env.dyn[0]
    dims = rng.choice([[T, f], [T], [T, f, env.static(name="g")], [T, env.dyn[1]]])
    t, sq = env.make(dims, dtype=rng.choice(["float64", "float64", "int32"]))
    ax = rng.choice(dims)
    a = dims.index(ax)
    case.desc(op=op, dims=len(dims), dyn=ax in env.lens, dtype=t.dtype)
    sizes = [env.size(ax, b) for b in range(env.nb)]
    mn = min(sizes)

    def rep(d):
        return [d if x is ax else x for x in dims]

    def sl(x, s):
        return x[tuple(s if i == a else slice(None) for i in range(x.ndim))]

    if op == "slice":
        kind = rng.choice(["start", "start_end", "end", "step", "size", "neg_end", "size_dim", "start_tensor", "neg_start"])
        if kind == "neg_start" and ax in env.lens:
            kind = "step"  # the last frames of every sequence: not what slice does
        case.desc(kind=kind)
        if kind == "start":
            s = rng.randint(0, mn)
            out, od = rf.slice(t, axis=ax, start=s)
            exp = [sl(x, slice(s, None)) for x in sq]
        elif kind == "start_end":
            s = rng.randint(0, mn)
            e = rng.randint(s, mn)
            out, od = rf.slice(t, axis=ax, start=s, end=e)
            exp = [sl(x, slice(s, e)) for x in sq]
        elif kind == "end":
            e = rng.randint(0, mn)
            out, od = rf.slice(t, axis=ax, end=e)
            exp = [sl(x, slice(0, e)) for x in sq]
        elif kind == "neg_end":
            e = rng.randint(1, mn)
            s = rng.randint(0, mn - e)
            out, od = rf.slice(t, axis=ax, start=s, end=-e)
            exp = [sl(x, slice(s, x.shape[a] - e)) for x in sq]
        elif kind == "neg_start":
            s = rng.randint(1, mn)
            e = rng.randint(0, s)
            out, od = rf.slice(t, axis=ax, start=-s, **({"end": -e} if e else {}))
            exp = [sl(x, slice(mn - s, mn - e)) for x in sq]
        elif kind == "step":
            st = rng.randint(1, 3)
            s = rng.randint(0, mn)
            out, od = rf.slice(t, axis=ax, start=s, step=st)
            exp = [sl(x, slice(s, None, st)) for x in sq]
        elif kind == "size":
            s = rng.randint(0, mn)
            n = rng.randint(0, mn - s)
            out, od = rf.slice(t, axis=ax, start=s, size=n)
            exp = [sl(x, slice(s, s + n)) for x in sq]
        elif kind == "size_dim":
            s = rng.randint(0, mn - 1)
            d = env.static(rng.randint(1, mn - s), name="n")
            out, od = rf.slice(t, axis=ax, start=s, size=d)
            case.require(od == d, "slice: out dim")
            exp = [sl(x, slice(s, s + d.dimension)) for x in sq]
        else:
            s = rng.randint(0, mn - 1)
            n = rng.randint(0, mn - s)
            st, _ = env.make([], dtype="int32", batch=False, seqs=[numpy.array(s, dtype="int32")])
            out, od = rf.slice(t, axis=ax, start=st, size=n)
            exp = [sl(x, slice(s, s + n)) for x in sq]
        S.check(case, env, out, rep(od), exp, f"slice {kind}")
    elif op == "pad":
        l, r = rng.randint(0, 3), rng.randint(0, 3)
        v = rng.choice([0, 1, -5])
        kw = {}
        mode = "constant"
        if t.dtype == "float64" and rng.random() < 0.3:
            mode = rng.choice(["reflect", "replicate"])
        if mode == "reflect":
            l, r = min(l, mn - 1), min(r, mn - 1)
        if mode != "constant" and ax in env.lens and r > 0:
            r = 0  # only left padding is supported with dynamic lengths
        case.desc(l=l, r=r, mode=mode)
        if mode == "constant":
            kw["value"] = v
        try:
            out, (od,) = rf.pad(t, axes=[ax], padding=[(l, r)], mode=mode, **kw)
        except NotImplementedError:
            case.trivial()
            return
        npm = {"constant": dict(mode="constant", constant_values=v), "reflect": dict(mode="reflect"), "replicate": dict(mode="edge")}[mode]
        exp = [numpy.pad(x, [(l, r) if i == a else (0, 0) for i in range(x.ndim)], **npm) for x in sq]
        S.check(case, env, out, rep(od), exp, f"pad {mode}")
    elif op == "pad_value":
        # the value is a tensor over some of the other dims
        l, r = rng.randint(0, 3), rng.randint(0, 3)
        other = [d for d in dims if d is not ax]
        vd = [d for d in other if rng.random() < 0.5]
        v, vq = env.make(vd, dtype=t.dtype, batch=rng.random() < 0.6 or any(d in env.lens for d in vd))
        case.desc(l=l, r=r, vdims=len(v.dims))
        out, (od,) = rf.pad(t, axes=[ax], padding=[(l, r)], value=v)
        exp = []
        for b, x in enumerate(sq):
            vv = vq[b].reshape([env.size(d, b) if d in vd else 1 for d in dims])
            parts = [numpy.broadcast_to(vv, x.shape[:a] + (n,) + x.shape[a + 1 :]) for n in (l, r)]
            exp.append(numpy.concatenate([parts[0], x, parts[1]], axis=a))
        S.check(case, env, out, rep(od), exp, "pad, value is a tensor")
    elif op == "pad_ext":
        # several axes, sizes given as dims
        axes = rng.sample(dims, rng.randint(1, len(dims)))
        v = rng.choice([0, 1, -5])
        padding, num = [], {}
        for d in axes:
            lr, n = [], []
            for side in range(2):
                k = rng.randint(0, 3)
                kind = rng.choice(["int", "int", "dim"] + (["dyn_dim"] if side else []))
                n.append([k] * env.nb)
                if kind == "dim":
                    lr.append(Dim(k, name="pad"))
                elif kind == "dyn_dim":
                    dd = env.new_dyn("r", 0 if rng.random() < 0.5 else 1, 3)
                    lr.append(dd)
                    n[-1] = [env.size(dd, b) for b in range(env.nb)]
                else:
                    lr.append(k)
            padding.append(tuple(lr))
            num[d] = n
        case.desc(kinds=[[type(x).__name__ for x in p] for p in padding])
        out, ods = rf.pad(t, axes=axes, padding=padding, value=v)
        exp = [
            numpy.pad(x, [(num[d][0][b], num[d][1][b]) if d in num else (0, 0) for d in dims], constant_values=v) for b, x in enumerate(sq)
        ]
        S.check(case, env, out, [ods[axes.index(d)] if d in axes else d for d in dims], exp, "pad, several axes")
    elif op == "concat_bc":
        other = [d for d in dims if d is not ax]
        parts, qs = [], []
        n = rng.randint(2, 3)
        for i in range(n):
            if i == n - 1:
                parts.append((t, ax))
                qs.append([numpy.moveaxis(x, a, -1) for x in sq])
                continue
            d1 = env.static(name="c%i" % i)
            od = [d for d in other if rng.random() < 0.6]
            o1, q1 = env.make(od + [d1], dtype=t.dtype, batch=rng.random() < 0.7 or any(d in env.lens for d in od))
            parts.append((o1, d1))
            qs.append([q.reshape([env.size(d, b) if d in od else 1 for d in other] + [d1.dimension]) for b, q in enumerate(q1)])
        out, od = rf.concat(*parts, allow_broadcast=True)
        exp = []
        for b in range(env.nb):
            sh = tuple(env.size(d, b) for d in other)
            exp.append(numpy.concatenate([numpy.broadcast_to(q[b], sh + q[b].shape[-1:]) for q in qs], axis=-1))
        S.check(case, env, out, other + [od], exp, "concat allow_broadcast")
    elif op == "concat":
        # all but the last must be static
        d1, d2 = env.static(name="c1"), env.static(name="c2")
        other = [d for d in dims if d is not ax]
        o1, q1 = env.make(other + [d1], dtype=t.dtype)
        parts = [(o1, d1)]
        qs = [q1]
        if rng.random() < 0.4:
            o2, q2 = env.make(other + [d2], dtype=t.dtype)
            parts.append((o2, d2))
            qs.append(q2)
        parts.append((t, ax))
        qs.append([numpy.moveaxis(x, a, -1) for x in sq])
        out, od = rf.concat(*parts)
        S.check(case, env, out, other + [od], [numpy.concatenate([q[b] for q in qs], axis=-1) for b in range(env.nb)], "concat")
    elif op == "stack":
        k = rng.randint(1, 3)
        more = [env.make(dims, dtype=t.dtype) for _ in range(k)]
        out, od = rf.stack([t] + [m[0] for m in more])
        S.check(case, env, out, [od] + dims, [numpy.stack([sq[b]] + [m[1][b] for m in more]) for b in range(env.nb)], "stack")
    elif op == "split":
        ds_ = [env.static(name="s%i" % i) for i in range(rng.randint(1, 3))]
        tot = sum(d.dimension for d in ds_)
        sp = Dim(tot, name="sp")
        x, xq = env.make([T, sp])
        outs = rf.split(x, axis=sp, out_dims=ds_)
        off = 0
        for o, d in zip(outs, ds_):
            S.check(case, env, o, [T, d], [q[:, off : off + d.dimension] for q in xq], "split")
            off += d.dimension
    elif op == "expand":
        d = rng.choice([env.static(name="e"), env.new_dyn("te")])
        out = rf.expand_dim(t, d)
        S.check(case, env, out, dims + [d], [numpy.repeat(x[..., None], env.size(d, b), axis=-1) for b, x in enumerate(sq)], "expand_dim")
    elif op == "squeeze":
        one = env.static(1, name="one")
        x, xq = env.make(dims + [one])
        S.check(case, env, rf.squeeze(x, axis=one), dims, [q[..., 0] for q in xq], "squeeze")
    elif op == "merge":
        g, h = env.static(name="m1"), env.static(name="m2")
        md = rng.choice([[g, h], [h, g], [T, g], [g, T]])
        x, xq = env.make([T, g, h])
        out, od = rf.merge_dims(x, dims=md)
        rest = [d for d in [T, g, h] if d not in md]
        if md[0] is g and T in md:
            # (static, dynamic): not a clean layout, keeps the padding. only the total size is claimed
            case.equal(int(od.get_dim_value()), g.dimension * max(env.lens[T]), "merge_dims size")
            case.count("results")
            return
        idx = [[T, g, h].index(d) for d in md]
        exp = []
        for q in xq:
            r = numpy.transpose(q, idx + [[T, g, h].index(d) for d in rest])
            exp.append(r.reshape((-1,) + r.shape[2:]))
        S.check(case, env, out, [od] + rest, exp, "merge_dims")
    elif op == "merge_split":
        g, h = env.static(name="m1"), env.static(name="m2")
        x, xq = env.make([T, g, h])
        md = rng.sample([T, g, h], 2)
        out, od = rf.merge_dims(x, dims=md)
        back = rf.split_dims(out, axis=od, dims=md)
        S.check(case, env, back, [T, g, h], xq, "split_dims(merge_dims(x)) is not x")
    elif op == "split_dims":
        g, h = env.static(name="m1"), env.static(name="m2")
        m = Dim(g.dimension * h.dimension, name="m")
        x, xq = env.make([T, m])
        out = rf.split_dims(x, axis=m, dims=[g, h])
        S.check(case, env, out, [T, g, h], [q.reshape(q.shape[0], g.dimension, h.dimension) for q in xq], "split_dims")
    elif op == "reshape":
        g, h = env.static(2, name="m1"), env.static(6, name="m2")
        p, r = Dim(4, name="p"), Dim(3, name="r")
        x, xq = env.make([T, g, h])
        out = rf.reshape(x, in_dims=[g, h], out_dims=[p, r])
        S.check(case, env, out, [T, p, r], [q.reshape(q.shape[0], 4, 3) for q in xq], "reshape")
    elif op == "shift":
        k = rng.randint(1, 3)
        pv = rng.choice([0, 9])
        pvq = [numpy.array(pv)] * env.nb
        if rng.random() < 0.4:
            pv, pvq = env.make([], dtype=t.dtype, batch=rng.random() < 0.7)
        right = rng.random() < 0.5
        case.desc(amount=k, right=right, value=type(pv).__name__)
        out = (rf.shift_right if right else rf.shift_left)(t, axis=ax, pad_value=pv, amount=k)
        exp = []
        for b, x in enumerate(sq):
            fill = numpy.full(x.shape[:a] + (k,) + x.shape[a + 1 :], pvq[b], dtype=x.dtype)
            if right:
                exp.append(sl(numpy.concatenate([fill, x], axis=a), slice(0, x.shape[a])))
            else:
                exp.append(sl(numpy.concatenate([x, fill], axis=a), slice(k, None)))
        S.check(case, env, out, dims, exp, "shift_right" if right else "shift_left")
    elif op == "reverse":
        S.check(case, env, rf.reverse_sequence(t, axis=ax), dims, [numpy.flip(x, axis=a) for x in sq], "reverse_sequence")
    elif op == "window":
        w = rng.randint(1, 5)
        padding = rng.choice(["same", "same", "valid"])
        if padding == "valid":
            w = min(w, min(env.lens[T]))
        stride = rng.choice([1, 1, 2, 3])
        wd = Dim(w, name="window")
        kw = {}
        pv = 0
        left, right = None, None
        if padding == "same":
            if rng.random() < 0.4:
                left = rng.randint(0, w - 1)
                right = w - 1 - left
                kw["window_left"] = left
            elif rng.random() < 0.4:
                right = rng.randint(0, w - 1)
                left = w - 1 - right
                kw["window_right"] = right
            else:
                right = w // 2
                left = w - 1 - right
            if rng.random() < 0.3:
                pv = kw["pad_value"] = 5
        case.desc(w=w, padding=padding, stride=stride, left=left, right=right, pv=pv)
        x, xq = env.make([T, f])
        out, od = rf.window(x, spatial_dim=T, window_dim=wd, padding=padding, stride=stride, **kw)
        exp = []
        for q in xq:
            if padding == "same":
                qq = numpy.pad(q, [(left, right), (0, 0)], constant_values=pv)
                n = q.shape[0]
            else:
                qq = q
                n = q.shape[0] - w + 1
            exp.append(numpy.stack([qq[i : i + w] for i in range(0, n, stride)]) if n > 0 else numpy.zeros((0, w, f.dimension)))
        S.check(case, env, out, [od, wd, f], exp, f"window {padding}")
    elif op == "replace":
        out, nd = rf.replace_dim(t, in_dim=ax)
        S.check(case, env, out, rep(nd), sq, "replace_dim")
        if ax not in env.lens:
            n2 = env.static(name="r2")
            out = rf.replace_dim_v2(t, in_dim=ax, out_dim=n2)
            exp = []
            for x in sq:
                m = min(x.shape[a], n2.dimension)
                y = sl(x, slice(0, m))
                exp.append(numpy.pad(y, [(0, n2.dimension - m) if i == a else (0, 0) for i in range(y.ndim)]))
            S.check(case, env, out, rep(n2), exp, "replace_dim_v2")
    elif op == "cum_concat":
        other = [d for d in dims if d is not T]
        if any(d in env.lens for d in other):
            other = []
        prev, pq = env.make([T] + other)
        x, xq = env.make(other)
        out, od = rf.cum_concat_step(x, prev_accum=prev, axis=T)
        S.check(case, env, out, [od] + other, [numpy.concatenate([p, q[None]], axis=0) for p, q in zip(pq, xq)], "cum_concat_step")
    elif op == "copy":
        out = rf.copy(t)
        S.check(case, env, out, dims, sq, "copy")


# --- packing ---


def packing(case):
    import numpy
    import returnn.frontend as rf

    rng = case.rng
    op = rng.choice(["pack", "masked_select", "masked_select_sub", "masked_scatter"])
    env = _env(case)
    T = env.dyn[0]
    f = env.static()
    t, sq = env.make([T, f])
    case.desc(op=op)
    if op == "pack":
        if env.batch.dimension is not None and rng.random() < 0.5:
            pass
        dims = [env.batch, T] if rng.random() < 0.6 else [T, env.batch]
        out, pd = rf.pack_padded(t, dims=dims)
        exp = numpy.concatenate(sq, axis=0) if dims[0] is env.batch else numpy.stack([sq[b][i] for i in range(max(env.lens[T])) for b in range(env.nb) if i < env.lens[T][b]])
        case.equal(int(pd.get_dim_value()), sum(env.lens[T]), "pack_padded: packed size")
        got = numpy.transpose(out.raw_tensor.numpy(), [list(out.dims).index(pd), list(out.dims).index(f)])
        case.require(numpy.array_equal(got, exp), "pack_padded: frames", got=got.tolist(), expected=exp.tolist())
        back = rf.pad_packed(out, in_dim=pd, dims=dims)
        S.check(case, env, back, [T, f], sq, "pad_packed(pack_padded(x)) is not x")
        return
    mask, mq = env.make([T], dtype="bool")
    if op == "masked_select":
        m2 = mask.copy_masked(False) if rng.random() < 1 else mask
        out, pd = rf.masked_select(t, mask=m2, dims=[env.batch, T])
        exp = numpy.concatenate([x[m] for x, m in zip(sq, mq)], axis=0)
        case.equal(int(pd.get_dim_value()), len(exp), "masked_select: size")
        got = numpy.transpose(out.raw_tensor.numpy(), [list(out.dims).index(pd), list(out.dims).index(f)])
        case.require(numpy.array_equal(got, exp), "masked_select: frames", got=got.tolist(), expected=exp.tolist())
        case.count("results")
        bk, bq = env.make([T, f])
        with_backup = rng.random() < 0.5
        back = rf.masked_scatter(out, bk if with_backup else None, mask=m2, dims=[env.batch, T], in_dim=pd)
        S.check(case, env, back, [T, f], [numpy.where(m[:, None], x, y if with_backup else 0) for x, m, y in zip(sq, mq, bq)], "masked_scatter")
    else:
        if mask.dims_set != {env.batch, T}:
            case.trivial()
            return
        out, pd = rf.masked_select(t, mask=mask, dims=[T])
        S.check(case, env, out, [pd, f], [x[m] for x, m in zip(sq, mq)], "masked_select over the time of every sequence")
        if op == "masked_scatter" and max(S.sizes_of(env, pd)) > 0:
            bk, bq = env.make([T, f])
            with_backup = rng.random() < 0.5
            back = rf.masked_scatter(out, bk if with_backup else None, mask=mask, dims=[T], in_dim=pd)
            S.check(case, env, back, [T, f], [numpy.where(m[:, None], x, y if with_backup else 0) for x, m, y in zip(sq, mq, bq)], "masked_scatter (per sequence)")


# --- sort, top-k ---


def sorting(case):
    import numpy
    import returnn.frontend as rf
    from returnn.tensor import Dim

    rng = case.rng
    op = rng.choice(["sort", "top_k", "top_k", "top_k_multi", "search_sorted", "top_k_mask", "top_p_mask", "sparse_to_dense"])
    env = _env(case)
    f = env.static(rng.randint(2, 5))
    T = env.dyn[0]
    dims = [T, f]
    t, sq = env.make(dims)
    case.desc(op=op)
    if op == "sort":
        desc = rng.random() < 0.5
        dtype = rng.choice(["float64", "int32"])
        t, sq = env.make(dims, dtype=dtype)
        vals, idx, od = rf.sort(t, axis=f, descending=desc)
        exp_i = [numpy.argsort(-x if desc else x, axis=1, kind="stable") for x in sq]
        S.check(case, env, vals, [T, od], [numpy.take_along_axis(x, i, 1) for x, i in zip(sq, exp_i)], "sort")
        S.check(case, env, idx, [T, od], exp_i, "sort indices (stable)")
        case.require(idx.sparse_dim == f, "sort: sparse_dim of the indices")
    elif op == "top_k":
        k = rng.randint(1, f.dimension)
        kw = {"k": k} if rng.random() < 0.7 else {"k_dim": Dim(k, name="k")}
        vals, idx, kd = rf.top_k(t, axis=f, **kw)
        exp_i = [numpy.argsort(-x, axis=1, kind="stable")[:, :k] for x in sq]
        S.check(case, env, vals, [T, kd], [numpy.take_along_axis(x, i, 1) for x, i in zip(sq, exp_i)], "top_k values")
        S.check(case, env, idx, [T, kd], exp_i, "top_k indices")
        case.require(idx.sparse_dim == f, "top_k: sparse_dim of the indices")
    elif op == "top_k_multi":
        g = env.static(rng.randint(1, 4), name="beam")
        x, xq = env.make([g, f])
        k = rng.randint(1, g.dimension * f.dimension)
        vals, (i0, i1), kd = rf.top_k(x, axis=[g, f], k=k)
        for b, q in enumerate(xq):
            flat = numpy.argsort(-q.reshape(-1), kind="stable")[:k]
            case.require(numpy.allclose(S.seqs(env, vals, [kd])[b], q.reshape(-1)[flat]), "top_k over two axes: values")
            case.equal(S.seqs(env, i0, [kd])[b].tolist(), (flat // f.dimension).tolist(), "top_k over two axes: first index")
            case.equal(S.seqs(env, i1, [kd])[b].tolist(), (flat % f.dimension).tolist(), "top_k over two axes: second index")
        case.require(i0.sparse_dim == g and i1.sparse_dim == f, "top_k multi: sparse dims")
        case.count("results")
    elif op == "search_sorted":
        g = env.static(name="g")
        x, xq = env.make([g], gen=lambda s: numpy.sort(env.np.randint(-4, 5, size=s).astype("float64")))
        v, vq = env.make([T], gen=lambda s: env.np.randint(-5, 6, size=s).astype("float64"))
        side = rng.choice(["left", "right"])
        out = rf.search_sorted(x, v, axis=g, side=side)
        S.check(case, env, out, [T], [numpy.searchsorted(q, w, side=side) for q, w in zip(xq, vq)], f"search_sorted {side}")
    elif op == "top_k_mask":
        k = rng.randint(1, f.dimension)
        out = rf.top_k_mask(t, axis=f, k=k)
        exp = []
        for x in sq:
            i = numpy.argsort(-x, axis=1, kind="stable")[:, :k]
            m = numpy.zeros(x.shape, bool)
            numpy.put_along_axis(m, i, True, 1)
            exp.append(m)
        S.check(case, env, out, dims, exp, "top_k_mask")
    elif op == "top_p_mask":
        p = rng.uniform(0, 1)
        one = rng.random() < 0.5
        probs = rf.softmax(t, axis=f)
        out = rf.top_p_mask(probs, axis=f, p=p, one_more=one)
        exp = []
        for x in sq:
            y = numpy.exp(x - x.max(axis=1, keepdims=True))
            y /= y.sum(axis=1, keepdims=True)
            m = numpy.zeros(x.shape, bool)
            for r in range(len(y)):
                order = numpy.argsort(-y[r], kind="stable")
                c = 0.0
                for j in order:
                    c += y[r][j]
                    if c <= p:
                        m[r, j] = True
                    else:
                        m[r, j] = one
                        break
            exp.append(m)
        S.check(case, env, out, dims, exp, "top_p_mask")
    else:
        lab, lq = env.make([T], sparse_dim=f)
        out = rf.one_hot(lab)
        S.check(case, env, out, [T, f], [numpy.eye(f.dimension)[q] for q in lq], "one_hot")
        lv, ov = rng.uniform(-2, 2), rng.uniform(-2, 2)
        out = rf.sparse_to_dense(lab, label_value=lv, other_value=ov)
        S.check(case, env, out, [T, f], [numpy.where(numpy.eye(f.dimension, dtype=bool)[q], lv, ov) for q in lq], "sparse_to_dense")


# --- losses ---


def loss(case):
    import numpy
    import returnn.frontend as rf

    rng = case.rng
    op = rng.choice(["ce_logits", "ce_logits_dense", "ce_probs", "ce_logprobs", "ctc", "edit", "label_smoothing"])
    env = _env(case, max_len=7)
    T = env.dyn[0]
    f = env.static(rng.randint(2, 5), name="classes")
    t, sq = env.make([T, f], feature_dim=f)
    case.desc(op=op, c=f.dimension)

    def lsm(x):
        y = x - x.max(axis=-1, keepdims=True)
        return y - numpy.log(numpy.exp(y).sum(axis=-1, keepdims=True))

    if op.startswith("ce"):
        lab, lq = env.make([T], sparse_dim=f, dtype=rng.choice(["int32", "int64"]))
        if op == "ce_logits":
            out = rf.cross_entropy(estimated=t, target=lab, axis=f, estimated_type="logits")
        elif op == "ce_logits_dense":
            tgt, tq = env.make([T, f])
            tp = rf.softmax(tgt, axis=f)
            out = rf.cross_entropy(estimated=t, target=tp, axis=f, estimated_type="logits")
            S.check(case, env, out, [T], [-(numpy.exp(lsm(y)) * lsm(x)).sum(-1) for x, y in zip(sq, tq)], "cross_entropy with dense targets")
            return
        elif op == "ce_probs":
            out = rf.cross_entropy(estimated=rf.softmax(t, axis=f), target=lab, axis=f, estimated_type="probs")
        else:
            out = rf.cross_entropy(estimated=rf.log_softmax(t, axis=f), target=lab, axis=f, estimated_type="log-probs")
        S.check(case, env, out, [T], [-numpy.take_along_axis(lsm(x), q[:, None].astype("int64"), 1)[:, 0] for x, q in zip(sq, lq)], "cross_entropy")
    elif op == "ctc":
        blank = rng.choice([0, f.dimension - 1])
        S_ = env.new_dyn("targets", 1, 3)
        lens_ok = all(env.lens[T][b] >= 2 * env.lens[S_][b] for b in range(env.nb))
        labs = [numpy.array([rng.choice([c for c in range(f.dimension) if c != blank]) for _ in range(env.lens[S_][b])], dtype="int32") for b in range(env.nb)]
        tgt, tq = env.make([S_], dtype="int32", seqs=labs, garbage=[c for c in range(f.dimension) if c != blank][0], sparse_dim=f)
        norm = rng.random() < 0.3
        x = rf.log_softmax(t, axis=f) if norm else t
        out = rf.ctc_loss(logits=x, targets=tgt, input_spatial_dim=T, targets_spatial_dim=S_, blank_index=blank, logits_normalized=norm)
        exp = []
        for b in range(env.nb):
            lp = lsm(sq[b])
            ext = [blank]
            for c in labs[b]:
                ext += [int(c), blank]
            al = numpy.full(len(ext), -numpy.inf)
            al[0] = lp[0, ext[0]]
            al[1] = lp[0, ext[1]]
            for tt in range(1, len(lp)):
                new = numpy.full(len(ext), -numpy.inf)
                for s in range(len(ext)):
                    c = [al[s]]
                    if s >= 1:
                        c.append(al[s - 1])
                    if s >= 2 and ext[s] != blank and ext[s] != ext[s - 2]:
                        c.append(al[s - 2])
                    new[s] = numpy.logaddexp.reduce(c) + lp[tt, ext[s]]
                al = new
            exp.append(-numpy.logaddexp(al[-1], al[-2]))
        got = S.seqs(env, out, [])
        for g, e in zip(got, exp):
            if numpy.isinf(e):
                case.require(not (g < 1e6) or numpy.isinf(g) or g == 0, "ctc_loss of an impossible target is finite", got=float(g))
            else:
                case.require(numpy.allclose(g, e, rtol=1e-6), "ctc_loss", got=float(g), expected=float(e))
        case.count("results")
        case.count("seqs_checked", env.nb)
    elif op == "edit":
        b2 = env.dyn[1]
        x, xq = env.make([T], sparse_dim=f)
        y, yq = env.make([b2], sparse_dim=f)
        out = rf.edit_distance(x, T, y, b2)

        def ed(p, q):
            d = list(range(len(q) + 1))
            for i, pi in enumerate(p):
                prev, d[0] = d[0], i + 1
                for j, qj in enumerate(q):
                    prev, d[j + 1] = d[j + 1], min(d[j + 1] + 1, d[j] + 1, prev + (pi != qj))
            return d[-1]

        S.check(case, env, out, [], [numpy.array(ed(p.tolist(), q.tolist()), dtype="int32") for p, q in zip(xq, yq)], "edit_distance")
    else:
        sm = rng.uniform(0, 0.5)
        lab, lq = env.make([T], sparse_dim=f)
        if rng.random() < 0.5:
            out = rf.label_smoothing(lab, sm)
        else:
            out = rf.smooth_one_hot(lab, label_prob=1.0 - sm)
        n = f.dimension
        exp = [numpy.where(numpy.eye(n, dtype=bool)[q], 1.0 - sm, sm / (n - 1)) for q in lq]
        S.check(case, env, out, [T, f], exp, "label smoothing")


KINDS = {
    "reduce": {"func": reduce, "quick": 600, "thorough": 4000},
    "math": {"func": math, "quick": 1000, "thorough": 6000},
    "matmul": {"func": matmul, "quick": 300, "thorough": 2000},
    "gather": {"func": gather, "quick": 300, "thorough": 2000},
    "scatter": {"func": scatter, "quick": 400, "thorough": 2500},
    "layout": {"func": layout, "quick": 1000, "thorough": 6000},
    "packing": {"func": packing, "quick": 200, "thorough": 1200},
    "sorting": {"func": sorting, "quick": 400, "thorough": 2500},
    "loss": {"func": loss, "quick": 400, "thorough": 2500},
}
