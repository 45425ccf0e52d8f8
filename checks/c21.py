"""C21: stepwise execution with state gives the same as the whole sequence at once."""
from vlib import rfseq as S

RULE = (
    "case = one random recurrent/causal layer or decoder of returnn.frontend with random options and parameters (float64) and one of the schedules: all single steps; whole-sequence call on a prefix "
    "(of different length per sequence) followed by single steps; single steps with the state of finished sequences kept via mask_nested; beam search like steps with the state reordered via gather_nested "
    "by random back-references. Every step output (and the final state) is compared with the call on the whole sequence (of the history of the hypothesis). Distinct by case description."
)
ASSUMPTIONS = ["eager PyTorch backend, float64, behaviour version 24, eval mode (no dropout)"]
MIN_COUNTS = {"steps": 400, "prefix_runs": 15, "beam_gathers": 20, "masked_states": 10}
BUDGET = {"quick": 300, "thorough": 1500}


def worker_init():
    S.init()


def _build(case):
    """:return: module, in_kind ('float', dim) or ('label', dim), call(mod,x,axis,state,enc), init(batch_dims), out_dim, enc_dim"""
    import returnn.frontend as rf
    from checks.c20 import _f, _randomize
    from returnn.frontend.decoder.transformer import TransformerDecoder, FeedForwardGated

    rng = case.rng
    kind = rng.choice(["CausalSelfAttention", "RotaryPosCausalSelfAttention", "RelPosCausalSelfAttention", "LSTM", "ZoneoutLSTM", "TransformerDecoder", "TransformerDecoder"])
    heads = rng.randint(1, 2)
    enc = None
    if kind.endswith("Attention"):
        f = _f(heads * 4)
        proj = rng.choice([None, _f(3, "proj")])
        kw = dict(key_dim_total=_f(heads * rng.choice([4, 6]), "key"), value_dim_total=_f(heads * 2, "val"), num_heads=heads, with_bias=rng.random() < 0.6)
        if kind.startswith("RelPos"):
            kw.update(with_linear_pos=rng.random() < 0.5, with_pos_bias=rng.random() < 0.5, learnable_pos_emb=rng.random() < 0.4, learnable_pos_emb_clipping=rng.choice([1, 2, 16]), separate_pos_emb_per_head=rng.random() < 0.5)
            case.desc(**{k: kw[k] for k in ("with_linear_pos", "with_pos_bias", "learnable_pos_emb", "learnable_pos_emb_clipping", "separate_pos_emb_per_head")})
        mod = getattr(rf, kind)(f, proj, **kw)
        out, inp = proj or kw["value_dim_total"], ("float", f)
        call = lambda x, axis, state, e: mod(x, axis=axis, state=state)
    elif kind.endswith("LSTM"):
        f, out = _f(rng.randint(1, 3)), _f(rng.randint(1, 3), "out")
        kw = dict(with_bias=rng.random() < 0.7)
        if kind == "ZoneoutLSTM":
            kw.update(zoneout_factor_cell=rng.choice([0.0, 0.2]), zoneout_factor_output=rng.choice([0.0, 0.1]), use_zoneout_output=rng.random() < 0.5, forget_bias=rng.choice([0.0, 1.0]), parts_order=rng.choice(["ifco", "jifo"]))
        mod = getattr(rf, kind)(f, out, **kw)
        inp = ("float", f)
        call = lambda x, axis, state, e: mod(x, spatial_dim=axis, state=state)
    else:
        enc = rng.choice([None, _f(3, "enc")])
        vocab = _f(5, "vocab")
        opts = {}
        if rng.random() < 0.3:
            opts["ff"] = FeedForwardGated
        if rng.random() < 0.3:
            opts["norm"] = rf.RMSNorm
        if rng.random() < 0.5:
            opts["pos_enc"] = None
            opts["layer_opts"] = {"self_att": rng.choice([rf.RotaryPosCausalSelfAttention, rf.RelPosCausalSelfAttention])}
        mod = TransformerDecoder(enc, vocab, _f(heads * 4, "model"), num_layers=rng.randint(1, 2), num_heads=heads, **opts)
        case.desc(enc=bool(enc), opts=sorted(k + str(v) for k, v in opts.items()))
        inp, out = ("label", vocab), vocab
        call = lambda x, axis, state, e: mod(x, spatial_dim=axis, state=state, **({"encoder": e} if enc else {}))
    case.desc(layer=kind, heads=heads)
    _randomize(case, mod)
    return kind, mod, inp, call, out, enc


def _frame(env, inp, values, dims):
    """tensor for one step. values: array [batch, *dims(, f)]"""
    import torch
    from returnn.tensor import Tensor

    if inp[0] == "label":
        t = Tensor("x", dims=[env.batch] + dims, dtype="int32", sparse_dim=inp[1])
    else:
        t = Tensor("x", dims=[env.batch] + dims + [inp[1]], dtype="float64", feature_dim=inp[1])
    t.raw_tensor = torch.tensor(values)
    return t


def _seqs_in(env, inp, n=None):
    return None


def steps(case):
    import numpy
    import returnn.frontend as rf
    from returnn.tensor import single_step_dim

    rng = case.rng
    env = S.Env(case, num_dyn=2, max_len=6)
    kind, mod, inp, call, out_dim, enc = _build(case)
    time, enc_time = env.dyn
    lens = env.lens[time]
    schedule = rng.choice(["steps", "prefix", "masked"])
    if kind in ("LSTM", "ZoneoutLSTM"):
        schedule = rng.choice(["steps", "prefix", "masked", "chunks", "chunks"])
    case.desc(nb=env.nb, lens=[lens, env.lens[enc_time]], schedule=schedule)
    rf.init_forward_step_run_ctx()
    e = None
    if enc is not None:
        et, _ = env.make([enc_time, enc])
        e = mod.transform_encoder(et, axis=enc_time)
    spec = dict(sparse_dim=inp[1]) if inp[0] == "label" else {}
    feat = [] if inp[0] == "label" else [inp[1]]
    x, sq = env.make([time] + feat, feature_dim=inp[1] if feat else None, **spec)
    whole, whole_state = call(x, time, mod.default_initial_state(batch_dims=[env.batch]), e)
    exp = S.seqs(env, whole, [time, out_dim])
    start = [0] * env.nb
    state = mod.default_initial_state(batch_dims=[env.batch])
    if schedule == "prefix":
        if kind == "LSTM" or rng.random() < 0.8:
            start = [rng.randint(1, n) for n in lens]
        else:
            start = [min(lens)] * env.nb
        pre = env.new_dyn("prefix", lens=start)
        xp, _ = env.make([pre] + feat, seqs=[s[:n] for s, n in zip(sq, start)], feature_dim=inp[1] if feat else None, dtype="int32" if inp[0] == "label" else None, **spec)
        o, state = call(xp, pre, state, e)
        got = S.seqs(env, o, [pre, out_dim])
        for b in range(env.nb):
            case.require(numpy.allclose(got[b], exp[b][: start[b]], rtol=1e-8, atol=1e-8), f"{kind}: sequence {b}: output for a prefix differs from the output for the whole sequence", start=start[b])
        case.count("prefix_runs")
    if schedule == "chunks":
        # whole-sequence calls on consecutive parts, the state carried over
        while any(a < n for a, n in zip(start, lens)):
            end = [min(n, a + rng.randint(1, 3)) for a, n in zip(start, lens)]
            if any(a == b for a, b in zip(start, end)):
                break  # parts without frames: the remaining frames are done by steps
            part = env.new_dyn("part", lens=[b - a for a, b in zip(start, end)])
            xp, _ = env.make([part] + feat, seqs=[q[a:b] for q, a, b in zip(sq, start, end)], feature_dim=inp[1] if feat else None)
            o, state = call(xp, part, state, e)
            got = S.seqs(env, o, [part, out_dim])
            for b in range(env.nb):
                case.require(numpy.allclose(got[b], exp[b][start[b] : end[b]], rtol=1e-8, atol=1e-8), f"{kind}: sequence {b}: output for a part with the state of the previous part differs from the output for the whole sequence", start=start[b])
            start = end
            case.count("chunk_runs")
    n_steps = max(n - s for n, s in zip(lens, start))
    for t in range(n_steps):
        vals = []
        for b in range(env.nb):
            i = start[b] + t
            vals.append(sq[b][i] if i < lens[b] else env.values(sq[b].shape[1:], str(sq[b].dtype), 0, inp[1].dimension - 1))
        xt = _frame(env, inp, numpy.stack(vals).astype("int32" if inp[0] == "label" else "float64"), [])
        prev = state
        o, state = call(xt, single_step_dim, state, e)
        case.count("steps")
        got = S.seqs(env, o, [out_dim])
        for b in range(env.nb):
            i = start[b] + t
            if i < lens[b]:
                case.require(numpy.allclose(got[b], exp[b][i], rtol=1e-8, atol=1e-8), f"{kind}: step output for sequence {b}, frame {i} differs from the whole sequence result", got=got[b].tolist(), expected=exp[b][i].tolist(), start=start[b], schedule=schedule)
                case.count("frames")
        if schedule == "masked":
            import torch
            from returnn.tensor import Tensor

            m = Tensor("mask", dims=[env.batch], dtype="bool", raw_tensor=torch.tensor([t < n for n in lens]))
            state = rf.nested.mask_nested(state, mask=m, mask_cpu=m, mask_value=prev)
    if schedule == "masked":
        _compare_states(case, env, kind, state, whole_state)
        case.count("masked_states")


def _compare_states(case, env, kind, got, exp, path=""):
    import numpy
    from returnn.tensor import Tensor, Dim

    if isinstance(exp, dict):
        case.equal(sorted(got), sorted(exp), f"{kind}: state entries {path}")
        gd = [v for v in got.values() if isinstance(v, Dim)]
        ed = [v for v in exp.values() if isinstance(v, Dim)]
        for k in exp:
            g, x = got[k], exp[k]
            if isinstance(x, Tensor):
                dims_e = [d for d in x.dims if d != env.batch]
                dims_g = [gd[ed.index(d)] if d in ed else d for d in dims_e]
                gs, xs = S.seqs(env, g, dims_g), S.seqs(env, x, dims_e)
                for b in range(env.nb):
                    case.require(gs[b].shape == xs[b].shape and numpy.allclose(gs[b], xs[b], rtol=1e-8, atol=1e-8), f"{kind}: state {path}{k} of sequence {b} after its last step differs from the state after the whole sequence", got_shape=list(gs[b].shape), exp_shape=list(xs[b].shape))
                case.count("state_tensors")
            elif isinstance(x, Dim):
                case.equal(S.sizes_of(env, g), S.sizes_of(env, x), f"{kind}: size of state axis {path}{k}")
            else:
                _compare_states(case, env, kind, g, x, f"{path}{k}.")
    else:
        raise Exception("unexpected state %r" % type(exp))


def beam(case):
    """steps with random beam reordering in between"""
    import numpy
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Tensor, Dim, single_step_dim

    rng = case.rng
    env = S.Env(case, num_dyn=1, max_len=5)
    kind, mod, inp, call, out_dim, enc = _build(case)
    enc_time = env.dyn[0]
    n_steps = rng.randint(2, 5)
    case.desc(nb=env.nb, n_steps=n_steps)
    rf.init_forward_step_run_ctx()
    e = None
    if enc is not None:
        et, _ = env.make([enc_time, enc])
        e = mod.transform_encoder(et, axis=enc_time)
    k = rng.choice([1, 1, 2, 3])
    bd = Dim(k, name="beam0")
    state = mod.default_initial_state(batch_dims=[env.batch, bd])
    hist = [[[] for _ in range(k)] for _ in range(env.nb)]
    checks = []
    for t in range(n_steps):
        if t and rng.random() < 0.8:
            k2 = rng.randint(1, 3)
            nd = Dim(k2, name="beam%i" % t)
            back = env.np.randint(0, k, size=(env.nb, k2)).astype("int32")
            idx = Tensor("backrefs", dims=[env.batch, nd], dtype="int32", sparse_dim=bd, raw_tensor=torch.tensor(back))
            state = rf.nested.gather_nested(state, indices=idx)
            hist = [[list(hist[b][back[b, j]]) for j in range(k2)] for b in range(env.nb)]
            bd, k = nd, k2
            case.count("beam_gathers")
        shape = [env.nb, k] + ([] if inp[0] == "label" else [inp[1].dimension])
        vals = env.values(shape, "int32" if inp[0] == "label" else "float64", 0, inp[1].dimension - 1)
        for b in range(env.nb):
            for j in range(k):
                hist[b][j].append(vals[b, j])
        o, state = call(_frame(env, inp, vals, [bd]), single_step_dim, state, e)
        case.count("steps")
        checks.append((bd, k, [[list(h) for h in hb] for hb in hist], S.seqs(env, o, [bd, out_dim])))
    feat = [] if inp[0] == "label" else [inp[1]]
    for t, (bd, k, h, got) in enumerate(checks):
        time = Dim(t + 1, name="time")
        arr = numpy.stack([numpy.stack([numpy.stack(hh) for hh in hb]) for hb in h])
        x = Tensor("x", dims=[env.batch, bd, time] + feat, dtype=str(arr.dtype), sparse_dim=inp[1] if not feat else None, feature_dim=inp[1] if feat else None, raw_tensor=torch.tensor(arr))
        o, _ = call(x, time, mod.default_initial_state(batch_dims=[env.batch, bd]), e)
        exp = S.seqs(env, o, [bd, time, out_dim])
        for b in range(env.nb):
            case.require(numpy.allclose(got[b], exp[b][:, -1], rtol=1e-8, atol=1e-8), f"{kind}: step {t}, sequence {b}: output after beam reordering differs from the result for the history of the hypothesis", got=got[b].tolist(), expected=exp[b][:, -1].tolist())
            case.count("frames", k)


KINDS = {"steps": {"func": steps, "quick": 720, "thorough": 3000}, "beam": {"func": beam, "quick": 240, "thorough": 1200}}
