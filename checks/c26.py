"""C26: RF control flow (scan, while_loop, cond, TensorArray, nested state helpers) gives what the plain per-sequence loop gives."""
from vlib import rfseq as S

RULE = (
    "case = one random loop body / state structure / batch of sequences of different lengths (garbage in the padding); the result of rf.scan / while_loop / cond / TensorArray / "
    "rf.nested.* on the padded batch is compared, sequence by sequence (resp. cell by cell), with a plain Python+NumPy loop over the unpadded sequence. Distinct by case description."
)
ASSUMPTIONS = [
    "eager PyTorch backend, behaviour version 24, float64",
    "scan with cond: outputs and lengths are claimed, the final state is not (the state before cond became False is kept)",
    "cond functions without side effects; in rf.nested.* dims of the state are listed in the state",
]
MIN_COUNTS = {"results": 400, "loop_iterations": 800, "cells": 800}
BUDGET = {"quick": 300, "thorough": 1500}


def worker_init():
    S.init()


def _np(t):
    return t.raw_tensor.detach().cpu().numpy()


# ---------------------------------------------------------------- scan over a given dim


def k_scan_spatial(case):
    import numpy
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Tensor

    rng = case.rng
    env = S.Env(case, num_dyn=1, min_len=rng.choice([0, 1, 1]), max_len=6)
    if max(env.lens[env.dyn[0]]) == 0:
        env.lens[env.dyn[0]][0] = 1
        env.dyn[0] = env.new_dyn("t", lens=env.lens[env.dyn[0]])
    t = env.dyn[0]
    static_time = rng.random() < 0.15
    if static_time:
        t = env.static(rng.randint(1, 5), name="time")
    f = env.static(name="feat")
    with_xs = rng.random() < 0.85
    with_y2 = rng.random() < 0.5
    with_cnt = rng.random() < 0.5
    glob_state = rng.random() < 0.3  # a state which has no batch dim
    ta = rng.random() < 0.2
    grad = rng.random() < 0.5
    case.desc(nb=env.nb, lens=S.sizes_of(env, t), f=f.dimension, xs=with_xs, y2=with_y2, cnt=with_cnt, glob=glob_state, ta=ta, grad=grad)
    x, xseq = env.make([t, f])
    if not any(d == env.batch for d in x.dims):
        raise AssertionError("no batch")
    m, mseq = env.make([t], dtype="int32")
    s0, s0seq = env.make([f])
    c0, c0seq = env.make([], dtype="int32")
    if grad:
        for v in (x, s0):
            v.raw_tensor.requires_grad_(True)
    a = rng.choice([0.5, -0.7, 0.9])

    def body(xs, s):
        case.count("loop_iterations")
        if with_xs:
            xf, mf = xs["x"], xs["m"]
        else:
            xf, mf = None, None
        new = s["s"] * a
        if xf is not None:
            new = rf.tanh(new + xf)
        else:
            new = rf.tanh(new + 0.1)
        y = {"y": new * 2.0 + s["s"]}
        st = {"s": new}
        if with_cnt:
            st["cnt"] = s["cnt"] + (mf if mf is not None else 1)
            y["cnt"] = st["cnt"]
        if glob_state:
            st["g"] = s["g"] * 2 + 1
        if with_y2:
            y["none"] = None
            y["red"] = rf.reduce_sum(new, axis=f)
        return y, st

    initial = {"s": s0}
    ys = {"y": Tensor("y", dims=rng.sample([env.batch, f], 2), dtype="float64")}
    if with_cnt:
        initial["cnt"] = c0
        ys["cnt"] = Tensor("cnt", dims=[env.batch], dtype="int32")
    if glob_state:
        initial["g"] = rf.constant(0, dims=(), dtype="int32")
    if with_y2:
        ys["none"] = None
        ys["red"] = Tensor("red", dims=[env.batch], dtype="float64")
    out, final, out_dim = rf.scan(
        spatial_dim=t, initial=initial, xs={"x": x, "m": m} if with_xs else None, ys=ys, body=body, return_tensor_arrays=ta
    )
    case.equal(out_dim is t or out_dim == t, True, "scan: returned dim is the given dim")
    # oracle
    exp_y, exp_cnt, exp_red, fin_s, fin_cnt = [], [], [], [], []
    sizes = S.sizes_of(env, t)
    for b in range(env.nb):
        s = s0seq[b].astype("float64")
        cnt = int(c0seq[b])
        yy, cc, rr = [], [], []
        for i in range(sizes[b]):
            new = numpy.tanh(s * a + (xseq[b][i] if with_xs else 0.1))
            yy.append(new * 2.0 + s)
            rr.append(new.sum())
            cnt += int(mseq[b][i]) if with_xs else 1
            cc.append(cnt)
            s = new
        exp_y.append(numpy.array(yy).reshape(sizes[b], f.dimension))
        exp_cnt.append(numpy.array(cc, dtype="int64").reshape(sizes[b]))
        exp_red.append(numpy.array(rr).reshape(sizes[b]))
        fin_s.append(s)
        fin_cnt.append(numpy.array(cnt))
    if ta:
        out = {k: (v.stack(axis=t) if v is not None else None) for k, v in out.items()}
    case.equal(sorted(out), sorted(ys), "scan: structure of ys")
    S.check(case, env, out["y"], [t, f], exp_y, "scan output y", dtype="float64")
    S.check(case, env, final["s"], [f], fin_s, "scan final state (of the last valid frame of the sequence)")
    if with_cnt:
        S.check(case, env, out["cnt"], [t], exp_cnt, "scan output cnt")
        S.check(case, env, final["cnt"], [], fin_cnt, "scan final state cnt")
    if with_y2:
        case.require(out["none"] is None, "scan: None output stays None")
        S.check(case, env, out["red"], [t], exp_red, "scan output red")
    if glob_state:
        n = max(sizes) if not static_time else t.dimension
        case.require(final["g"].dims == (), "global state keeps its dims")
        # what a batch-independent state is after the loop depends on the longest sequence
        case.equal(int(_np(final["g"])), 2**n - 1, "scan final global state")
    if grad:
        # of masked outputs and final state, vs the sum over sequences
        loss = rf.reduce_sum(out["y"] * 0.5, axis=out["y"].dims).raw_tensor + final["s"].raw_tensor.sum()
        if not loss.requires_grad:
            return
        g = torch.autograd.grad(loss, [x.raw_tensor, s0.raw_tensor] if with_xs else [s0.raw_tensor], allow_unused=True)
        ex, es = [], []
        for b in range(env.nb):
            sb = torch.tensor(s0seq[b], requires_grad=True)
            xb = torch.tensor(xseq[b], requires_grad=True)
            s, tot = sb, 0.0
            for i in range(sizes[b]):
                new = torch.tanh(s * a + (xb[i] if with_xs else 0.1))
                tot = tot + ((new * 2.0 + s) * 0.5).sum()
                s = new
            tot = tot + s.sum()
            gg = torch.autograd.grad(tot, [xb, sb], allow_unused=True)
            ex.append(numpy.zeros(xseq[b].shape) if gg[0] is None else gg[0].numpy())
            es.append(gg[1].numpy())
        if with_xs and g[0] is not None:
            gx = x.copy_template()
            gx.raw_tensor = g[0]
            S.check(case, env, gx, [t, f], ex, "gradient of xs through scan")
            # padded frames get no gradient
            order = [list(x.dims).index(d) for d in (env.batch, t, f)]
            arr = numpy.transpose(g[0].numpy(), order)
            for b in range(env.nb):
                case.require(not numpy.any(arr[b, sizes[b] :]), "gradient into padded frames of xs")
        gs = s0.copy_template()
        gs.raw_tensor = g[-1]
        S.check(case, env, gs, [f], es, "gradient of the initial state through scan")


# ---------------------------------------------------------------- scan with cond


def k_scan_cond(case):
    import numpy
    import returnn.frontend as rf
    from returnn.tensor import Tensor, Dim

    rng = case.rng
    env = S.Env(case, num_dyn=0)
    beam = Dim(rng.randint(1, 3), name="beam") if rng.random() < 0.5 else None
    cdims = [env.batch] + ([beam] if beam else [])
    rng.shuffle(cdims)
    f = env.static(name="feat")
    before = rng.random() < 0.6
    max_len = rng.choice([None, None, 1, 3, 5]) if rng.random() < 0.6 else None
    max_len_tensor = max_len is not None and rng.random() < 0.4
    ta = rng.random() < 0.2
    give_dim = rng.random() < 0.3
    k = beam.dimension if beam else 1
    g = case.np_rng()
    # every cell has a schedule of its own: after how many iterations cond gets False; maybe True again later
    stop = g.randint(0 if before else 0, 7, size=(env.nb, k))
    again = rng.random() < 0.4
    # the condition may depend on a step counter which is shared by all cells
    key = "t" if rng.random() < 0.5 else "n"
    case.desc(key=key, nb=env.nb, k=k, before=before, max_len=max_len, stop=stop.tolist(), again=again, ta=ta, give_dim=give_dim)

    def cellt(arr, dtype):
        import torch

        ds = [env.batch, beam] if beam else [env.batch]
        t = Tensor("c", dims=ds, dtype=dtype)
        t.raw_tensor = torch.tensor(arr if beam else arr[:, 0]).to(getattr(torch, dtype))
        return t.copy_transpose(cdims)

    stop_t = cellt(stop, "int32")
    x0 = g.normal(size=(env.nb, k))
    x0_t = cellt(x0, "float64")

    def true_at(st, n):
        c = n < st
        if again:
            c = c | (n > st + 1)
        if max_len is None:
            c = c & (n < 12)
        return c

    def cond(_, s):
        c = s[key] < stop_t
        if again:
            c = rf.logical_or(c, s[key] > stop_t + 1)
        if max_len is None:
            c = rf.logical_and(c, s[key] < 12)
        return c

    def body(_, s):
        case.count("loop_iterations")
        new = rf.tanh(s["x"] * 0.5 + 1.0)
        n = s["n"] + 1
        return {"x": new, "i": n}, {"x": new, "n": n, "t": s["t"] + 1}

    n0 = cellt(numpy.zeros((env.nb, k), dtype="int32"), "int32")
    spatial = Dim(None, name="out") if give_dim else None
    ys, final, dim = rf.scan(
        spatial_dim=spatial,
        cond_dims=cdims,
        cond_before_body=before,
        initial={"x": x0_t, "n": n0, "t": rf.constant(0, dims=(), dtype="int32")},
        ys={"x": Tensor("x", dims=cdims, dtype="float64"), "i": Tensor("i", dims=cdims, dtype="int32")},
        cond=cond,
        body=body,
        max_seq_len=rf.constant(max_len, dims=(), dtype="int32") if max_len_tensor else max_len,
        return_tensor_arrays=ta,
    )
    if give_dim:
        case.require(dim is spatial, "scan: the given dim is used for the result")
    if ta:
        # the number of entries pushed is the number of iterations
        if max_lens(dim) == 0:
            return
        ys = {kk: v.stack(axis=dim) for kk, v in ys.items()}
    # expected lengths
    exp_len = numpy.zeros((env.nb, k), dtype="int64")
    for b in range(env.nb):
        for j in range(k):
            n = 0
            alive = bool(true_at(stop[b, j], 0)) if before else True
            while alive and (max_len is None or n < max_len):
                n += 1
                alive = bool(true_at(stop[b, j], n))
            exp_len[b, j] = n
    sz = dim.dyn_size_ext
    case.require(sz is not None and set(sz.dims) == set(cdims), "size of the scan dim has the dims of cond", dims=str(sz))
    got = _np(sz.copy_transpose([env.batch, beam] if beam else [env.batch])).reshape(env.nb, k)
    case.equal(got.tolist(), exp_len.tolist(), "scan with cond: lengths")
    for name in ("x", "i"):
        t = ys[name]
        want = [env.batch] + ([beam] if beam else []) + [dim]
        case.require(set(t.dims) == set(want), "dims of the scan output", got=str(t.dims))
        v = _np(t.copy_transpose(want)).reshape((env.nb, k, -1))
        for b in range(env.nb):
            for j in range(k):
                s = x0[b, j]
                for i in range(exp_len[b, j]):
                    s = numpy.tanh(s * 0.5 + 1.0)
                    e = s if name == "x" else i + 1
                    case.require(abs(v[b, j, i] - e) < 1e-9, "scan with cond: output of a cell", b=b, j=j, i=i, got=float(v[b, j, i]), exp=float(e))
                    case.count("cells")
    case.count("results")


def max_lens(dim):
    return int(dim.get_dim_value())


# ---------------------------------------------------------------- while_loop / cond


def k_while(case):
    import numpy
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Tensor, Dim

    from returnn.frontend.tensor_array import TensorArray

    rng = case.rng
    env = S.Env(case, num_dyn=1)
    f = env.static(name="feat")
    n = rng.randint(0, 6)
    grow = rng.random() < 0.6
    bool_cond = rng.random() < 0.3
    use_ta = rng.random() < 0.4
    case.desc(nb=env.nb, n=n, grow=grow, bool_cond=bool_cond, ta=use_ta, f=f.dimension)
    x, xs = env.make([f])
    hist0 = Dim(0, name="hist0") if rng.random() < 0.7 else Dim(2, name="hist0")
    h, hs = env.make([hist0, f], gen=lambda shape: case.np_rng().normal(size=shape) if 0 not in shape else numpy.zeros(shape), order=None)
    h0 = [v.copy() for v in hs]
    calls = []

    def cond_(s):
        calls.append("c")
        if bool_cond:
            return bool(int(s["i"].raw_tensor) < n)
        return s["i"] < n

    def body(s):
        calls.append("b")
        case.count("loop_iterations")
        new_x = s["x"] * 0.5 + rf.cast(s["i"], "float64")
        out = {"i": s["i"] + 1, "x": new_x, "none": None}
        if grow:
            one = Dim(1, name="one")
            hh, hd = rf.concat((s["h"], s["hd"]), (rf.expand_dim(new_x, one), one))
            out["h"], out["hd"] = hh, hd
        if use_ta:
            out["ta"] = s["ta"].push_back(new_x)
        return out

    init = {"i": rf.constant(0, dims=(), dtype="int32"), "x": x, "none": None}
    if grow:
        init["h"], init["hd"] = h, hist0
    ta0 = None
    if use_ta:
        ta0 = init["ta"] = TensorArray(Tensor("x", dims=x.dims, dtype=x.dtype))
    out = rf.while_loop(cond_, body, init)
    case.equal(calls, ["c", "b"] * n + ["c"], "while_loop: order of cond and body calls")
    exp_x, exp_h = [], []
    for b in range(env.nb):
        v, hh = xs[b], list(h0[b])
        for i in range(n):
            v = v * 0.5 + i
            hh.append(v)
        exp_x.append(v)
        exp_h.append(numpy.array(hh).reshape(len(hh), f.dimension))
    case.equal(int(_np(out["i"])), n, "while_loop counter")
    case.require(out["none"] is None, "None loop var")
    S.check(case, env, out["x"], [f], exp_x, "while_loop var")
    if grow:
        S.check(case, env, out["h"], [out["hd"], f], exp_h, "while_loop growing var")
    if use_ta and n:
        d = Dim(n, name="n")
        got = out["ta"].stack(axis=d)
        S.check(case, env, got, [d, f], [e[len(h0[0]) :] for e in exp_h], "while_loop TensorArray")


def k_cond(case):
    import returnn.frontend as rf

    rng = case.rng
    env = S.Env(case, num_dyn=1)
    x, xs = env.make([env.dyn[0]])
    val = rng.random() < 0.5
    pred = val if rng.random() < 0.5 else rf.constant(val, dims=(), dtype="bool")
    ran = []
    case.desc(val=val, tensor=not isinstance(pred, bool), nb=env.nb, lens=env.lens[env.dyn[0]])

    def a():
        ran.append("a")
        return {"r": x + 1.0, "s": (x,)}

    def b():
        ran.append("b")
        return {"r": x * 2.0, "s": (x - 1.0,)}

    out = rf.cond(pred, a, b)
    case.equal(ran, ["a"] if val else ["b"], "cond: branch executed")
    S.check(case, env, out["r"], [env.dyn[0]], [v + 1 if val else v * 2 for v in xs], "cond result")
    S.check(case, env, out["s"][0], [env.dyn[0]], [v if val else v - 1 for v in xs], "cond result 2")


# ---------------------------------------------------------------- TensorArray


def k_tensor_array(case):
    """functional API: every push_back gives a new array, all arrays made so far stay what they were"""
    import numpy
    import returnn.frontend as rf
    from returnn.tensor import Tensor, Dim

    from returnn.frontend.tensor_array import TensorArray

    rng = case.rng
    env = S.Env(case, num_dyn=1)
    t = env.dyn[0]
    f = env.static(name="feat")
    dims = rng.choice([[f], [t], [t, f], []])
    case.desc(nb=env.nb, lens=env.lens[t], f=f.dimension, dims=[d.name for d in dims])
    tmpl_dims = [env.batch] + dims
    rng.shuffle(tmpl_dims)
    arrays = [(TensorArray(Tensor("x", dims=tmpl_dims, dtype="float64")), [])]
    if rng.random() < 0.4:
        ax = env.static(rng.randint(1, 4), name="ax") if rng.random() < 0.5 else env.new_dyn("ax")
        x, xs = env.make([ax] + dims)
        n = ax.dimension or max(env.lens[ax])
        raw = numpy.moveaxis(_np(x), list(x.dims).index(ax), 0)
        rest = [d for d in x.dims if d != ax]
        perm = [rest.index(d) for d in [env.batch] + dims]
        vals = []
        for i in range(n):
            v = numpy.transpose(raw[i], perm)
            vals.append([v[b][tuple(slice(0, env.size(d, b)) for d in dims)] for b in range(env.nb)])
        arrays.append((TensorArray.unstack(x, axis=ax), vals))
    for _ in range(rng.randint(2, 7)):
        arr, vals = rng.choice(arrays)
        y, ys = env.make(dims)
        arrays.append((arr.push_back(y), vals + [ys]))
    for arr, vals in arrays:
        case.count("cells", len(vals))
        for i, v in enumerate(vals):
            idx = i if rng.random() < 0.5 else rf.constant(i, dims=(), dtype="int32")
            S.check(case, env, arr[idx], dims, v, "TensorArray item %i" % i)
        if vals:
            d = Dim(len(vals), name="n") if rng.random() < 0.5 else Dim(None, name="n")
            if d.dimension is None:
                d.dyn_size_ext = rf.convert_to_tensor(len(vals), dtype="int32")
            st = arr.stack(axis=d)
            raw_n = st.raw_tensor.shape[list(st.dims).index(d)]
            case.equal(raw_n, len(vals), "TensorArray.stack: number of entries")
            S.check(case, env, st, [d] + dims, [numpy.stack([v[b] for v in vals]) for b in range(env.nb)], "TensorArray.stack")


# ---------------------------------------------------------------- nested state


class _St:
    """decoder-like state with cells (batch, beam): history with one length per cell, scores, a batch-only encoder tensor, a global scalar"""

    def __init__(self, case, env, cdims, pre, same_hist=None):
        import torch
        import numpy
        import returnn.frontend as rf
        from returnn.tensor import Tensor, Dim

        g = case.np_rng()
        self.cdims = cdims
        self.shape = tuple(d.get_dim_value() if d.dimension is None else d.dimension for d in cdims)
        self.shape = tuple(int(v) for v in self.shape)
        self.f = env.f
        if same_hist is None:
            self.lens = g.randint(0, 4, size=self.shape)
            if self.lens.max() == 0:
                self.lens.flat[0] = 1
            raw = Tensor(pre + "hist", dims=cdims, dtype="int32")
            raw.raw_tensor = torch.tensor(self.lens.astype("int32"))
            self.hist = Dim(raw, name=pre + "hist")
        else:
            self.lens, self.hist = same_hist.lens, same_hist.hist
        mx = int(self.lens.max())
        h = g.normal(size=self.shape + (mx, env.f.dimension)) * 5
        self.h = Tensor("h", dims=list(cdims) + [self.hist, env.f], dtype="float64", raw_tensor=torch.tensor(h))
        self.h = self.h.copy_transpose(case.rng.sample(list(self.h.dims), len(self.h.dims)))
        self.score_ = g.normal(size=self.shape)
        self.score = Tensor("score", dims=cdims, dtype="float64", raw_tensor=torch.tensor(self.score_))
        self.lab_ = g.randint(0, 9, size=self.shape).astype("int32")
        self.lab = Tensor("lab", dims=cdims, dtype="int32", raw_tensor=torch.tensor(self.lab_), sparse_dim=env.vocab)
        self.cells = {}
        for idx in numpy.ndindex(*self.shape):
            self.cells[idx] = (h[idx][: self.lens[idx]], self.score_[idx], self.lab_[idx])

    def state(self, **other):
        d = {"hist": self.hist, "h": self.h, "score": self.score, "deep": {"lab": (self.lab,)}}
        d.update(other)
        return d


def _read(case, env, st, cdims, msg):
    """cells of a state"""
    import numpy

    h, hist = st["h"], st["hist"]
    want = list(cdims) + [hist, env.f]
    case.require(set(h.dims) == set(want), msg + ": dims of the history", got=str(h.dims), want=str(want))
    h = _np(h.copy_transpose(want))
    shape = h.shape[: len(cdims)]
    size = hist.get_size_tensor()
    from returnn.tensor import Tensor

    if hist.dimension is not None:
        lens = numpy.full(shape, hist.dimension)
    else:
        size = size.copy_compatible_to_dims(cdims)
        lens = numpy.broadcast_to(_np(size), shape)
    case.require(h.shape[len(cdims)] >= (lens.max() if lens.size else 0), msg + ": history raw size", got=h.shape)
    score, lab = st["score"], st["deep"]["lab"][0]
    case.require(set(score.dims) == set(cdims) and set(lab.dims) == set(cdims), msg + ": dims", got=str((score.dims, lab.dims)))
    case.require(lab.sparse_dim == env.vocab, msg + ": sparse dim of labels lost")
    score, lab = _np(score.copy_transpose(cdims)), _np(lab.copy_transpose(cdims))
    return {idx: (h[idx][: lens[idx]], score[idx], lab[idx]) for idx in numpy.ndindex(*shape)}


def _cmp(case, got, exp, msg):
    import numpy

    case.equal(sorted(got), sorted(exp), msg + ": cells")
    for idx in exp:
        for g, e, what in zip(got[idx], exp[idx], ("history", "score", "label")):
            g, e = numpy.asarray(g), numpy.asarray(e)
            case.require(g.shape == e.shape and numpy.allclose(g, e), "%s: %s of cell %s" % (msg, what, idx), got=g.tolist(), exp=e.tolist())
        case.count("cells")
    case.count("results")


def k_nested(case):
    import numpy
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Tensor, Dim

    rng = case.rng
    env = S.Env(case, num_dyn=1)
    env.f = env.static(name="feat")
    env.vocab = Dim(9, name="vocab")
    g = case.np_rng()
    beam = Dim(rng.randint(1, 3), name="beam")
    cdims = rng.choice([[env.batch], [env.batch, beam], [beam, env.batch]])
    st = _St(case, env, cdims, "a")
    enc, encs = env.make([env.dyn[0]])
    state = st.state(enc=enc, glob=rf.constant(3, dims=(), dtype="int32"), static=env.f)
    op = rng.choice(["mask", "gather", "select", "select"])
    case.desc(op=op, cdims=[d.name for d in cdims], shape=list(st.shape), lens=st.lens.tolist(), f=env.f.dimension)

    def check_other(out, msg):
        case.require(out["static"] is env.f or out["static"] == env.f, msg + ": static dim")
        case.require(out["glob"].dims == () and int(_np(out["glob"])) == 3, msg + ": scalar")

    if op == "mask":
        other = _St(case, env, cdims, "b", same_hist=st if rng.random() < 0.3 else None)
        mdims = cdims if rng.random() < 0.7 else [env.batch]
        m = g.randint(0, 2, size=[int(d.get_dim_value()) for d in mdims]).astype(bool)
        mask = Tensor("mask", dims=mdims, dtype="bool", raw_tensor=torch.tensor(m))
        ostate = other.state(enc=enc, glob=state["glob"], static=env.f)
        kw = {"mask_cpu": mask} if rng.random() < 0.3 else {}
        if rng.random() < 0.5:
            kw["allow_dim_extension"] = False
            out = rf.nested.mask_nested({k: v for k, v in state.items() if k != "enc"}, mask=mask, mask_value={k: v for k, v in ostate.items() if k != "enc"}, **kw) if mdims == cdims else None
            if out is None:
                case.trivial()
                return
        else:
            out = rf.nested.mask_nested({k: v for k, v in state.items() if k != "glob"}, mask=mask, mask_value={k: v for k, v in ostate.items() if k != "glob"}, **kw)
            out["glob"] = state["glob"]
        exp = {}
        for idx in st.cells:
            mi = idx if mdims == cdims else (idx[cdims.index(env.batch)],)
            exp[idx] = (st if m[mi] else other).cells[idx]
        _cmp(case, _read(case, env, out, cdims, "mask_nested"), exp, "mask_nested")
        if "glob" in out:
            check_other(out, "mask_nested")
        return
    if op == "gather":
        single = rng.random() < 0.4  # one hypothesis, e.g. greedy search, everything beam-major
        if beam not in cdims or single:
            if single:
                beam = Dim(rng.randint(2, 3), name="beam")
            cdims = [beam, env.batch] if single else [env.batch, beam]
            st = _St(case, env, cdims, "a")
            state = st.state(enc=enc, glob=state["glob"], static=env.f)
        nbeam = Dim(1 if single else rng.randint(1, 4), name="new_beam")
        ix = g.randint(0, beam.dimension, size=(env.nb, nbeam.dimension))
        idims = [env.batch, nbeam]
        it = Tensor("backrefs", dims=idims, dtype="int32", sparse_dim=beam, raw_tensor=torch.tensor(ix.astype("int32"))).copy_transpose([nbeam, env.batch] if single else rng.sample(idims, 2))
        dim_map = {} if rng.random() < 0.5 else None
        out = rf.nested.gather_nested(state, indices=it, dim_map=dim_map)
        exp = {}
        for b in range(env.nb):
            for j in range(nbeam.dimension):
                src = [0, 0]
                src[cdims.index(env.batch)], src[cdims.index(beam)] = b, int(ix[b, j])
                exp[b, j] = st.cells[tuple(src)]
        _cmp(case, _read(case, env, out, [env.batch, nbeam], "gather_nested"), exp, "gather_nested")
        check_other(out, "gather_nested")
        S.check(case, env, out["enc"], [env.dyn[0]], encs, "gather_nested: tensor without beam")
        if dim_map is not None:
            case.equal([out["hist"]], [dim_map[st.hist]], "gather_nested: dim map")
        return
    # select, modify the selected cells, scatter back
    m = g.randint(0, 2, size=st.shape).astype(bool)
    if not m.any():
        m.flat[0] = True
    mask = Tensor("mask", dims=cdims, dtype="bool", raw_tensor=torch.tensor(m))
    order = rng.sample(cdims, len(cdims))
    nm = int(m.sum())
    base = {k: v for k, v in state.items() if k != "enc"}
    out, packed, dim_map = rf.nested.masked_select_nested(base, mask=mask, mask_cpu=mask if rng.random() < 0.3 else None, dims=order)
    perm = [cdims.index(d) for d in order]
    sel = []
    for pidx in numpy.ndindex(*[st.shape[p] for p in perm]):
        idx = tuple(pidx[perm.index(i)] for i in range(len(perm)))
        if m[idx]:
            sel.append(idx)
    case.equal(int(packed.get_dim_value()), nm, "masked_select_nested: number of cells")
    got = _read(case, env, out, [packed], "masked_select_nested")
    _cmp(case, got, {(i,): st.cells[idx] for i, idx in enumerate(sel)}, "masked_select_nested")
    check_other(out, "masked_select_nested")
    # extend the histories of the selected cells by one frame with a marker, as a label-sync step with blank does
    new = dict(out)
    exp = dict(st.cells)
    if rng.random() < 0.6:
        one = Dim(1, name="one")
        marker = rf.expand_dim(rf.expand_dim(out["score"], one), env.f)
        new["h"], new["hist"] = rf.concat((marker, one), (out["h"], out["hist"]))
        for idx in sel:
            h, s, lab = st.cells[idx]
            exp[idx] = (numpy.concatenate([numpy.full((1, env.f.dimension), s), h], axis=0), s, lab)
    new["score"] = out["score"] + 100.0
    for idx in sel:
        exp[idx] = (exp[idx][0], exp[idx][1] + 100.0, exp[idx][2])
    back = rf.nested.masked_scatter_nested(new, base, mask=mask, mask_cpu=mask, dims=order, in_dim=packed, masked_select_dim_map=dim_map)
    back.pop("glob", None) if set(getattr(back["glob"], "dims", ())) else None
    _cmp(case, _read(case, env, back, cdims, "masked_scatter_nested"), exp, "masked_scatter_nested")


KINDS = {
    "scan_spatial": {"func": k_scan_spatial, "quick": 150, "thorough": 4000},
    "scan_cond": {"func": k_scan_cond, "quick": 100, "thorough": 3000},
    "while": {"func": k_while, "quick": 60, "thorough": 1500},
    "cond": {"func": k_cond, "quick": 12, "thorough": 100},
    "tensor_array": {"func": k_tensor_array, "quick": 60, "thorough": 1500},
    "nested": {"func": k_nested, "quick": 200, "thorough": 5000},
}
