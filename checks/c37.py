"""C37: TF layers: values and lengths = definition on each sequence alone (random graphs of layers, numpy reference)."""
import math
import numpy
from vlib import tfnet

RULE = (
    "random graphs of 3-7 layers over [B,T,F] data (batch- or time-major placeholders), sparse labels and per-sequence values: about 60 layer types with random options, most of which change the lengths; every layer output is compared, per sequence, "
    "with a numpy reference evaluated on the unpadded sequence; the padding frames of the inputs contain large garbage. Non-trivial: more than one sequence with different lengths."
)
ASSUMPTIONS = ["float32, CPU, latest behaviour version", "for layers which by documentation do not mask (window, conv without use_time_mask, reverse cumsum), the padding is masked before by a seq_len_mask layer"]
MIN_COUNTS = {"layers": 500, "seqs": 1500, "len_changes": 150, "sparse": 100, "time_major": 20, "losses": 60, "grads": 60}
BUDGET = {"quick": 400, "thorough": 2000}
CASE_TIMEOUT = 120


def worker_init():
    tfnet.init()


def sig(x):
    return 1 / (1 + numpy.exp(-x))


def softmax(x, axis=-1):
    x = numpy.exp(x - x.max(axis, keepdims=True))
    return x / x.sum(axis, keepdims=True)


ACT = {
    None: lambda x: x,
    "tanh": numpy.tanh,
    "relu": lambda x: numpy.maximum(x, 0),
    "sigmoid": sig,
    "softmax": softmax,
    "log_softmax": lambda x: numpy.log(softmax(x)),
    "swish": lambda x: x * sig(x),
    "elu": lambda x: numpy.where(x > 0, x, numpy.exp(numpy.minimum(x, 0)) - 1),
    "abs": numpy.abs,
    "square": numpy.square,
    "softplus": lambda x: numpy.log1p(numpy.exp(-numpy.abs(x))) + numpy.maximum(x, 0),
}


class Undefined(Exception):
    """not defined by the definition of the layers (e.g. maximum over no frames)"""


class N:
    """node: kind "tf" [T,F], "f" [F], "s" sparse [T], "i" int scalar per sequence, "t" float [T]; tid: time axis identity"""

    def __init__(self, name, kind, dim, tid, fn, clean=False):
        self.name, self.kind, self.dim, self.tid, self.fn, self.clean = name, kind, dim, tid, fn, clean
        self.cls = "data"


class Builder:
    def __init__(self, case):
        self.case, self.rng = case, case.rng
        self.net = {}
        self.nodes = []
        self.n = 0
        self.tids = 1
        self.P = {}  # params, set later
        self.used = []
        self.cache = {}
        self.min_len = {}

    def val(self, node, b):
        k = (node.name, b)
        if k not in self.cache:
            try:
                self.cache[k] = node.fn(b)
            except Undefined:
                self.cache[k] = None
        if self.cache[k] is None:
            raise Undefined
        return self.cache[k]

    def new_tid(self):
        self.tids += 1
        return self.tids

    def add(self, d, kind, dim, tid, fn, clean=False, sub=None):
        self.n += 1
        name = "l%i" % self.n
        d = dict(d)
        cls = d["class"]
        if not d.pop("_hidden", False):
            d["is_output_layer"] = True
        self.net[name] = d
        nd = N(name + (sub or ""), kind, dim, tid, None, clean)
        nd.fn = fn(name)
        nd.cls = cls
        self.nodes.append(nd)
        return nd

    def pick(self, kind="tf", tid=None, dim=None, multi=True):
        c = [x for x in self.nodes if x.kind == kind and (tid is None or x.tid == tid) and (dim is None or x.dim == dim)]
        if not c:
            return None
        # prefer late nodes
        return self.rng.choice(c[-3:] if self.rng.random() < 0.6 else c)

    def masked(self, x):
        """x, with zeros in the padding"""
        if x.clean:
            return x
        return self.add({"class": "seq_len_mask", "from": x.name, "mask_value": 0.0, "axis": "T"}, "tf", x.dim, x.tid, lambda name: lambda b: self.val(x, b), clean=True)

    def p(self, name):
        return self.P[name].astype("float64")


OPS = {}


def op(f):
    OPS[f.__name__[2:]] = f
    return f


# each: f(B) -> True if something was added


def unary(B, d, x, fn, dim=None, tid=None, kind="tf"):
    """fn(value, b, name) -> value"""
    changes_len = tid is not None and tid != x.tid

    def f(name):
        def g(b):
            v = B.val(x, b)
            if changes_len and len(v) == 0:
                return None  # e.g. padding of a sequence which was too short for an earlier convolution: not specified
            return fn(v, b, name)

        return g

    return B.add(dict({"from": x.name}, **d), kind, x.dim if dim is None else dim, x.tid if tid is None else tid, f)


def feat_last(B, x):
    """some layers refuse other orders of the axes"""
    return x.name == "data:data" or B.net.get(x.name, {}).get("class") in ("linear", "conv", "self_attention", "rec")


@op
def o_linear(B):
    x = B.pick(B.rng.choice(["tf", "tf", "f", "s"]))
    if x is None:
        return
    n = B.rng.randint(1, 7)
    act = B.rng.choice([None, "tanh", "relu", "sigmoid", "softmax", "log_softmax", "swish"])
    bias = B.rng.random() < 0.7
    srcs = [x]
    if x.kind == "tf" and B.rng.random() < 0.3:
        y = B.pick("tf", tid=x.tid)
        srcs.append(y)
    d = {"class": "linear", "from": [s.name for s in srcs], "n_out": n, "activation": act, "with_bias": bias}
    if act in ("softmax",) and bias and B.rng.random() < 0.5:
        d["class"] = "softmax"
        del d["activation"], d["with_bias"]

    def fn(name):
        def f(b):
            if x.kind == "s":
                v = B.p(name + "/W")[B.val(x, b)]
            else:
                v = numpy.concatenate([B.val(s, b) for s in srcs], -1) @ B.p(name + "/W")
            if bias:
                v = v + B.p(name + "/b")
            return ACT[act](v)

        return f

    return B.add(d, "f" if x.kind == "f" else "tf", n, x.tid, fn)


@op
def o_activation(B):
    x = B.pick(B.rng.choice(["tf", "tf", "f"]))
    if x is None:
        return
    a = B.rng.choice([k for k in ACT if k])
    return unary(B, {"class": "activation", "activation": a}, x, lambda v, b, n: ACT[a](v), kind=x.kind)


@op
def o_copy(B):
    x = B.pick("tf")
    y = B.pick("tf", tid=x.tid)
    if B.rng.random() < 0.4:
        return unary(B, {"class": B.rng.choice(["copy", "identity"])}, x, lambda v, b, n: v)
    return B.add({"class": "copy", "from": [x.name, y.name]}, "tf", x.dim + y.dim, x.tid, lambda name: lambda b: numpy.concatenate([B.val(x, b), B.val(y, b)], -1))


@op
def o_dropout(B):
    x = B.pick("tf")
    return unary(B, {"class": "dropout", "dropout": 0.7}, x, lambda v, b, n: v)


@op
def o_layer_norm(B):
    x = B.pick(B.rng.choice(["tf", "f"]))
    if x is None:
        return

    def fn(v, b, n):
        m = v.mean(-1, keepdims=True)
        s = ((v - m) ** 2).mean(-1, keepdims=True)
        return (v - m) / numpy.sqrt(s + 1e-6) * B.p(n + "/scale") + B.p(n + "/bias")

    if x.dim < 2:
        return
    return unary(B, B.rng.choice([{"class": "layer_norm"}, {"class": "norm", "axis": "F"}]), x, fn, kind=x.kind)


@op
def o_combine(B):
    x = B.pick("tf")
    y = B.pick("tf", tid=x.tid, dim=x.dim) if B.rng.random() < 0.7 else (B.pick("f", dim=x.dim) or B.pick("t", tid=x.tid))
    if y is None:
        return
    kind = B.rng.choice(["add", "sub", "mul", "maximum", "minimum", "average", "eval", "squared_difference"])
    F = {
        "add": lambda a, c: a + c,
        "sub": lambda a, c: a - c,
        "mul": lambda a, c: a * c,
        "maximum": numpy.maximum,
        "minimum": numpy.minimum,
        "average": lambda a, c: (a + c) / 2,
        "squared_difference": lambda a, c: (a - c) ** 2,
        "logaddexp": numpy.logaddexp,
        "eval": lambda a, c: a * 0.5 - numpy.tanh(c),
    }[kind]
    d = {"class": "combine", "kind": kind}
    if kind == "eval":
        d = {"class": "eval", "eval": "source(0) * 0.5 - tf.tanh(source(1))"}
    xs = [x, y]
    if B.rng.random() < 0.4 and kind in ("add", "mul", "sub", "eval"):
        xs = [y, x]

    def fn(name):
        def f(b):
            vs = [B.val(s, b) for s in xs]
            vs = [v[:, None] if s.kind == "t" else v for v, s in zip(vs, xs)]
            return F(*vs)

        return f

    return B.add(dict(d, **{"from": [s.name for s in xs]}), "tf", x.dim, x.tid, fn)


@op
def o_compare_switch(B):
    x = B.pick("tf")
    kind, f = B.rng.choice([("greater", numpy.greater), ("less_equal", numpy.less_equal), ("less", numpy.less)])
    y = B.pick("tf", tid=x.tid, dim=x.dim)
    c = unary(B, {"class": "compare", "kind": kind, "value": 0.1}, x, lambda v, b, n: f(v, 0.1), kind="bool")
    if B.rng.random() < 0.5:
        return B.add({"class": "switch", "condition": c.name, "true_from": y.name, "false_from": -3.0}, "tf", x.dim, x.tid, lambda name: lambda b: numpy.where(B.val(c, b), B.val(y, b), -3.0))
    return B.add({"class": "switch", "condition": c.name, "true_from": x.name, "false_from": y.name}, "tf", x.dim, x.tid, lambda name: lambda b: numpy.where(B.val(c, b), B.val(x, b), B.val(y, b)))


@op
def o_slice_f(B):
    x = B.pick(B.rng.choice(["tf", "f"]))
    if x is None or x.dim < 2:
        return
    s = slice(B.rng.choice([None, 0, 1]), B.rng.choice([None, -1, x.dim, x.dim - 1]), B.rng.choice([None, None, 2]))
    n = len(range(x.dim)[s])
    if n == 0:
        return
    return unary(B, {"class": "slice", "axis": "F", "slice_start": s.start, "slice_end": s.stop, "slice_step": s.step}, x, lambda v, b, nm: v[..., s], dim=n, kind=x.kind)


@op
def o_slice_t(B):
    x = B.pick(B.rng.choice(["tf", "s"]))
    if x is None:
        return
    s = slice(B.rng.choice([None, 1, 2]), B.rng.choice([None, None, -1]), B.rng.choice([None, None, 2, 3]))
    if s == slice(None, None, None):
        return
    return unary(B, {"class": "slice", "axis": "T", "slice_start": s.start, "slice_end": s.stop, "slice_step": s.step}, x, lambda v, b, nm: v[s], tid=B.new_tid(), kind=x.kind)


@op
def o_slice_nd(B):
    x = B.pick("tf")
    st = B.pick("i")
    size = B.rng.choice([k for k in (1, 2, 3, 4) if k != x.dim])

    def fn(name):
        def f(b):
            v, s = B.val(x, b), int(B.val(st, b))
            r = numpy.zeros((size, x.dim))
            for i in range(size):
                if 0 <= s + i < len(v):
                    r[i] = v[s + i]
            return r

        return f

    y = B.add({"class": "slice_nd", "from": x.name, "start": st.name, "size": size}, "st", (size, x.dim), None, fn)
    return y


@op
def o_gather(B):
    # position inside of the sequence
    x = B.pick("tf")
    n = B.add({"class": "length", "from": x.name, "axis": "T"}, "i", None, None, lambda name: lambda b: len(B.val(x, b)))
    st = B.pick("i")
    pos = B.add({"class": "eval", "from": [st.name, n.name], "eval": "tf.maximum(tf.minimum(source(0), source(1) - 1), 0)"}, "i", None, None, lambda name: lambda b: max(min(int(B.val(st, b)), int(B.val(n, b)) - 1), 0))
    return B.add({"class": "gather", "from": x.name, "position": pos.name, "axis": "T"}, "f", x.dim, None, lambda name: lambda b: B.val(x, b)[B.val(pos, b)] if len(B.val(x, b)) else None)


@op
def o_gather_f(B):
    x = B.pick("tf")
    i = B.rng.randrange(x.dim)
    return unary(B, {"class": "gather", "position": i, "axis": "F"}, x, lambda v, b, n: v[:, i], kind="t")


@op
def o_gather_seq(B):
    """frames by label sequence, clipped to valid"""
    x = B.pick("tf")
    s = B.pick("s")
    return B.add(
        {"class": "gather", "from": x.name, "position": s.name, "axis": "T", "clip_to_valid": True}, "tf", x.dim, s.tid, lambda name: lambda b: B.val(x, b)[numpy.clip(B.val(s, b), 0, len(B.val(x, b)) - 1)] if len(B.val(x, b)) else None
    ) if x.tid != s.tid else None


@op
def o_cumsum(B):
    x = B.pick("tf")
    rev = B.rng.random() < 0.4
    if rev:
        x = B.masked(x)
        return unary(B, {"class": "cumsum", "axis": "T", "reverse": True}, x, lambda v, b, n: v[::-1].cumsum(0)[::-1])
    return unary(B, {"class": "cumsum", "axis": "T"}, x, lambda v, b, n: v.cumsum(0))


@op
def o_pad(B):
    x = B.pick("tf")
    if B.rng.random() < 0.3:
        l, r = B.rng.randint(0, 2), B.rng.randint(0, 2)
        if l + r == 0:
            return
        return unary(B, {"class": "pad", "axes": "F", "padding": (l, r), "value": 1.5}, x, lambda v, b, n: numpy.pad(v, ((0, 0), (l, r)), constant_values=1.5), dim=x.dim + l + r)
    l, r = B.rng.randint(0, 3), B.rng.randint(0, 3)
    if l + r == 0:
        return
    return unary(B, {"class": "pad", "axes": "T", "padding": (l, r), "value": -2.0}, x, lambda v, b, n: numpy.pad(v, ((l, r), (0, 0)), constant_values=-2.0), tid=B.new_tid())


@op
def o_prefix(B):
    x = B.pick(B.rng.choice(["tf", "s"]))
    r = B.rng.randint(1, 3)
    c = 1 if x.kind == "s" else 0.5
    full = lambda v, k: numpy.full((k,) + v.shape[1:], c, v.dtype)
    return unary(B, {"class": "prefix_in_time", "prefix": c, "repeat": r}, x, lambda v, b, n: numpy.concatenate([full(v, r), v]), tid=B.new_tid(), kind=x.kind)


@op
def o_slice_prefix(B):
    """cut off a different number of frames of each sequence; prefix_in_time recovers the original shape"""
    x = B.pick("tf")
    n = B.add({"class": "length", "from": x.name, "axis": "T"}, "i", None, None, lambda name: lambda b: len(B.val(x, b)))
    st = B.pick("i")
    pos = B.add({"class": "eval", "from": [st.name, n.name], "eval": "tf.maximum(tf.minimum(source(0), source(1)), 0)"}, "i", None, None, lambda name: lambda b: max(min(int(B.val(st, b)), int(B.val(n, b))), 0))
    y = B.add({"class": "slice_nd", "from": x.name, "start": pos.name, "size": None}, "tf", x.dim, B.new_tid(), lambda name: lambda b: B.val(x, b)[B.val(pos, b) :])
    return B.add(
        {"class": "prefix_in_time", "from": y.name, "repeat": pos.name, "prefix": 0.5, "size_base": x.name}, "tf", x.dim, x.tid, lambda name: lambda b: numpy.concatenate([numpy.full((B.val(pos, b), x.dim), 0.5), B.val(y, b)])
    )


@op
def o_postfix(B):
    x = B.pick(B.rng.choice(["tf", "s"]))
    r = B.rng.randint(1, 3)
    c = 1 if x.kind == "s" else 0.5
    y = B.pick("f", dim=x.dim) if x.kind == "tf" and B.rng.random() < 0.4 else None
    if y is not None:
        return B.add({"class": "postfix_in_time", "from": x.name, "postfix": y.name, "repeat": 1}, x.kind, x.dim, B.new_tid(), lambda name: lambda b: numpy.concatenate([B.val(x, b), B.val(y, b)[None]]))
    return unary(B, {"class": "postfix_in_time", "postfix": c, "repeat": r}, x, lambda v, b, n: numpy.concatenate([v, numpy.full((r,) + v.shape[1:], c, v.dtype)]), tid=B.new_tid(), kind=x.kind)


@op
def o_repeat(B):
    x = B.pick(B.rng.choice(["tf", "s"]))
    if B.rng.random() < 0.5:
        r = B.rng.randint(1, 3)
        return unary(B, {"class": "repeat", "repetitions": r, "axis": "T"}, x, lambda v, b, n: numpy.repeat(v, r, 0), tid=B.new_tid(), kind=x.kind)
    s = B.pick("s", tid=x.tid)
    if s is None:
        return
    return B.add({"class": "repeat", "from": x.name, "repetitions": s.name, "axis": "T"}, x.kind, x.dim, B.new_tid(), lambda name: lambda b: numpy.repeat(B.val(x, b), B.val(s, b), 0))


@op
def o_resize(B):
    x = B.pick("tf")
    f = B.rng.randint(2, 3)
    if B.rng.random() < 0.4:
        return unary(B, {"class": "resize", "factor": f, "axis": "T", "kind": "fill", "fill_value": 7}, x, lambda v, b, n: numpy.stack([v] + [numpy.full_like(v, 7)] * (f - 1), 1).reshape(len(v) * f, x.dim), tid=B.new_tid())
    return unary(B, {"class": "resize", "factor": f, "axis": "T"}, x, lambda v, b, n: numpy.repeat(v, f, 0), tid=B.new_tid())


@op
def o_shift_axis(B):
    x = B.masked(B.pick("tf"))
    a = B.rng.choice([-2, -1, 1, 2])

    def fn(v, b, n):
        r = numpy.zeros_like(v)
        for t in range(len(v)):
            if 0 <= t - a < len(v):
                r[t] = v[t - a]
        return r

    return unary(B, {"class": "shift_axis", "axis": "T", "amount": a, "pad": True, "adjust_size_info": False}, x, fn)


@op
def o_shift_adjust(B):
    x = B.pick("tf")
    a = B.rng.choice([1, 2])  # to the left: the first frames vanish
    return unary(B, {"class": "shift_axis", "axis": "T", "amount": -a, "pad": False, "adjust_size_info": True}, x, lambda v, b, n: v[a:], tid=B.new_tid())


@op
def o_window(B):
    x = B.masked(B.pick("tf"))
    w = B.rng.choice([k for k in (2, 3, 4, 5) if k != x.dim])
    left = B.rng.randint(0, w - 1)
    stride = B.rng.choice([1, 1, 2])

    def fn(v, b, n):
        T = -(-len(v) // stride)
        r = numpy.zeros((T, w, x.dim))
        for t in range(T):
            for k in range(w):
                j = t * stride + k - left
                if 0 <= j < len(v):
                    r[t, k] = v[j]
        return r

    d = {"class": "window", "window_size": w, "window_left": left, "window_right": w - left - 1, "stride": stride}
    y = unary(B, d, x, fn, dim=(w, x.dim), kind="twf", tid=x.tid if stride == 1 else B.new_tid())
    m = B.rng.choice(["merge", "reduce"])
    if m == "merge":
        return unary(B, {"class": "merge_dims", "axes": ["dim:%i" % w, "dim:%i" % x.dim], "keep_order": True}, y, lambda v, b, n: v.reshape(len(v), w * x.dim), dim=w * x.dim)
    return unary(B, {"class": "reduce", "mode": "max", "axis": "dim:%i" % w}, y, lambda v, b, n: v.max(1) if len(v) else v[:, 0], dim=x.dim)


@op
def o_reduce_t(B):
    x = B.pick("tf")
    m = B.rng.choice(["mean", "max", "min", "sum", "logsumexp"])
    F = {"mean": lambda v: v.mean(0), "max": lambda v: v.max(0), "min": lambda v: v.min(0), "sum": lambda v: v.sum(0), "logsumexp": lambda v: numpy.log(numpy.exp(v - v.max(0)).sum(0)) + v.max(0)}[m]
    return unary(B, {"class": "reduce", "mode": m, "axis": "T"}, x, lambda v, b, n: F(v) if len(v) else None, kind="f")


@op
def o_reduce_f(B):
    x = B.pick("tf")
    m = B.rng.choice(["mean", "max", "min", "sum"])
    return unary(B, {"class": "reduce", "mode": m, "axis": "F"}, x, lambda v, b, n: getattr(v, m)(1), kind="t")


def arg(m, v, axis):
    """:return: None (unspecified) if two entries are equal up to rounding"""
    w = -v if m == "argmin" else v
    if v.shape[axis] == 0:
        return None
    if v.shape[axis] > 1:
        srt = numpy.sort(w, axis=axis)
        a, b_ = numpy.take(srt, -1, axis), numpy.take(srt, -2, axis)
        if (numpy.abs(a - b_) <= 1e-4 * (1 + numpy.abs(a))).any():
            return None
    return w.argmax(axis)


@op
def o_argmax(B):
    x = B.pick("tf")
    return unary(B, {"class": "reduce", "mode": "argmax", "axis": "F"}, x, lambda v, b, n: arg("argmax", v, 1) if len(v) else v.argmax(1), kind="s")


@op
def o_argmax_t(B):
    x = B.pick("tf")
    m = B.rng.choice(["argmax", "argmin"])
    return unary(B, {"class": "reduce", "mode": m, "axis": "T"}, x, lambda v, b, n: arg(m, v, 0), kind="fi")


@op
def o_math_norm(B):
    x = B.pick("tf")
    p = B.rng.choice([1, 2])
    ax = B.rng.choice("TF")
    if ax == "T":
        x = B.masked(x)
    return unary(B, {"class": "math_norm", "p": p, "axis": ax}, x, lambda v, b, n: (numpy.abs(v) ** p).sum(0 if ax == "T" else 1) ** (1.0 / p), kind="f" if ax == "T" else "t")


@op
def o_reduce_out(B):
    x = B.pick("tf")
    k = next((k for k in (2, 3) if x.dim % k == 0), None)
    if not k or not feat_last(B, x):
        return
    m = B.rng.choice(["max", "mean"])
    return unary(B, {"class": "reduce_out", "mode": m, "num_pieces": k}, x, lambda v, b, n: getattr(v.reshape(len(v), x.dim // k, k), m)(2), dim=x.dim // k)


@op
def o_att(B):
    """dot attention over another sequence"""
    q = B.pick("tf")
    k = B.pick("tf", dim=q.dim)
    if k is None or k.tid == q.tid:
        return
    e = B.add({"class": "dot", "from": [q.name, k.name], "reduce": "F", "var1": "T", "var2": "T"}, "tt", None, None, lambda name: lambda b: B.val(q, b) @ B.val(k, b).T)
    return e


@op
def o_self_attention(B):
    x = B.pick("tf")
    h = B.rng.choice([1, 2])
    kd, vd = h * B.rng.randint(1, 3), h * B.rng.randint(1, 3)
    left = B.rng.random() < 0.5

    def fn(v, b, n):
        z = v @ B.p(n + "/QKV")
        T = len(v)
        z = z.reshape(T, h, (2 * kd + vd) // h)
        q, k, w = z[..., : kd // h], z[..., kd // h : 2 * (kd // h)], z[..., 2 * (kd // h) :]
        e = numpy.einsum("thd,shd->hts", q, k) * (kd // h) ** -0.5
        if not T:
            return numpy.zeros((0, vd))
        if left:
            e = numpy.where(numpy.tril(numpy.ones((T, T), bool))[None], e, -1e30)
        return numpy.einsum("hts,shd->thd", softmax(e), w).reshape(T, vd) if T else numpy.zeros((0, vd))

    return unary(B, {"class": "self_attention", "num_heads": h, "total_key_dim": kd, "n_out": vd, "attention_left_only": left}, x, fn, dim=vd)


@op
def o_positional_encoding(B):
    x = B.pick("tf")
    if not feat_last(B, x):
        return
    if x.dim % 2 or x.dim < 4:
        return
    nt = x.dim // 2

    def fn(v, b, n):
        inc = math.log(1e4) / (nt - 1)
        inv = numpy.exp(numpy.arange(nt) * -inc)
        a = numpy.arange(len(v))[:, None] * inv[None]
        return v + numpy.concatenate([numpy.sin(a), numpy.cos(a)], 1)

    return unary(B, {"class": "positional_encoding", "add_to_input": True}, x, fn)


@op
def o_rec(B):
    x = B.pick("tf")
    n = B.rng.randint(1, 4)
    unit = B.rng.choice(["LSTMBlock", "BasicLSTM", "NativeLstm2", "StandardLSTM", "GRU"])
    direction = B.rng.choice([1, -1])

    def fn(v, b, nm):
        P = {k[len(nm) + 5 :]: B.p(k) for k in B.P if k.startswith(nm + "/rec/")}
        h, c = numpy.zeros(n), numpy.zeros(n)
        out = []
        for t in range(len(v))[::direction]:
            if "W_re" in P:
                j, i, f, o = numpy.split(v[t] @ P["W"] + h @ P["W_re"] + P["b"], 4)
                c = sig(f) * c + sig(i) * numpy.tanh(j)
                h = sig(o) * numpy.tanh(c)
            elif unit == "GRU":
                r, u = numpy.split(sig(numpy.concatenate([v[t], h]) @ P["gru_cell/gates/kernel"] + P["gru_cell/gates/bias"]), 2)
                cc = numpy.tanh(numpy.concatenate([v[t], r * h]) @ P["gru_cell/candidate/kernel"] + P["gru_cell/candidate/bias"])
                h = u * h + (1 - u) * cc
            else:
                cell = "lstm_cell" if unit == "StandardLSTM" else "basic_lstm_cell"
                i, j, f, o = numpy.split(numpy.concatenate([v[t], h]) @ P[cell + "/kernel"] + P[cell + "/bias"], 4)
                c = sig(f + 1) * c + sig(i) * numpy.tanh(j)
                h = sig(o) * numpy.tanh(c)
            out.append(h)
        return numpy.array(out[::direction]).reshape(len(v), n)

    return unary(B, {"class": "rec", "unit": unit, "n_out": n, "direction": direction}, x, fn, dim=n)


@op
def o_conv(B):
    x = B.pick("tf")
    k = B.rng.randint(1, 4)
    n = B.rng.randint(1, 4)
    pad = B.rng.choice(["same", "valid", "same_static"] if B.rng.random() < 0.2 else ["same", "valid"])
    stride = B.rng.choice([1, 1, 2, 3])
    dil = B.rng.choice([1, 2]) if stride == 1 else 1
    if pad == "same_static":
        pad = "same"
    act = B.rng.choice([None, "tanh"])
    if pad == "same" and stride > 1 and B.rng.random() < 0.99:
        # "same" with stride pads depending on the padded length: not defined per sequence (unless k==1)
        stride = 1
    if pad == "same" and dil * (k - 1) % 2:
        pass  # asymmetric, the larger part at the right

    def fn(v, b, nm):
        W, bias = B.p(nm + "/W"), B.p(nm + "/bias")
        span = dil * (k - 1)
        if pad == "same":
            lo = span // 2
            v = numpy.pad(v, ((lo, span - lo), (0, 0)))
        T = max(0, -(-(len(v) - span) // stride))
        r = numpy.zeros((T, n))
        for t in range(T):
            r[t] = sum(v[t * stride + i * dil] @ W[i] for i in range(k)) + bias
        return ACT[act](r)

    d = {"class": "conv", "filter_size": (k,), "n_out": n, "padding": pad, "strides": stride, "dilation_rate": dil, "activation": act, "with_bias": True, "use_time_mask": True}
    return unary(B, d, x, fn, dim=n, tid=x.tid if pad == "same" and stride == 1 else B.new_tid())


@op
def o_pool(B):
    x = B.pick("tf")
    k = B.rng.randint(1, 3)
    stride = B.rng.randint(1, k)
    mode = B.rng.choice(["max", "avg"])
    pad = B.rng.choice(["valid", "same"])
    if pad == "same":
        if stride > 1 or mode == "avg":
            return

    def fn(v, b, nm):
        if pad == "same":
            lo = (k - 1) // 2
            v = numpy.pad(v, ((lo, k - 1 - lo), (0, 0)), constant_values=-1e30)
        T = max(0, -(-(len(v) - (k - 1)) // stride))
        r = numpy.zeros((T, x.dim))
        for t in range(T):
            w = v[t * stride : t * stride + k]
            r[t] = w.max(0) if mode == "max" else w.mean(0)
        return r

    # max pooling leaves -inf in the padding, which self-attention does not survive (known finding): only used masked
    y = unary(B, {"class": "pool", "mode": mode, "pool_size": (k,), "strides": stride, "padding": pad, "use_time_mask": True}, x, fn, tid=x.tid if pad == "same" and stride == 1 else B.new_tid())
    if mode == "max":
        y.kind = "tfk"
        y = B.masked(y)
    return y


@op
def o_transposed_conv(B):
    x = B.pick("tf")
    s = B.rng.randint(1, 3)
    k = s + B.rng.randint(0, 2)
    n = B.rng.randint(1, 3)

    def fn(v, b, nm):
        if not len(v):
            return None
        W, bias = B.p(nm + "/W_native_transposed_conv").reshape(k, n, -1), B.p(nm + "/bias")  # [k,out,in]
        T = max(0, (len(v) - 1) * s + k) if len(v) else 0
        r = numpy.zeros((T, n))
        for t in range(len(v)):
            for i in range(k):
                r[t * s + i] += W[i] @ v[t]
        return r + bias

    return unary(B, {"class": "transposed_conv", "filter_size": (k,), "strides": (s,), "n_out": n, "padding": "valid", "use_time_mask": True}, x, fn, dim=n, tid=B.new_tid())


@op
def o_split_dims_f(B):
    x = B.pick("tf")
    k = next((k for k in (2, 3) if x.dim % k == 0 and x.dim > k), None)
    if not k or x.dim // k == k:
        return
    y = unary(B, {"class": "split_dims", "axis": "F", "dims": (k, x.dim // k)}, x, lambda v, b, n: v.reshape(len(v), k, x.dim // k), dim=(k, x.dim // k), kind="twf")
    c = B.rng.choice(["merge", "swap", "reduce"])
    if c == "merge":
        return unary(B, {"class": "merge_dims", "axes": ["dim:%i" % k, "dim:%i" % (x.dim // k)], "keep_order": True}, y, lambda v, b, n: v.reshape(len(v), x.dim), dim=x.dim)
    if c == "reduce":
        return unary(B, {"class": "reduce", "mode": "sum", "axis": "dim:%i" % k}, y, lambda v, b, n: v.sum(1), dim=x.dim // k)
    z = unary(B, {"class": "swap_axes", "axis1": "dim:%i" % k, "axis2": "F"}, y, lambda v, b, n: v.transpose(0, 2, 1), kind="hid")
    z.dim = None
    return z


@op
def o_split_t(B):
    """chunks of constant size, padded"""
    x = B.pick("tf")
    k = B.rng.choice([j for j in (2, 3, 4) if j != x.dim])
    pv = B.rng.choice([0.0, 2.5])

    def fn(v, b, n):
        T = -(-len(v) // k)
        r = numpy.full((T * k, x.dim), pv)
        r[: len(v)] = v
        return r.reshape(T, k, x.dim)

    x2 = x if pv == 0 and False else x
    y = unary(B, {"class": "split_dims", "axis": "T", "dims": (-1, k), "pad_to_multiples": True, "pad_value": pv}, x2, fn, dim=(k, x.dim), kind="twf_part", tid=B.new_tid())
    # the frames of a sequence end before the padding of its own last chunk: only the first len(v) are defined
    y.src = x
    return y


@op
def o_concat_f(B):
    x = B.pick("tf")
    y = B.pick("tf", tid=x.tid)
    return B.add({"class": "concat", "from": [(x.name, "F"), (y.name, "F")]}, "tf", x.dim + y.dim, x.tid, lambda name: lambda b: numpy.concatenate([B.val(x, b), B.val(y, b)], 1))


@op
def o_length(B):
    x = B.pick(B.rng.choice(["tf", "s"]))
    return B.add({"class": "length", "from": x.name, "axis": "T"}, "i", None, None, lambda name: lambda b: len(B.val(x, b)))


@op
def o_range_in_axis(B):
    x = B.pick("tf")
    y = B.add({"class": "range_in_axis", "from": x.name, "axis": "T", "dtype": "float32"}, "range", None, x.tid, lambda name: lambda b: numpy.arange(len(B.val(x, b))))
    return B.add({"class": "combine", "kind": "mul", "from": [x.name, y.name]}, "tf", x.dim, x.tid, lambda name: lambda b: B.val(x, b) * B.val(y, b)[:, None])


@op
def o_range_from_length(B):
    i = B.pick("i")
    return B.add({"class": "range_from_length", "from": i.name}, "s_", None, B.new_tid(), lambda name: lambda b: numpy.arange(int(B.val(i, b))))


@op
def o_remove(B):
    s = B.pick("s")
    k = B.rng.randrange(s.dim)
    return unary(B, {"class": "remove", "symbol": k}, s, lambda v, b, n: v[v != k], tid=B.new_tid(), kind="s")


@op
def o_top_k(B):
    x = B.pick("tf")
    k = B.rng.randint(1, x.dim)
    y = unary(B, {"class": "top_k", "axis": "F", "k": k}, x, lambda v, b, n: -numpy.sort(-v, -1)[:, :k], dim=k, kind="tfk")  # own feature dim: cannot be combined with others
    return y


@op
def o_split(B):
    x = B.pick("tf")
    if x.dim < 2:
        return
    a = B.rng.randint(1, x.dim - 1)
    sp = B.add({"class": "split", "from": x.name, "axis": "F", "size_splits": [a, x.dim - a]}, "tf", x.dim, x.tid, lambda name: lambda b: B.val(x, b))
    i = B.rng.randint(0, 1)
    return B.add({"class": "copy", "from": sp.name + "/%i" % i}, "tf", a if i == 0 else x.dim - a, x.tid, lambda name: lambda b: B.val(x, b)[:, :a] if i == 0 else B.val(x, b)[:, a:])


@op
def o_expand_squeeze(B):
    x = B.pick("tf")
    y = unary(B, {"class": "expand_dims", "axis": "spatial"}, x, lambda v, b, n: v, kind="hid0")
    if x.dim == 1:
        return y
    return unary(B, {"class": "squeeze", "axis": "dim:1"}, y, lambda v, b, n: v, kind="tf", dim=x.dim)


@op
def o_softmax_over_spatial(B):
    x = B.pick("tf")
    log = B.rng.random() < 0.3
    ef = B.rng.choice([None, 0.5])

    def fn(v, b, n):
        if not len(v):
            return v
        v = v * (ef or 1)
        r = softmax(v, 0)
        return numpy.log(r) if log else r

    # output is transposed (softmax axis last)
    y = unary(B, dict({"class": "softmax_over_spatial", "log_space": log}, **({"energy_factor": ef} if ef else {})), x, fn)
    if log:  # -inf in the padding, as for max pooling
        y.kind = "tfk"
        y = B.masked(y)
    return y


@op
def o_masked(B):
    t = B.pick("t")
    if t is None:
        return
    return unary(B, {"class": "compare", "kind": "greater", "value": 0.0}, t, lambda v, b, n: v > 0, kind="mask")


@op
def o_masked_computation(B):
    """compute only on the selected frames, then spread the result again"""
    from returnn.tf.util.data import SpatialDim

    t = B.pick("t", tid=0)
    x = B.pick("tf", tid=0)
    if t is None:
        return
    c = unary(B, {"class": "compare", "kind": "greater", "value": 0.0}, t, lambda v, b, n: v > 0, kind="mask")
    n = B.rng.randint(1, 3)
    out_dim = SpatialDim("masked%i" % B.n)
    how = B.rng.choice(["linear", "cumsum", "rec"])

    def fn(name):
        def f(b):
            v = B.val(x, b)[B.val(c, b)]
            if how == "linear":
                return numpy.tanh(v @ B.p(name + "/W") + B.p(name + "/b"))
            return v.cumsum(0)

        return f

    unit = {"linear": {"class": "linear", "from": "data", "n_out": n, "activation": "tanh"}, "cumsum": {"class": "cumsum", "from": "data"}}
    if how == "rec":
        how = "cumsum"
    y = B.add({"class": "masked_computation", "from": x.name, "mask": c.name, "in_spatial_dim": B.tdim, "out_spatial_dim": out_dim, "unit": unit[how]}, "tf", n if how == "linear" else x.dim, B.new_tid(), fn)

    return y


@op
def o_scatter(B):
    x = B.pick("tf")
    s = B.pick("s", tid=x.tid)
    y = B.pick("tf")
    if s is None or y.tid == x.tid:
        return
    x = B.masked(x)

    def fn(name):
        def f(b):
            v, i = B.val(x, b), B.val(s, b)
            r = numpy.zeros((len(B.val(y, b)), x.dim))
            for t in range(len(v)):
                if i[t] < len(r):
                    r[i[t]] += v[t]
            return r

        return f

    return B.add({"class": "scatter_nd", "from": x.name, "position": s.name, "position_axis": "T", "output_dim_via_time_from": y.name, "filter_invalid_indices": True}, "tf", x.dim, y.tid, fn)


@op
def o_sparse_ce(B):
    s = B.pick("s")
    x = B.pick("tf", tid=s.tid, dim=s.dim)
    if x is None:
        return
    return B.add(
        {"class": "sparse_softmax_cross_entropy_with_logits", "logits": x.name, "targets": s.name}, "t", None, x.tid, lambda name: lambda b: -numpy.log(softmax(B.val(x, b)))[numpy.arange(len(B.val(x, b))), B.val(s, b)]
    )


def edit_table(a, bb):
    """row of the levenshtein matrix of a (rows) and prefix of b"""
    d = numpy.zeros((len(a) + 1, len(bb) + 1), int)
    for i in range(len(a) + 1):
        for j in range(len(bb) + 1):
            if not i or not j:
                d[i, j] = i + j
            else:
                d[i, j] = min(d[i - 1, j] + 1, d[i, j - 1] + 1, d[i - 1, j - 1] + (a[i - 1] != bb[j - 1]))
    return d


@op
def o_edit_distance(B):
    s = B.pick("s")
    t = B.pick("s", dim=s.dim)
    if t is None or t.tid == s.tid:
        return
    return B.add({"class": "edit_distance", "a": s.name, "b": t.name}, "i", None, None, lambda name: lambda b: edit_table(B.val(s, b), B.val(t, b))[-1, -1])


@op
def o_subnetwork(B):
    x = B.pick("tf")
    n = B.rng.randint(1, 4)

    def fn(v, b, nm):
        h = numpy.tanh(v @ B.p(nm + "/a/W") + B.p(nm + "/a/b"))
        return h @ B.p(nm + "/output/W") + v.sum(-1, keepdims=True)

    sub = {
        "a": {"class": "linear", "from": "data", "n_out": 3, "activation": "tanh"},
        "s": {"class": "reduce", "mode": "sum", "axis": "F", "keep_dims": True, "from": "base:" + x.name if B.rng.random() < 0.5 else "data"},
        "output": {"class": "linear", "from": "a", "n_out": n, "activation": None, "with_bias": False},
    }
    y = unary(B, {"class": "subnetwork", "subnetwork": sub}, x, lambda v, b, nm: numpy.tanh(v @ B.p(nm + "/a/W") + B.p(nm + "/a/b")) @ B.p(nm + "/output/W"), dim=n)
    return y


@op
def o_gating(B):
    x = B.pick("tf")
    if x.dim % 2:
        return
    h = x.dim // 2
    return unary(B, {"class": "gating", "activation": "tanh"}, x, lambda v, b, n: numpy.tanh(v[:, :h]) * sig(v[:, h:]), dim=h)


@op
def o_flatten(B):
    x = B.pick("tf")
    y = unary(B, {"class": "flatten_batch"}, x, lambda v, b, n: v, kind="none")
    z = B.add({"class": "linear", "from": y.name, "n_out": 3, "activation": "tanh"}, "none", 3, None, lambda name: lambda b: numpy.tanh(B.val(x, b) @ B.p(name + "/W") + B.p(name + "/b")))
    return B.add({"class": "unflatten_batch", "from": z.name}, "tf", 3, x.tid, lambda name: lambda b: B.val(z, b))


@op
def o_reinterpret(B):
    s = B.pick("s")
    k = B.rng.randint(1, 3)
    return unary(B, {"class": "reinterpret_data", "increase_sparse_dim": k}, s, lambda v, b, n: v, kind="s", dim=s.dim + k)


@op
def o_time_major(B):
    x = B.pick("tf")
    return unary(B, {"class": "reinterpret_data", B.rng.choice(["enforce_time_major", "enforce_batch_major"]): True}, x, lambda v, b, n: v)


@op
def o_elemwise_prod(B):
    x = B.pick("tf")
    return unary(B, {"class": "elemwise_prod", "axes": "F"}, x, lambda v, b, n: v * B.p(n + "/W"))


@op
def o_batch_norm(B):
    x = B.pick("tf")

    def fn(v, b, n):
        pre = n + "/batch_norm/" if n + "/batch_norm/v2_mean" in B.P else n + "/"
        P = {k[len(pre) :]: B.p(k) for k in B.P if k.startswith(pre)}
        m, va, g, be = [P[[k for k in P if k.endswith(q)][0]].reshape(-1) for q in ("mean", "variance", "gamma", "beta")]
        return (v - m) / numpy.sqrt(numpy.abs(va) + 1e-3) * g + be

    return unary(B, {"class": "batch_norm", "masked_time": B.rng.random() < 0.5}, x, fn)


CHECKED = {"tf": True, "tfk": True, "f": True, "s": True, "t": True, "i": True, "twf": True, "st": True, "fi": True, "tt": True, "twf_part": True, "s_": True, "bool": True, "mask": True}
CLASS_SEEN = set()


def param(name, shape):
    v = tfnet.param_value(name, shape, 0.7)
    if name.endswith("variance"):
        v = numpy.abs(v) + 0.3
    return v


def graph(case):
    rng, nprng = case.rng, case.np_rng()
    B = Builder(case)
    batch = rng.randint(1, 4)
    F = rng.randint(1, 6)
    V = rng.randint(2, 6)
    time_major = rng.random() < 0.3
    lens = [rng.randint(1, 6) for _ in range(batch)]
    lens2 = [rng.randint(1, 5) for _ in range(batch)]
    from returnn.tf.util.data import SpatialDim

    B.tdim = tdim = SpatialDim("time")
    xs = [nprng.randn(n, F).astype("float32") for n in lens]
    ss = [nprng.randint(0, V, n).astype("int32") for n in lens2]
    s1 = [nprng.randint(0, V, n).astype("int32") for n in lens]
    pos = nprng.randint(0, 4, batch).astype("int32")
    B.nodes += [
        N("data:data", "tf", F, 0, lambda b: xs[b].astype("float64")),
        N("data:labels", "s", V, 1, lambda b: ss[b]),
        N("data:aligned", "s", V, 0, lambda b: s1[b]),
        N("data:pos", "i", None, None, lambda b: pos[b]),
    ]
    names = list(OPS)
    k = rng.randint(3, 7)
    done = []
    first = names[case.index % len(names)]
    tries = 0
    while len(done) < k and tries < 60:
        tries += 1
        o = first if not done and tries < 5 else rng.choice(names)
        before = len(B.nodes)
        if OPS[o](B) is not None or len(B.nodes) > before:
            done.append(o)
    case.desc(net=B.net, lens=lens, lens2=lens2, pos=pos.tolist(), F=F, V=V, time_major=time_major)
    extern = {
        "data": {"dim": F, "same_dim_tags_as": {"t": tdim}, **({"time_dim_axis": 0, "batch_dim_axis": 1} if time_major else {})},
        "aligned": {"dim": V, "sparse": True, "same_dim_tags_as": {"t": tdim}},
        "labels": {"dim": V, "sparse": True},
        "pos": {"shape": (), "dtype": "int32", "dim": None, "sparse": False},
    }
    net = tfnet.Net(B.net, extern, eval_flag=True)
    try:
        B.P = net.set_params(func=param)
        nodes = [x for x in B.nodes if not x.name.startswith("data:") and x.kind in CHECKED]
        fetch = {}
        for x in nodes:
            with net.graph.as_default():
                o = net.layer(x.name).output
                fetch[x.name] = {"v": o.placeholder}
                for i, d in enumerate(o.dims):
                    if d.is_batch_dim():
                        continue
                    if d.dyn_size_ext is not None and d.dimension is None:
                        fetch[x.name]["l%i" % i] = d.dyn_size_ext.placeholder
        a, l = tfnet.pad(xs, rng_np=nprng)
        a2, l2 = tfnet.pad(ss, rng_np=nprng, dtype="int32")
        a1, _ = tfnet.pad(s1, rng_np=nprng, dtype="int32")
        for arr, ln in ((a2, l2), (a1, l)):
            for i, n in enumerate(ln):
                arr[i, n:] = rng.randrange(V)
        fd = {}
        E = net.net.extern_data.data
        fd[E["data"].placeholder] = a.transpose(1, 0, 2) if time_major else a
        fd[E["data"].size_placeholder[0]] = l
        fd[E["aligned"].placeholder] = a1
        fd[E["labels"].placeholder] = a2
        fd[E["labels"].size_placeholder[0]] = l2
        fd[E["pos"].placeholder] = pos
        bd = net.net.extern_data.get_batch_info().dim
        if not isinstance(bd, int):
            fd[bd] = batch
        if any(d["class"] in ("pool", "conv", "transposed_conv", "resize") for d in B.net.values()) and all_empty(B, batch):
            case.count("skipped_empty_batch")  # the TF kernels crash on it (SIGFPE)
            return case.trivial()
        try:
            with net.graph.as_default():
                r = net.session.run(fetch, feed_dict=fd)
        except net.tf.errors.OpError:
            if all_empty(B, batch):
                case.count("refused_empty_batch")
                return case.trivial()
            raise
        outs = {x.name: net.layer(x.name).output for x in nodes}
    finally:
        net.close()
    bad = set()  # depends on something which is not defined (empty sequence reductions)
    for x in nodes:
        for b in range(batch):
            try:
                e = B.val(x, b)
            except Undefined:
                case.count("undefined")
                continue
            check(case, B, x, b, numpy.asarray(e), r[x.name], outs[x.name])
            case.count("seqs")
        case.count("layers")
        if x.cls not in CLASS_SEEN:
            CLASS_SEEN.add(x.cls)
        case.count("type_" + x.cls)
        if x.kind == "s":
            case.count("sparse")
        if x.kind in ("tf", "s", "twf") and x.tid not in (0, 1):
            case.count("len_changes")
    if time_major:
        case.count("time_major")
    if len(set(lens)) == 1:
        case.trivial()


def all_empty(B, batch):
    """:return: whether some layer has no frame in the whole batch"""
    for x in B.nodes:
        if x.kind not in ("tf", "tfk", "s", "t", "twf", "mask", "twf_part", "s_"):
            continue
        n = []
        for b in range(batch):
            try:
                n.append(len(B.val(x, b)))
            except Undefined:
                n.append(0)
        if max(n) == 0:
            return True
    return False


def check(case, B, x, b, e, r, o):
    """compare one sequence"""
    v = r["v"]
    det = dict(layer=x.name, opts=B.net.get(x.name.split("/")[0]), seq=b, out=str(o))
    ba = o.batch_dim_axis
    dims = [i for i in range(o.batch_ndim) if i != ba]
    if ba is not None:
        v = numpy.take(v, b if v.shape[ba] > 1 else 0, axis=ba)
    dls = {}
    for j, i in enumerate(dims):
        if "l%i" % i in r:
            ln = r["l%i" % i]
            dls[j] = int(ln[b]) if ln.ndim else int(ln)
    # order: time axis first
    if x.kind == "tt":
        order = list(range(2))
        case.require(v.ndim == 2 and set(dls) == {0, 1}, "two dynamic axes", **det)
        got = v[: dls[0], : dls[1]]
        if o.dims[dims[0]].description != o.dims[dims[1]].description and dls[0] != e.shape[0]:
            got = got.T
        case.require(got.shape == e.shape, "lengths", got=got.shape, expected=e.shape, **det)
    else:
        tj = [j for j in dls]
        hasT = x.kind in ("tf", "tfk", "s", "t", "twf", "twf_part", "s_", "bool", "mask")
        case.require(len(tj) == (1 if hasT else 0), "dynamic axes", got=len(tj), **det)
        if hasT:
            v = numpy.moveaxis(v, tj[0], 0)
            n = dls[tj[0]]
            case.require(n == len(e), "length", got=n, expected=len(e), **det)
            case.require(len(v) >= n, "enough frames", got=len(v), expected=n, **det)
            got = v[:n]
        else:
            got = v
        if x.kind == "twf_part":
            k, f = x.dim
            if got.shape[1:] == (f, k):
                got = got.transpose(0, 2, 1)
            got = got.reshape(-1, f)
            e = e.reshape(-1, f)
            m = len(B.val(x.src, b))
            got, e = got[:m], e[:m]
        elif x.kind == "twf" and got.shape[1:] == x.dim[::-1]:
            got = got.transpose(0, 2, 1)
        if x.kind == "s" and o.sparse_dim is not None:
            case.equal(o.dim, x.dim, "sparse dim of %s" % x.name)
    if x.kind == "st" and got.shape == e.T.shape:
        got = got.T
    case.require(got.shape == e.shape, "shape", got=got.shape, expected=e.shape, **det)
    if e.dtype.kind in "iub":
        case.require(bool((got == e).all()), "values", got=got.tolist(), expected=e.tolist(), **det)
    else:
        case.require(bool((numpy.abs(got - e) <= 2e-4 * (1 + numpy.abs(e))).all()), "values", got=got.tolist(), expected=e.tolist(), **det)


def ctc_nll(lp, labels):
    """forward algorithm, blank last; lp [T,V+1]"""
    blank = lp.shape[1] - 1
    ext = [blank]
    for x in labels:
        ext += [int(x), blank]
    al = numpy.full(len(ext), -numpy.inf)
    al[0] = lp[0, blank]
    if len(ext) > 1:
        al[1] = lp[0, ext[1]]
    for t in range(1, len(lp)):
        n = numpy.full(len(ext), -numpy.inf)
        for i in range(len(ext)):
            c = [al[i]]
            if i:
                c.append(al[i - 1])
            if i > 1 and ext[i] != blank and ext[i] != ext[i - 2]:
                c.append(al[i - 2])
            n[i] = numpy.logaddexp.reduce(c) + lp[t, ext[i]]
        al = n
    return -numpy.logaddexp.reduce(al[-2:])


def losses(case):
    """loss, error, norm factor, per-sequence values and objective; gradients = sum of those of each sequence alone"""
    rng, nprng = case.rng, case.np_rng()
    batch = rng.randint(1, 4)
    F, V, D = rng.randint(1, 4), rng.randint(2, 5), rng.randint(1, 3)
    lens = [rng.randint(1, 6) for _ in range(batch)]
    xs = [nprng.randn(n, F).astype("float32") for n in lens]
    al = [nprng.randint(0, V, n).astype("int32") for n in lens]
    de = [nprng.randn(n, D).astype("float32") for n in lens]
    la = []
    for n in lens:  # possible CTC targets
        l = []
        while len(l) + sum(a == b for a, b in zip(l, l[1:])) < n and rng.random() < 0.7:
            l.append(rng.randrange(V))
            if len(l) + sum(a == b for a, b in zip(l, l[1:])) > n:
                l.pop()
                break
        la.append(numpy.array(l or [0], "int32"))
    sv = nprng.randn(batch, D).astype("float32")
    time_major = rng.random() < 0.3
    flatten = rng.random() < 0.7
    net_dict = {"h": {"class": "linear", "from": "data:data", "n_out": 3, "activation": "tanh"}, "hm": {"class": "reduce", "mode": "mean", "axis": "T", "from": "h"}}
    names = rng.sample(["ce", "ce_logits", "ce_dense", "mse", "mse_sparse", "l1", "mean_l1", "bin_ce", "ctc", "mse_f", "as_is"], rng.randint(1, 4))
    spec = {}
    for n in names:
        opts, lo = {}, {}
        scale = rng.choice([1.0, 1.0, 0.5])
        norm = rng.random() < 0.3
        d = {"loss": n.split("_")[0] if n not in ("bin_ce", "mean_l1", "as_is") else n, "from": "h"}
        ls = focal = 0.0
        if n == "ce":
            d.update({"class": "softmax", "target": "aligned"})
            if rng.random() < 0.4:
                lo["label_smoothing"] = ls = 0.2
            if rng.random() < 0.3:
                lo["focal_loss_factor"] = focal = 2.0
            if not ls and rng.random() < 0.3:
                lo["use_fused"] = False
        elif n == "ce_logits":
            d.update({"class": "linear", "activation": None, "n_out": V, "target": "aligned"})
            lo["input_type"] = "logits"
            if rng.random() < 0.4:
                lo["label_smoothing"] = ls = 0.2
        elif n == "ce_dense":
            d.update({"class": "softmax", "n_out": V, "target": "layer:soft", "loss": "ce"})
            net_dict["soft"] = {"class": "softmax", "n_out": V, "from": "data:data"}
        elif n in ("mse", "l1", "mean_l1"):
            d.update({"class": "linear", "activation": None, "n_out": D, "target": "dense"})
        elif n == "mse_sparse":
            d.update({"class": "softmax", "target": "aligned"})
        elif n == "bin_ce":
            d.update({"class": "linear", "activation": None, "n_out": D, "target": "layer:binary"})
            net_dict["binary"] = {"class": "activation", "activation": "sigmoid", "from": "data:dense"}
            if rng.random() < 0.5:
                lo["pos_weight"] = 3.0
        elif n == "ctc":
            d.update({"class": "softmax", "target": "labels"})
        elif n == "mse_f":
            d.update({"class": "linear", "activation": None, "n_out": D, "from": "hm", "target": "static"})
        elif n == "as_is":
            d.update({"class": "reduce", "mode": "sum", "axis": "F", "from": "h"})
        if not flatten and n not in ("ctc",):
            lo["use_flatten_frames"] = False
        if norm:
            lo["use_normalized_loss"] = True
        d["loss_opts"] = lo
        if scale != 1:
            if rng.random() < 0.5:
                lo["scale"] = scale
            else:
                d["loss_scale"] = scale
        net_dict[n] = d
        spec[n] = dict(scale=scale, norm=norm, ls=ls, focal=focal, pw=lo.get("pos_weight", 1.0))
    case.desc(net=net_dict, lens=lens, labels=[x.tolist() for x in la], V=V, D=D, F=F, time_major=time_major)
    from returnn.tf.util.data import SpatialDim

    tdim = SpatialDim("time")
    extern = {
        "data": {"dim": F, "same_dim_tags_as": {"t": tdim}, **({"time_dim_axis": 0, "batch_dim_axis": 1} if time_major else {})},
        "aligned": {"dim": V, "sparse": True, "same_dim_tags_as": {"t": tdim}},
        "dense": {"dim": D, "same_dim_tags_as": {"t": tdim}},
        "labels": {"dim": V, "sparse": True},
        "static": {"dim": D, "shape": (D,), "time_dim_axis": None},
    }
    net = tfnet.Net(net_dict, extern, eval_flag=True)
    try:
        P = net.set_params(scale=0.8)
        with net.graph.as_default(), net.session.as_default():
            ld, total, _ = net.net.get_losses_initialized(with_total=True)
            fetch = {"total": total, "losses": {}}
            for n, l in ld.items():
                fetch["losses"][n] = {"loss": l.get_loss_value(), "norm": l.get_norm_factor()}
                if l.get_error_value() is not None:
                    fetch["losses"][n]["error"] = l.get_error_value()
            per_seq = {}
            if not flatten:
                from returnn.tf.util.basic import identity

                ld2, _, _ = net.net.get_losses_initialized(reduce_func=identity)
                for n, l in ld2.items():
                    if n not in ("ctc",):
                        per_seq[n] = l.get_normalized_loss_value_per_seq()
            fetch["per_seq"] = per_seq
            vs = net.net.get_params_list()
            grads = net.tf.gradients(total, vs)
            fetch["grads"] = [g if g is not None else net.tf.zeros([]) for g in grads]
        E = net.net.extern_data.data

        def run(idx, garbage=True):
            fd = {}
            for key, seqs, dt in (("data", xs, "float32"), ("aligned", al, "int32"), ("dense", de, "float32"), ("labels", la, "int32")):
                a, l = tfnet.pad([seqs[i] for i in idx], rng_np=nprng, dtype=dt, garbage=garbage)
                if dt == "int32":
                    for i, k in enumerate(l):
                        a[i, k:] = rng.randrange(V)
                if key == "data" and time_major:
                    a = a.transpose(1, 0, 2)
                fd[E[key].placeholder] = a
                if key in ("data", "labels"):
                    fd[E[key].size_placeholder[0]] = l
            fd[E["static"].placeholder] = sv[list(idx)]
            bd = net.net.extern_data.get_batch_info().dim
            if not isinstance(bd, int):
                fd[bd] = len(idx)
            with net.graph.as_default():
                return net.session.run(fetch, feed_dict=fd)

        r = run(range(batch))
        single = [run([i]) for i in range(batch)] if not any(x["norm"] for x in spec.values()) else None
    finally:
        net.close()
    p = {k: v.astype("float64") for k, v in P.items()}
    exp_total = 0.0
    case.equal(sorted(r["losses"]), sorted(names), "losses of the network")
    for n in names:
        sp = spec[n]
        L, Er, PS = 0.0, 0.0, []
        for b in range(batch):
            h = numpy.tanh(xs[b] @ p["h/W"] + p["h/b"])
            lin = (h.mean(0) if n == "mse_f" else h) @ p[n + "/W"] + p[n + "/b"] if n != "as_is" else h.sum(1)
            er = None
            if n in ("ce", "ce_logits"):
                q = softmax(lin)
                lp = numpy.log(q)
                tgt = numpy.eye(V)[al[b]]
                if sp["ls"]:
                    lo_ = sp["ls"] / (V - 1)
                    t2 = numpy.where(tgt > 0, 1 - sp["ls"], lo_)
                    v = -(t2 * lp).sum(-1) + ((1 - sp["ls"]) * numpy.log(1 - sp["ls"]) + (V - 1) * lo_ * numpy.log(lo_ + 1e-20))
                else:
                    v = -(tgt * lp).sum(-1)
                if sp["focal"]:
                    v = v * (1 - (q * tgt).sum(-1)) ** sp["focal"]
                er = (lin.argmax(1) != al[b]).sum()
            elif n == "ce_dense":
                soft = softmax(xs[b] @ p["soft/W"] + p["soft/b"])
                v = -(soft * numpy.log(softmax(lin))).sum(-1)
                er = (lin.argmax(1) != soft.argmax(1)).sum()
            elif n == "mse":
                v = ((lin - de[b]) ** 2).mean(-1)
            elif n == "mse_sparse":
                v = ((softmax(lin) - numpy.eye(V)[al[b]]) ** 2).mean(-1)
            elif n == "l1":
                v = numpy.abs(lin - de[b]).sum(-1)
            elif n == "mean_l1":
                v = numpy.abs(lin - de[b]).mean(-1)
            elif n == "bin_ce":
                y = sig(de[b].astype("float64"))
                v = -(sp["pw"] * y * numpy.log(sig(lin)) + (1 - y) * numpy.log(1 - sig(lin))).mean(-1)
                er = ((lin > 0) != (y > 0.5)).mean(-1).sum()
            elif n == "ctc":
                v = numpy.array([ctc_nll(numpy.log(softmax(lin)), la[b])])
            elif n == "mse_f":
                v = numpy.array([((lin - sv[b]) ** 2).mean()])
            elif n == "as_is":
                v = lin
            L += v.sum()
            PS.append(v.mean())
            Er = None if er is None or Er is None else Er + er
        got = r["losses"][n]
        det = dict(loss=n, opts=net_dict[n], lens=lens)
        near = lambda a, e: abs(float(a) - e) <= 1e-3 * (1 + abs(e))
        case.require(near(got["loss"], L), "sum of the loss over all frames", got=float(got["loss"]), expected=L, **det)
        norm = 1.0 / batch if n == "mse_f" else 1.0 / sum(len(x) for x in la) if n == "ctc" else 1.0 / sum(lens)
        case.require(near(got["norm"], norm), "normalisation factor", got=float(got["norm"]), expected=norm, **det)
        if Er is not None:
            case.require(near(got["error"], Er), "sum of the errors", got=float(got["error"]), expected=float(Er), **det)
        if n in r["per_seq"] and n not in ("l1", "bin_ce"):
            g = r["per_seq"][n]
            case.require(g.shape == (batch,) and all(near(x, e) for x, e in zip(g, PS)), "loss per sequence", got=g.tolist(), expected=PS, **det)
            case.count("per_seq", batch)
        exp_total += L * sp["scale"] * (norm if sp["norm"] else 1.0)
        case.count("losses")
    case.require(near(r["total"], exp_total), "objective", got=float(r["total"]), expected=exp_total)
    if single:
        for i, g in enumerate(r["grads"]):
            e = sum(x["grads"][i] for x in single)
            case.require(bool((numpy.abs(g - e) <= 1e-3 * (1 + numpy.abs(e))).all()), "gradient of the batch = sum of the gradients of the sequences", param=i, got=g.tolist(), expected=e.tolist())
            case.count("grads")
    if len(set(lens)) == 1:
        case.trivial()


def concat_time(case):
    """concat along time of sequences with different lengths: known finding"""
    rng, nprng = case.rng, case.np_rng()
    batch = rng.randint(1, 4)
    lens = [rng.randint(1, 5) for _ in range(batch)]
    xs = [nprng.randn(n, 2).astype("float32") for n in lens]
    net_dict = {"c": {"class": "concat", "from": [("data:data", "T"), ("data:data", "T")], "is_output_layer": True}}
    case.desc(net=net_dict, lens=lens)
    net = tfnet.Net(net_dict, {"data": {"dim": 2}})
    try:
        r = net.run(net.out("c"), {"data": tfnet.pad(xs, rng_np=nprng)})
    finally:
        net.close()
    case.equal(r["lens"].tolist(), [2 * n for n in lens], "lengths of the concatenation")
    for b in range(batch):
        e = numpy.concatenate([xs[b], xs[b]])
        ok = numpy.array_equal(r["value"][b][: len(e)], e)
        if lens[b] == max(lens):
            case.require(ok, "concatenation of a sequence without padding")
        elif not ok:
            case.finding("concat-time-padding", "concat layer along the time axis keeps the padding frames of the first source between the two parts")
        case.count("concat")


def pool_att(case):
    """max pooling with use_time_mask, then self-attention: -inf in the padding becomes nan in true frames: known finding"""
    rng, nprng = case.rng, case.np_rng()
    batch = rng.randint(2, 4)
    lens = [rng.randint(1, 5) for _ in range(batch)]
    xs = [nprng.randn(n, 2).astype("float32") for n in lens]
    net_dict = {
        "p": {"class": "pool", "mode": "max", "pool_size": (2,), "padding": "same", "strides": 1, "use_time_mask": True, "from": "data:data"},
        "pm": {"class": "seq_len_mask", "from": "p", "mask_value": 0.0, "axis": "T"},
        "a": {"class": "self_attention", "num_heads": 1, "total_key_dim": 2, "n_out": 2, "from": "p", "is_output_layer": True},
        "b": {"class": "self_attention", "num_heads": 1, "total_key_dim": 2, "n_out": 2, "from": "pm", "reuse_params": "a", "is_output_layer": True},
    }
    case.desc(net=net_dict, lens=lens)
    net = tfnet.Net(net_dict, {"data": {"dim": 2}})
    try:
        net.set_params(scale=4.0)
        d = {"data": tfnet.pad(xs, rng_np=nprng)}
        ra, rb = net.run(net.out("a"), d), net.run(net.out("b"), d)
    finally:
        net.close()
    for b in range(batch):
        va, vb = ra["value"][b][: lens[b]], rb["value"][b][: lens[b]]
        ok = bool((numpy.abs(va - vb) <= 2e-4 * (1 + numpy.abs(vb))).all())
        if lens[b] == max(lens):
            case.require(ok, "attention over a pooled sequence without padding", got=va.tolist(), expected=vb.tolist())
        elif not ok:
            case.finding("max-pool-mask-inf-padding", "max pooling with use_time_mask leaves -inf in the padding, and self-attention over it gives nan in the true frames")
        case.count("pool_att")


KINDS = {
    "pool_att": {"func": pool_att, "quick": 3, "thorough": 20},
    "graph": {"func": graph, "quick": 300, "thorough": 6000},
    "losses": {"func": losses, "quick": 80, "thorough": 1500},
    "concat": {"func": concat_time, "quick": 5, "thorough": 20},
}
