"""C28: TF rec layer with sub-network = step by step evaluation, with and without moving layers out of the loop."""
import numpy
from vlib import tfnet

RULE = (
    "net = random recurrent sub-network (linear, activation, combine, eval, copy, slice, layer_norm, softmax, LSTM cells, cumsum, embedding, prev: references to any layer with any initial output, step index, attention over an encoder, "
    "values from the outer network) looped over the input, or over the target labels (teacher forcing), random lengths, garbage padding; run with and without loop optimisation, compared with a numpy interpreter per sequence and step, gradients compared between both. "
    "Non-trivial: some layer depends on the previous step or was evaluated in the loop."
)
ASSUMPTIONS = ["float32, relative tolerance 2e-4", "CPU", "graph mode TensorFlow 2.16"]
MIN_COUNTS = {"nets": 60, "steps": 1000, "prev": 100, "attention": 10, "target": 10, "cells": 20, "grads": 30}
BUDGET = {"quick": 400, "thorough": 2000}
CASE_TIMEOUT = 120


def worker_init():
    tfnet.init()


def sig(x):
    return 1 / (1 + numpy.exp(-x))


ACT = {None: lambda x: x, "tanh": numpy.tanh, "sigmoid": sig, "relu": lambda x: numpy.maximum(x, 0), "softmax": lambda x: softmax(x)}


def softmax(x):
    e = numpy.exp(x - x.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


class Gen:
    def __init__(self, rng, mode, in_dim, vocab, enc, strict):
        self.strict = strict
        self.rng, self.mode, self.vocab, self.enc = rng, mode, vocab, enc
        self.n = rng.randint(2, 8)
        names = ["l%i" % i for i in range(self.n - 1)] + (["output"] if mode == "frames" else ["prob"])
        if rng.random() < 0.5:  # the order of construction must not depend on names
            order = list("abcdefgh")[: self.n - 1]
            rng.shuffle(order)
            names = ["%s%i" % (c, i) for i, c in enumerate(order)] + names[-1:]
        self.names = names
        self.dims = {n: rng.choice([3, 3, 4]) for n in names}
        if mode == "target":
            self.dims["prob"] = vocab
        self.in_dim = in_dim
        self.layers = {}
        self.uses_prev = 0
        self.initial = {}
        for i, n in enumerate(names):
            self.layers[n] = self.gen(i, n)
        for n in list(self.layers):
            if self.rng.random() < 0.3 and self.layers[n]["class"] not in ("rnn_cell", "cumsum"):
                self.layers[n]["initial_output"] = self.initial[n] = rng.choice([0, 1, 0.5, -2.0, "zeros", "ones"])

    def src(self, i, dim=None, cur_only=False, no_att=False):
        """a source reference with its dim"""
        rng = self.rng
        opts = []
        for n in self.names[:i]:
            opts += [(n, self.dims[n])] * 2
        if not cur_only:
            for n in self.names:
                opts += [("prev:" + n, self.dims[n])]
        if self.mode == "frames":
            opts += [("data:source", self.in_dim)] * (3 if i == 0 else 1)
        else:
            opts += [("temb", 3)] * 2
        if not (cur_only and self.strict):
            opts += [("base:sv", 3)]
        if self.enc and not no_att:
            opts += [("att", 4)]
        if dim is not None:
            opts = [o for o in opts if o[1] == dim]
        if not opts:
            return None
        s = rng.choice(opts)
        if s[0].startswith("prev:"):
            self.uses_prev += 1
        return s

    def gen(self, i, name):
        rng = self.rng
        dim = self.dims[name]
        kinds = ["linear"] * 4 + ["combine"] * 2 + ["eval", "activation", "copy", "slice", "layer_norm", "rnn_cell", "cumsum", "step", "gate", "switch"]
        if name == "prob":
            kinds = ["linear"]
        while True:
            k = rng.choice(kinds)
            if k == "linear":
                srcs = [self.src(i, cur_only=self.strict and j == 0)[0] for j in range(rng.choice([1, 1, 2, 3]))]
                return dict({"class": "linear"}, **{"from": srcs, "n_out": dim, "activation": rng.choice(["tanh", "sigmoid", "tanh", None]) if name != "prob" else "softmax", "with_bias": rng.random() < 0.8})
            if k == "combine":
                a, b = self.src(i, dim, cur_only=True), self.src(i, dim)
                if a and b:
                    return {"class": "combine", "kind": rng.choice(["add", "mul", "average", "sub"]), "from": [a[0], b[0]], "activation": "tanh"}
            if k == "eval":
                a, b = self.src(i, dim, cur_only=True), self.src(i, dim)
                if a and b:
                    return {"class": "eval", "eval": "tf.tanh(source(0)) * 0.5 + tf.sin(source(1))", "from": [a[0], b[0]]}
            if k == "activation":
                a = self.src(i, dim, cur_only=True)
                if a:
                    return {"class": "activation", "activation": rng.choice(["tanh", "sigmoid", "relu"]), "from": a[0]}
            if k == "copy":
                a, b = self.src(i, cur_only=True), self.src(i)
                self.dims[name] = a[1] + b[1] if i == self.n - 1 and name == "output" else dim
                if self.dims[name] == a[1] + b[1]:
                    if self._referred_before(name, i):
                        self.dims[name] = dim
                        continue
                    return {"class": "copy", "from": [a[0], b[0]]}
            if k == "slice":
                a = self.src(i, cur_only=True)
                if a[1] > dim:
                    st = rng.randint(0, a[1] - dim)
                    return {"class": "slice", "axis": "F", "slice_start": st, "slice_end": st + dim, "from": a[0]}
            if k == "layer_norm":
                a = self.src(i, dim, cur_only=True)
                if a:
                    return {"class": "layer_norm", "from": a[0]}
            if k == "rnn_cell":
                srcs = [self.src(i, cur_only=self.strict and j == 0)[0] for j in range(rng.choice([1, 2]))]
                if srcs == ["base:sv"] * len(srcs):
                    continue
                return {"class": "rnn_cell", "unit": "LSTMBlock", "n_out": dim, "from": srcs}
            if k == "cumsum":
                a = self.src(i, dim, cur_only=True, no_att=True)
                if a and a[0] != "base:sv":
                    return {"class": "cumsum", "from": a[0], "initial_output": 0}
            if k == "step":
                a = self.src(i, dim, cur_only=True)
                if a:
                    return {"class": "eval", "eval": "source(0) + tf.cast(source(1), tf.float32) * 0.1", "from": [a[0], ":i"], "_step": True}
            if k == "gate":
                a, b, c = self.src(i, dim, cur_only=True), self.src(i, dim), self.src(i, dim)
                if a:
                    return {"class": "eval", "eval": "tf.sigmoid(source(0)) * source(1) + (1. - tf.sigmoid(source(0))) * source(2)", "from": [a[0], b[0], c[0]], "_gate": True}
            if k == "switch":
                a, b, c = self.src(i, dim, cur_only=True), self.src(i, dim), self.src(i, dim)
                if a:
                    cond = name + "_cond"
                    self.layers[cond] = {"class": "compare", "kind": "greater", "value": 0.1, "from": c[0]}
                    return {"class": "switch", "condition": cond, "true_from": a[0], "false_from": b[0]}

    def _referred_before(self, name, i):
        return any("prev:" + name in str(l) for l in self.layers.values())


def interp(case, g, params, x, sv, enc, targets, steps):
    """one sequence. :return: dict layer -> [steps, dim]"""

    def P(layer, rest):
        for k, v in params.items():
            if ("/rec/%s/" % layer) in "/" + k and k.endswith(rest):
                return v
        raise KeyError("param %s %s in %s" % (layer, rest, list(params)))

    prev = {}
    state = {}
    for n, l in g.layers.items():
        init = {"zeros": 0, "ones": 1, None: 0}.get(g.initial.get(n), g.initial.get(n))
        if l["class"] == "compare":
            continue
        prev[n] = numpy.full(g.dims[n], init, "float64")
        if l["class"] == "rnn_cell":
            state[n] = (numpy.zeros(g.dims[n]), numpy.zeros(g.dims[n]))
        if l["class"] == "cumsum":
            state[n] = numpy.zeros(g.dims[n])
    out = {n: [] for n in g.layers}
    for t in range(steps):
        cur = {}

        def get(s):
            if s == "data:source":
                return x[t].astype("float64")
            if s == "base:sv":
                return sv
            if s == ":i":
                return t
            if s == "temb":
                lab = targets[t - 1] if t else 0
                return P("temb", "W")[lab].astype("float64")
            if s == "att":
                q = get(g.att_query).copy() @ P("att_q", "W") + P("att_q", "b")
                e = enc @ q
                w = numpy.exp(e - e.max())
                w /= w.sum()
                return w @ enc
            if s.startswith("prev:"):
                return prev[s[5:]]
            return cur[s]

        for n in g.eval_order:
            l = g.layers[n]
            c = l["class"]
            if c == "switch":
                ins = None
            else:
                ins = [get(s) for s in (l["from"] if isinstance(l["from"], list) else [l["from"]])]
            if c == "linear":
                y = numpy.concatenate(ins) @ P(n, "W")
                if l["with_bias"]:
                    y = y + P(n, "b")
                y = ACT[l["activation"]](y)
            elif c == "combine":
                a, b = ins
                y = numpy.tanh({"add": a + b, "mul": a * b, "average": (a + b) / 2, "sub": a - b}[l["kind"]])
            elif c == "eval":
                if l.get("_step") or g.flags.get(n) == "step":
                    y = ins[0] + ins[1] * 0.1
                elif g.flags.get(n) == "gate":
                    s = sig(ins[0])
                    y = s * ins[1] + (1 - s) * ins[2]
                else:
                    y = numpy.tanh(ins[0]) * 0.5 + numpy.sin(ins[1])
            elif c == "activation":
                y = ACT[l["activation"]](ins[0])
            elif c == "copy":
                y = numpy.concatenate(ins)
            elif c == "slice":
                y = ins[0][l["slice_start"] : l["slice_end"]]
            elif c == "layer_norm":
                m = ins[0].mean()
                v = ((ins[0] - m) ** 2).mean()
                y = (ins[0] - m) / numpy.sqrt(v + 1e-6) * P(n, "scale") + P(n, "bias")
                g.fragile = max(g.fragile, 1.0 / numpy.sqrt(v + 1e-6))
            elif c == "rnn_cell":
                cc, h = state[n]
                z = numpy.concatenate(ins + [h]) @ P(n, "kernel") + P(n, "bias")
                i_, j, f, o = numpy.split(z, 4)
                cc = sig(f + 1.0) * cc + sig(i_) * numpy.tanh(j)
                y = sig(o) * numpy.tanh(cc)
                state[n] = (cc, y)
            elif c == "cumsum":
                y = state[n] = state[n] + ins[0]
            elif c == "compare":
                y = ins[0] > 0.1
                g.margin = min(g.margin, numpy.abs(ins[0] - 0.1).min())
            elif c == "switch":
                y = numpy.where(get(l["condition"]), get(l["true_from"]), get(l["false_from"]))
            else:
                assert False, c
            cur[n] = y
            out[n].append(y)
        prev = {n: cur[n] for n in prev}
    return {n: numpy.array(v) for n, v in out.items()}


def make_net(g, opt, outputs, mode, in_rec):
    unit = {}
    for n, l in g.layers.items():
        unit[n] = {k: v for k, v in l.items() if not k.startswith("_")}
        if n in outputs and n != "output":
            unit[n]["is_output_layer"] = True
    if g.uses("att"):
        unit["att_q"] = {"class": "linear", "activation": None, "from": g.att_query, "n_out": 4}
        unit["att_e"] = {"class": "dot", "from": ["base:enc", "att_q"], "reduce": "F", "var1": "T", "var2": None, "add_var2_if_empty": False}
        unit["att_w"] = {"class": "softmax_over_spatial", "from": "att_e"}
        unit["att"] = {"class": "generic_attention", "weights": "att_w", "base": "base:enc"}
    if mode == "target":
        unit["temb"] = {"class": "linear", "from": "prev:output", "n_out": 3, "activation": None, "with_bias": False}
        unit["output"] = {"class": "choice", "target": "classes", "beam_size": 2, "from": "prob", "initial_output": 0}
    rec = {"class": "rec", "unit": unit, "optimize_move_layers_out": opt, "is_output_layer": True}
    if mode == "target":
        rec.update({"from": [], "target": "classes"})
    else:
        rec.update({"from": in_rec, "n_out": g.dims["output"]})
    return {
        "svr": {"class": "reduce", "mode": "mean", "axis": "T", "from": "data:data"},
        "sv": {"class": "linear", "from": "svr", "n_out": 3, "activation": "tanh"},
        "enc": {"class": "linear", "from": "data:data", "n_out": 4, "activation": "tanh"},
        "rec": rec,
    }


def rec(case):
    rng, nprng = case.rng, case.np_rng()
    mode = rng.choice(["frames", "frames", "frames", "target"])
    in_dim, vocab = rng.choice([3, 4, 5]), 6
    use_enc = rng.random() < 0.4
    strict = rng.random() < 0.7
    g = Gen(rng, mode, in_dim, vocab, use_enc, strict)
    g.att_query = rng.choice(["prev:" + n for n in g.names if g.layers[n]["class"] in ("linear", "rnn_cell") and not strict] + (["data:source"] if mode == "frames" else ["temb"]))
    g.uses = lambda s: any(s == y or (isinstance(y, list) and s in y) for l in g.layers.values() for y in l.values())
    g.flags = {n: ("step" if l.get("_step") else "gate" if l.get("_gate") else None) for n, l in g.layers.items()}
    g.eval_order = None
    g.fragile, g.margin = 0.0, 1.0
    outputs = [n for n in g.names if n == g.names[-1] or rng.random() < 0.4]
    if mode == "target":
        outputs = ["prob"] + [o for o in outputs if o != "prob"]
    need, queue = set(), list(outputs)
    while queue:  # only layers which are needed are created
        n = queue.pop()
        n = n[5:] if n.startswith("prev:") else n
        if n == "att":
            queue.append(g.att_query)
        if n not in g.layers or n in need:
            continue
        need.add(n)
        l = g.layers[n]
        for k in ("from", "condition", "true_from", "false_from"):
            v = l.get(k, [])
            queue += v if isinstance(v, list) else [v]
    for n in list(g.layers):
        if n not in need:
            del g.layers[n]
    g.eval_order = list(g.layers)
    batch = rng.randint(1, 4)
    seqs = [nprng.randn(rng.randint(1, 7), in_dim).astype("float32") for _ in range(batch)]
    targets = [numpy.array([rng.randrange(vocab) for _ in range(rng.randint(1, 6))], "int32") for _ in range(batch)]
    case.desc(mode=mode, layers=g.layers, dims=g.dims, outputs=outputs, att_query=g.att_query, lens=[len(s) for s in seqs], tlens=[len(t) for t in targets])
    extern = {"data": {"dim": in_dim}, "classes": {"dim": vocab, "sparse": True}}
    data = {"data": tfnet.pad(seqs, rng_np=nprng), "classes": tfnet.pad(targets, rng_np=nprng, dtype="int32")}
    res = {}
    train = mode == "target" or rng.random() < 0.5
    exp = None
    for opt in [True, False]:
        try:
            net = tfnet.Net(make_net(g, opt, outputs, mode, "data:data"), extern, train=train)
        except Exception as exc:
            if strict and "currently cannot use both cur + prev frame" not in str(exc):
                raise
            case.count("refused")  # dims which cannot be inferred, or layers constant in time: refused loudly
            return case.trivial()
        try:
            params = net.set_params()
            if not strict and not all(net.layer("rec" if n == "output" else "rec/" + n).output.have_batch_axis() for n in outputs):
                case.count("no_batch")
                return case.trivial()
            fetch = {n: net.out("rec" if n == "output" else "rec/" + n) for n in outputs}
            if mode == "target":
                fetch["_choice"] = net.out("rec")
            with net.graph.as_default():
                xs = net.net.extern_data.data["data"]
                loss = net.tf.zeros(())
                with_time = []
                for n in outputs:
                    o = (net.layer("rec") if n == "output" else net.layer("rec/" + n)).output.copy_masked(0.0).copy_as_batch_major()
                    with_time.append(o.time_dim_axis is not None)
                    loss = loss + net.tf.reduce_sum(o.placeholder * net.tf.cos(o.placeholder))
                grads = net.tf.gradients(loss, [xs.placeholder] + sorted(net.params().values(), key=lambda v: v.name))
                fetch["_grads"] = [gr if gr is not None else net.tf.zeros(()) for gr in grads]
                fetch["_grads"] = [net.tf.convert_to_tensor(gr) for gr in fetch["_grads"]]
            r = net.run(fetch, data)
        finally:
            net.close()
        res[opt] = r
        r["_time"] = with_time
        for b in range(batch):
            x = seqs[b].astype("float64")
            sv = numpy.tanh(x.mean(0) @ params["sv/W"] + params["sv/b"]) if "sv/W" in params else None
            enc = numpy.tanh(x @ params["enc/W"] + params["enc/b"]) if "enc/W" in params else None
            steps = len(targets[b]) if mode == "target" else len(x)
            exp = interp(case, g, params, x, sv, enc, targets[b], steps)
            if g.margin < 1e-4:
                case.trivial()  # a comparison too close to its threshold
                return
            for n in outputs:
                got = r[n]
                if "lens" in got:
                    case.equal(int(got["lens"][b]), steps, "sequence length of %s (optimized %s)" % (n, opt))
                v = got["value"][b]
                if v.ndim == 1:  # moved out and does not depend on the step
                    v = numpy.broadcast_to(v, (steps,) + v.shape)
                v = v[:steps]
                case.require(v.shape == exp[n].shape, "shape of %s" % n, got=v.shape, expected=exp[n].shape, opt=opt)
                tol = 2e-4 * max(1.0, min(g.fragile, 1000.0)) * (1 + numpy.abs(exp[n]))
                bad = ~(numpy.abs(v - exp[n]) <= tol)
                if bad.any():
                    t = int(numpy.argwhere(bad)[0][0])
                    case.require(False, "layer %s, seq %i, step %i differs from the step-by-step evaluation (optimize_move_layers_out=%s)" % (n, b, t, opt), got=v[t].tolist(), expected=exp[n][t].tolist())
            if mode == "target":
                case.equal([int(c) for c in r["_choice"]["value"][b][:steps]], [int(c) for c in targets[b]], "choice in teacher forcing")
            if opt:
                case.count("steps", steps)
    if g.fragile < 30 and train and all(res[True]["_time"]) and all(res[False]["_time"]):
        for a, b in zip(res[True]["_grads"], res[False]["_grads"]):
            s = max(numpy.abs(a).max(initial=0), numpy.abs(b).max(initial=0), 1.0)
            case.require(a.shape == b.shape or a.size == 1 or b.size == 1, "gradient shapes")
            case.require(bool((numpy.abs(a - b) <= 2e-3 * s).all()), "gradients with and without loop optimisation differ", opt=a.tolist(), non_opt=b.tolist())
        case.count("grads")
    case.count("nets")
    case.count("prev", g.uses_prev)
    case.count("cells", sum(l["class"] == "rnn_cell" for l in g.layers.values()))
    if g.uses("att"):
        case.count("attention")
    if mode == "target":
        case.count("target")


KINDS = {"rec": {"func": rec, "quick": 250, "thorough": 5000}}
