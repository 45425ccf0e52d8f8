"""C35: TF beam search (rec layer with choice layer in search mode) = beam search over the model, per sequence."""
import numpy
from vlib import tfnet

RULE = (
    "decoder = random sub-network with feedback of the chosen label (embedding, LSTM cell or simple recurrence, optional attention, extra output layers depending on the history), beam size 1-12 (also larger than the vocabulary), "
    "input types, score scales, length normalization, max lengths, include_eos; simulated by an own numpy beam search per sequence; hypotheses, scores, lengths and per-step outputs of every hypothesis compared, with and without loop optimisation. "
    "Non-trivial: at least one hypothesis with two labels."
)
ASSUMPTIONS = ["float32; searches where two competing scores are closer than 2e-3 in some step are skipped", "label 0 ends a sequence", "CPU"]
MIN_COUNTS = {"searches": 60, "hyps": 300, "steps": 200, "extra_outputs": 100, "ended_early": 50, "length_norm": 15, "greedy": 8, "exhaustive": 5}
BUDGET = {"quick": 400, "thorough": 2000}
CASE_TIMEOUT = 120


def worker_init():
    tfnet.init()


def sig(x):
    return 1 / (1 + numpy.exp(-x))


def log_softmax(x):
    x = x - x.max(-1, keepdims=True)
    return x - numpy.log(numpy.exp(x).sum(-1, keepdims=True))


class Model:
    def __init__(self, rng):
        self.vocab = rng.randint(2, 7)
        self.cell = rng.choice(["rnn_cell", "linear"])
        self.att = rng.random() < 0.5
        self.input_type = rng.choice(["prob", "prob", "log_prob", "logits"])
        self.sdim = 4
        self.extra = rng.random() < 0.6
        self.emb_delay = rng.random() < 0.3  # also uses the label before the last one, via prev: of a layer

    def unit(self, rng, choice_opts, opt_extra=True):
        u = {
            "emb": {"class": "linear", "activation": None, "from": "prev:output", "n_out": 3, "with_bias": False},
            "output": dict({"class": "choice", "target": "classes", "from": "prob", "initial_output": 0, "input_type": self.input_type}, **choice_opts),
            "end": {"class": "compare", "from": "output", "value": 0},
        }
        src = ["emb"]
        if self.emb_delay:
            src += ["prev:emb"]
        if self.att:
            # two heads of dim 3, additive attention with weight feedback (as in the usual encoder-decoder configs)
            u["wf"] = {"class": "linear", "activation": None, "with_bias": False, "from": "prev:aw", "n_out": 6}
            u["q"] = {"class": "linear", "activation": None, "from": "s", "n_out": 6}
            u["ein"] = {"class": "combine", "kind": "add", "from": ["base:enc", "wf", "q"], "n_out": 6}
            u["et"] = {"class": "activation", "activation": "tanh", "from": "ein"}
            u["e"] = {"class": "linear", "activation": None, "with_bias": False, "from": "et", "n_out": 2}
            u["w"] = {"class": "softmax_over_spatial", "from": "e", "axis": "stag:extern_data:data"}
            u["aw"] = {"class": "eval", "from": ["prev:aw", "w"], "eval": "source(0) + source(1) * 0.5", "out_type": {"dim": 2, "shape": (None, 2)}}
            u["c0"] = {"class": "generic_attention", "weights": "w", "base": "base:encv"}
            u["c"] = {"class": "merge_dims", "axes": ["dim:2", "dim:3"], "from": "c0"}
            src += ["prev:c"]
        else:
            src += ["base:sv"]
        if self.cell == "rnn_cell":
            u["s"] = {"class": "rnn_cell", "unit": "LSTMBlock", "n_out": self.sdim, "from": src}
        else:
            u["s"] = {"class": "linear", "activation": "tanh", "n_out": self.sdim, "from": src + ["prev:s"]}
        act = {"prob": "softmax", "log_prob": "log_softmax", "logits": None}[self.input_type]
        u["prob"] = {"class": "linear", "activation": act, "from": ["s", "emb"] + (["c"] if self.att else []), "n_out": self.vocab, "is_output_layer": True}
        if self.extra:
            # depends on the chosen label of this step and the history: can be moved out of the loop
            u["x"] = {"class": "linear", "activation": "tanh", "from": ["s", "oemb"], "n_out": 2, "is_output_layer": True}
            u["oemb"] = {"class": "linear", "activation": None, "from": "output", "n_out": 2, "with_bias": False}
            u["acc"] = {"class": "combine", "kind": "add", "from": ["x", "prev:acc"], "is_output_layer": True}
        return u

    def init_state(self):
        return dict(s=numpy.zeros(self.sdim), c=numpy.zeros(self.sdim), emb=numpy.zeros(3), att=numpy.zeros(6), aw=None, acc=numpy.zeros(2), label=0)

    def step(self, p, st, enc, sv):
        """:return: (log probs, shown prob layer output, new state)"""
        P = lambda n: p["rec/rec/" + n].astype("float64")
        emb = P("emb/W")[st["label"]]
        src = [emb]
        if self.emb_delay:
            src.append(st["emb"])
        if self.att:
            src.append(st["att"])
        else:
            src.append(sv)
        n = dict(st, emb=emb)
        if self.cell == "rnn_cell":
            z = numpy.concatenate(src + [st["s"]]) @ P("s/rec/lstm_cell/kernel") + P("s/rec/lstm_cell/bias")
            i, j, f, o = numpy.split(z, 4)
            n["c"] = sig(f + 1) * st["c"] + sig(i) * numpy.tanh(j)
            n["s"] = sig(o) * numpy.tanh(n["c"])
        else:
            n["s"] = numpy.tanh(numpy.concatenate(src + [st["s"]]) @ P("s/W") + P("s/b"))
        psrc = [n["s"], emb]
        if self.att:
            q = n["s"] @ P("q/W") + P("q/b")
            aw = st["aw"] if st["aw"] is not None else numpy.zeros((len(enc), 2))
            e = numpy.tanh(enc + aw @ P("wf/W") + q) @ P("e/W")
            w = numpy.exp(e - e.max(0))
            w = w / w.sum(0)  # (T, H)
            n["aw"] = aw + w * 0.5
            n["att"] = numpy.einsum("th,thv->hv", w, enc.reshape(len(enc), 2, 3)).reshape(6)
            psrc.append(n["att"])
        logits = numpy.concatenate(psrc) @ P("prob/W") + P("prob/b")
        lp = log_softmax(logits)
        shown = {"prob": numpy.exp(lp), "log_prob": lp, "logits": logits}[self.input_type]
        return lp, shown, n

    def after(self, p, n, label):
        """:return: new state with the label"""
        n = dict(n, label=label)
        out = {}
        if self.extra:
            P = lambda k: p["rec/rec/" + k].astype("float64")
            out["x"] = numpy.tanh(numpy.concatenate([n["s"], P("oemb/W")[label]]) @ P("x/W") + P("x/b"))
            n["acc"] = n["acc"] + out["x"]
            out["acc"] = n["acc"]
        return n, out


def simulate(m, p, encs, svs, beam, max_len, prob_scale, lnorm, lexp, base_scale=1.0):
    """:return: list per sequence of hyps (best first), smallest margin, number of steps"""
    beams = [[dict(score=0.0, labels=[], ended=False, len=None, state=m.init_state(), outs=[])] for _ in encs]
    margin = numpy.inf
    t = 0
    while t < max_len and not all(h["ended"] for hs in beams for h in hs):
        for b in range(len(encs)):
            cand = []
            for h in beams[b]:
                base = h["score"] * base_scale
                if h["ended"]:
                    if lnorm:
                        base *= ((t + 1) / t) ** lexp
                    cand.append((base, h, 0, None, None))  # stays as it is
                    continue
                lp, shown, n = m.step(p, h["state"], encs[b], svs[b])
                for lab in range(m.vocab):
                    cand.append((base + prob_scale * lp[lab], h, lab, shown, n))
            cand.sort(key=lambda c: -c[0])
            ss = [c[0] for c in cand[: beam + 1]]
            for x, y in zip(ss, ss[1:]):
                margin = min(margin, x - y)
            new = []
            for sc, h, lab, shown, n in cand[:beam]:
                if h["ended"]:
                    new.append(dict(h, score=sc))
                    continue
                st, out = m.after(p, n, lab)
                out["prob"] = shown
                new.append(dict(score=sc, labels=h["labels"] + [lab], ended=lab == 0, state=st, outs=h["outs"] + [out]))
            beams[b] = new
        t += 1
    return beams, margin, t


def search(case):
    rng, nprng = case.rng, case.np_rng()
    m = Model(rng)
    beam = rng.choice([1, 2, 3, 4, 12])
    lnorm = rng.random() < 0.4
    opts = {"beam_size": beam, "length_normalization": lnorm}
    prob_scale = lexp = base_scale = 1.0
    if rng.random() < 0.3:
        opts["prob_scale"] = prob_scale = rng.choice([0.5, 2.0])
    if lnorm and rng.random() < 0.3:
        opts["length_normalization_exponent"] = lexp = rng.choice([0.5, 2.0])
    if not lnorm and rng.random() < 0.25:
        opts["base_beam_score_scale"] = base_scale = rng.choice([0.5, 0.9, 1.5])
    batch = rng.randint(1, 4)
    seqs = [nprng.randn(rng.randint(1, 5), 5).astype("float32") for _ in range(batch)]
    plus = rng.randint(0, 2)
    max_len = max(len(s) for s in seqs) + plus if rng.random() < 0.7 else rng.randint(1, 6)
    ml_str = "max_len_from('base:enc') + %i" % plus if max_len == max(len(s) for s in seqs) + plus else max_len
    if beam == 12:
        m.vocab = min(m.vocab, 3)
        max_len = ml_str = rng.randint(1, 3)
    include_eos = rng.random() < 0.4
    opt = rng.random() < 0.5
    scale = rng.choice([0.7, 1.5])
    unit = m.unit(rng, opts)
    net_dict = {
        "svr": {"class": "reduce", "mode": "mean", "axis": "T", "from": "data:data"},
        "sv": {"class": "linear", "from": "svr", "n_out": 3, "activation": "tanh"},
        "enc": {"class": "linear", "from": "data:data", "n_out": 6, "activation": "tanh"},
        "encv": {"class": "split_dims", "axis": "F", "dims": (2, 3), "from": "enc"},
        "rec": {"class": "rec", "unit": unit, "from": [], "target": "classes", "max_seq_len": ml_str, "optimize_move_layers_out": opt, "include_eos": include_eos, "is_output_layer": True},
        "dec": {"class": "decide", "from": "rec", "target": "classes", "is_output_layer": True},
        # keeps the encoder alive also when it is not used by the decoder
        "keep": {"class": "copy", "from": ["enc"], "is_output_layer": True},
    }
    case.desc(model=vars(m), choice=opts, max_len=ml_str, include_eos=include_eos, optimize=opt, lens=[len(s) for s in seqs])
    extern = {"data": {"dim": 5}, "classes": {"dim": m.vocab, "sparse": True, "available_for_inference": False}}
    net = tfnet.Net(net_dict, extern, search=True)
    try:
        params = net.set_params(scale=scale)
        fetch = {"hyp": net.out("rec"), "dec": net.out("dec")}
        extra = ["prob"] + (["x", "acc"] if m.extra else [])
        for n in extra:
            fetch[n] = net.out("rec/" + n)
        with net.graph.as_default():
            fetch["scores"] = net.layer("rec").get_search_choices().beam_scores
        r = net.run(fetch, {"data": tfnet.pad(seqs, rng_np=nprng)})
    finally:
        net.close()
    x64 = [s.astype("float64") for s in seqs]
    svs = [numpy.tanh(x.mean(0) @ params["sv/W"] + params["sv/b"]) if "sv/W" in params else None for x in x64]
    encs = [numpy.tanh(x @ params["enc/W"] + params["enc/b"]) for x in x64]
    beams, margin, steps = simulate(m, params, encs, svs, beam, max_len, prob_scale, lnorm, lexp, base_scale)
    if margin < 2e-3:
        case.count("close_scores")
        return case.trivial()
    hyp, lens = r["hyp"]["value"], r["hyp"]["lens"]
    case.equal((len(hyp), len(lens)), (batch * beam, batch * beam), "number of hypotheses")
    factor = 1.0
    if lnorm:  # scores are only defined up to a common factor of the whole batch (number of steps)
        factor = sum(float(r["scores"][b][: len(hs)].sum()) for b, hs in enumerate(beams)) / sum(h["score"] for hs in beams for h in hs)
        case.require(factor > 0, "sign of the scores", scores=r["scores"].tolist())
    for b in range(batch):
        hs = beams[b]
        case.require(r["scores"].shape == (batch, beam), "beam scores shape", got=r["scores"].shape)
        for k, h in enumerate(hs):
            i = b * beam + k
            elen = len(h["labels"]) if include_eos or not h["ended"] else len(h["labels"]) - 1
            det = dict(seq=b, hyp=k, expected=[(round(x["score"], 4), x["labels"]) for x in hs], got=[(float(r["scores"][b][j]), hyp[b * beam + j][: lens[b * beam + j]].tolist()) for j in range(beam)])
            case.require(abs(float(r["scores"][b][k]) / factor - h["score"]) <= 1e-3 * (1 + abs(h["score"])), "score of the hypothesis", **det)
            case.require(int(lens[i]) == elen, "length of the hypothesis", **det)
            case.require(hyp[i][:elen].tolist() == h["labels"][:elen], "labels of the hypothesis", **det)
            for n in extra:
                v = r[n]["value"][i][:elen]
                e = numpy.array([o[n] for o in h["outs"][:elen]]).reshape(v.shape)
                case.require(bool((numpy.abs(v - e) <= 1e-3 * (1 + numpy.abs(e))).all()), "output of layer %r for the hypothesis" % n, layer_got=v.tolist(), layer_expected=e.tolist(), **det)
                case.count("extra_outputs")
            case.count("hyps")
            if h["ended"] and len(h["labels"]) < steps:
                case.count("ended_early")
        for k in range(len(hs), beam):
            case.require(float(r["scores"][b][k]) < -1e20, "more hypotheses than possible", seq=b, hyp=k)
        best = hs[0]
        elen = len(best["labels"]) if include_eos or not best["ended"] else len(best["labels"]) - 1
        case.equal((int(r["dec"]["lens"][b]), r["dec"]["value"][b][:elen].tolist()), (elen, best["labels"][:elen]), "decide takes the best hypothesis")
        if beam == 12 and not lnorm:
            case.count("exhaustive")
    case.count("searches")
    case.count("steps", steps)
    if beam == 1:
        case.count("greedy")
    if lnorm:
        case.count("length_norm")
    if steps < 2:
        case.trivial()


KINDS = {"search": {"func": search, "quick": 160, "thorough": 5000}}
