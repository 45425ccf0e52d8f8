"""C15: learning rate schedule follows its documented rule, and does not depend on restarts."""
import math
import os
from vlib import eng

RULE = (
    "case = random learning rate control (constant, newbob relative/absolute/multi-epoch; fixed rates, thresholds, decay/growth factors or functions, min epochs "
    "per rate, minimum, relative-to-lr, div by old) and a random score history (several keys, missing scores, epochs without any data, jumps, inf, zero); each epoch's rate is compared "
    "with an independent model, once in one process and once with the control object rebuilt from its file at random points. Non-trivial: >=2 epochs."
)
ASSUMPTIONS = ["near ties between a relative error and its threshold (1e-9) are not judged"]
MIN_COUNTS = {"epochs": 3000, "reloads": 500, "decays": 200, "gaps": 100}
BUDGET = {"quick": 200, "thorough": 900}


def worker_init():
    eng.torch_init()


class Tie(Exception):
    pass


class Model:
    """independent description of the schedule"""

    def __init__(self, o):
        self.o = o
        self.lr = dict(o["fixed"])
        self.err = {}

    def key(self, e):
        err = self.err.get(e)
        if not err:
            return None
        m = self.o["measure"]
        cand = m if isinstance(m, list) else ([m] if m else [])
        cand = [x for k in cand for x in (k, k + "_output")] + ["dev_score", "dev_score_output"]
        for k in cand:
            if k in err:
                return k
        for pred in (
            lambda k: k == "dev_score_output/output" or k.startswith("dev_score_output/output_"),
            lambda k: k.startswith("dev_score_output/"),
            lambda k: k.startswith("dev_"),
            lambda k: k in ("train_score", "train_score_output"),
            lambda k: True,
        ):
            ks = sorted(k for k in err if pred(k))
            if ks:
                return ks[0]

    def val(self, e):
        k = self.key(e)
        return (k, self.err[e][k]) if k else (None, None)

    def rel(self, a, b):
        (ka, va), (kb, vb) = self.val(a), self.val(b)
        if ka is None or kb is None or ka != kb:
            return None
        div = abs(va if self.o["div_old"] else vb)
        if vb - va == 0:
            return 0.0
        if div == 0:  # the limit: infinitely worse or better
            return math.inf if vb > va else -math.inf
        r = (vb - va) / div
        if self.o["rel_lr"]:
            lr = self.lr[b]
            if lr > 0:
                r /= lr / self.o["lr0"]
        return r

    def gt(self, x, thr):
        if math.isnan(x):
            return False
        if abs(x - thr) < 1e-9:
            raise Tie
        return x > thr

    def upd(self, lr, f):
        return f(lr) if callable(f) else lr * f

    def dg(self, lr, decay, grow):
        if decay:
            return max(self.upd(lr, self.o["decay"]), self.o["min_lr"])
        if grow:
            return self.upd(lr, self.o["growth"])
        return lr

    def get(self, e):
        if e in self.lr:
            return self.lr[e]
        self.lr[e] = self._new(e)
        return self.lr[e]

    def _new(self, e):
        o = self.o
        prev = sorted(x for x in self.lr if x < e)
        m = o["min_epochs"]
        if m > 1 and prev:
            last = [self.lr[x] for x in prev[-m:]]
            if len(last) < m or len(set(last)) > 1:
                return last[-1]
        if not prev:
            return o["lr0"]
        cur = self.lr[prev[-1]]
        if o["kind"] == "constant" or len(prev) < 2:
            return cur
        if o["kind"] == "newbob_abs":
            (ka, va), (kb, vb) = self.val(prev[-2]), self.val(prev[-1])
            if ka is None or kb is None or ka != kb:
                return cur
            d = self.gt(vb - va, o["abs_thr"])
            return self.dg(cur, d, not d)
        if o["kind"] == "newbob":
            r = self.rel(prev[-2], prev[-1])
            if r is None:
                return cur
            d = self.gt(r, o["thr"])
            return self.dg(cur, d, not d)
        n, iv = o["multi_n"], o["multi_iv"]
        if iv > 1 and e % iv != 1:
            return cur
        eps = prev[-(n + 1):]
        rs = [self.rel(a, b) for a, b in zip(eps, eps[1:])]
        if any(r is None for r in rs):
            return cur
        mean = sum(rs) / len(rs)
        d = self.gt(mean, o["thr"])
        g = (not d) and self.gt(-mean, -o["grow_thr"])
        return self.dg(cur, d, g)


def nest(rng, err):
    """the same scores, given as nested dict, as the engines do"""
    if rng.random() < 0.6:
        return err
    out = {}
    for k, v in err.items():
        base, _, last = k.rpartition("_")
        if base and base not in err and len([k2 for k2 in err if k2.rpartition("_")[0] == base]) > 1:
            out.setdefault(base, {})[rng.choice(["cost:", "error:", ""]) + last] = v
        elif rng.random() < 0.5:
            out[k] = {rng.choice(["cost:output", "x"]): v}
        else:
            out[k] = v
    return out


def schedule(case):
    from returnn.config import Config
    from returnn.learning_rate_control import load_learning_rate_control_from_config

    rng = case.rng
    d = case.tmpdir()
    o = dict(
        kind=rng.choice(["constant", "newbob", "newbob", "newbob_abs", "newbob_multi_epoch", "newbob_multi_epoch"]),
        lr0=rng.choice([1.0, 0.1, 0.0007]), fixed={}, measure=None, div_old=rng.random() < 0.3, rel_lr=rng.random() < 0.3,
        min_lr=rng.choice([0.0, 0.0, 0.05, 1e-4]), min_epochs=rng.choice([0, 0, 1, 2, 3]), decay=0.5, growth=1.0,
        thr=rng.choice([-0.01, 0.0, -0.1, 0.05]), abs_thr=rng.choice([-0.01, 0.0, -0.5]), multi_n=rng.choice([1, 2, 3, 5]),
    )
    o["multi_iv"] = o["multi_n"]
    o["grow_thr"] = o["thr"]
    cfg = dict(learning_rate=o["lr0"], learning_rate_control=o["kind"])
    if rng.random() < 0.6:
        cfg["learning_rate_file"] = f"{d}/scores"
    have_file = "learning_rate_file" in cfg
    if rng.random() < 0.4:
        n = rng.randint(1, 4)
        if rng.random() < 0.5:
            ls = [rng.choice([0.3, 0.2, 0.5]) for _ in range(n)]
            cfg["learning_rates"] = ls
            o["fixed"] = {i + 1: v for i, v in enumerate(ls)}
        else:
            o["fixed"] = {rng.randint(1, 12): rng.choice([0.3, 0.2]) for _ in range(n)}
            cfg["learning_rates"] = dict(o["fixed"])
    if o["div_old"]:
        cfg["newbob_relative_error_div_by_old"] = True
    if o["rel_lr"]:
        cfg["learning_rate_control_relative_error_relative_lr"] = True
    if o["min_lr"]:
        cfg["min_learning_rate"] = o["min_lr"]
    if o["min_epochs"]:
        cfg["learning_rate_control_min_num_epochs_per_new_lr"] = o["min_epochs"]
    if o["thr"] != -0.01:
        cfg["newbob_relative_error_threshold"] = o["thr"]
    if o["abs_thr"] != -0.01:
        cfg["newbob_error_threshold"] = o["abs_thr"]
    if o["multi_n"] != 5:
        cfg["newbob_multi_num_epochs"] = o["multi_n"]
    if rng.random() < 0.4:
        o["multi_iv"] = cfg["newbob_multi_update_interval"] = rng.choice([1, 2, 3])
    if rng.random() < 0.3:
        o["grow_thr"] = cfg["newbob_relative_error_grow_threshold"] = o["thr"] - rng.choice([0.0, 0.05])
    f = rng.choice([None, 0.7, 0.9, "func"])
    if f == "func":
        def f(lr):
            return lr * 0.8 + 0.001
    if f is not None:
        o["decay"] = f
        cfg[rng.choice(["learning_rate_decay", "newbob_learning_rate_decay"])] = f
    f = rng.choice([None, None, 1.1, "func"])
    if f == "func":
        def f(lr):
            return min(lr * 2.0, 1.0)
    if f is not None:
        o["growth"] = f
        cfg[rng.choice(["learning_rate_growth", "newbob_learning_rate_growth"])] = f
    keysets = rng.choice([
        ["dev_score"], ["dev_loss_ce", "train_loss_ce"], ["dev_score_output/output_a", "dev_score_output/x", "dev_error_z"],
        ["train_score", "a_score"], ["dev_score_output", "dev_error", "eval_score"], ["train_loss_b", "train_loss_a"],
    ])
    if rng.random() < 0.4:
        o["measure"] = rng.choice([rng.choice(keysets), rng.sample(keysets, rng.randint(1, len(keysets))), ["nope", keysets[-1]], keysets[0].replace("_output", "")])
        cfg["learning_rate_control_error_measure"] = o["measure"]
    case.desc(o={k: v for k, v in o.items() if not callable(v)}, keys=keysets, file=have_file)
    m = Model(o)
    config = Config(cfg)
    c = load_learning_rate_control_from_config(config)
    n = rng.randint(2, 16)
    level = {k: rng.choice([1.0, 50.0, 0.1]) for k in keysets}
    wild = rng.random() < 0.2
    gaps = rng.choice([0, 0, 0.2, 0.5])
    try:
        for e in range(1, n + 1):
            if gaps and rng.random() < gaps:  # epoch without any data, e.g. started later or file edited
                case.count("gaps")
                continue
            if have_file and e > 1 and rng.random() < 0.4:
                c = load_learning_rate_control_from_config(Config(cfg))
                case.count("reloads")
                for pe in m.err:
                    case.require(eng.diff(dict(c.get_epoch_error_dict(pe)), m.err[pe]) is None, f"scores of epoch {pe} changed by the file",
                                 got=c.get_epoch_error_dict(pe), expected=m.err[pe])
            case.count("epochs")
            exp = m.get(e)
            got = c.get_learning_rate_for_epoch(e)
            case.require(isinstance(got, float) and math.isclose(got, exp, rel_tol=1e-9), f"learning rate of epoch {e}", got=got, expected=exp, lrs=m.lr, errs=m.err)
            m.lr[e] = got
            if e > 1 and got < m.lr.get(e - 1, got):
                case.count("decays")
            case.equal(c.get_learning_rate_for_epoch(e), got, "asked again")
            err = {}
            for k in keysets:
                level[k] *= rng.choice([0.5, 0.9, 0.97, 0.999, 1.0, 1.0, 1.01, 1.3])
                v = level[k]
                if wild:
                    v = rng.choice([v, v, v, float("inf"), 0.0, -v])
                if rng.random() < 0.93:
                    err[k] = v
            if err and rng.random() < 0.95:
                parts = [err]
                if len(err) > 1 and rng.random() < 0.5:  # train scores first, then dev
                    ks = list(err)
                    parts = [{k: err[k] for k in ks[:1]}, {k: err[k] for k in ks[1:]}]
                for p in parts:
                    c.set_epoch_error(e, nest(rng, p))
                    if have_file:
                        c.save()
                m.err[e] = err
            elif have_file:
                c.save()
            # model selection
            first = rng.randint(1, e)
            kw = {}
            if rng.random() < 0.3:
                kw["only_last_epochs"] = rng.randint(1, 5)
            if rng.random() < 0.3:
                kw["filter_score"] = rng.choice([m.err[x][k] for x in m.err for k in m.err[x]] + [0.5])
            if rng.random() < 0.3:
                kw["only_last_n"] = rng.randint(1, 4)
            if rng.random() < 0.3:
                kw["min_score_dist"] = rng.choice([0.003, 0.3, 7.0])
            if math.isnan(kw.get("filter_score", 0)):
                kw.clear()
            got_best = c.get_last_best_epoch(last_epoch=e, first_epoch=first, **kw)
            first0, first = first, max(first, e - kw["only_last_epochs"] + 1) if "only_last_epochs" in kw else first
            vals = [(m.val(x), x) for x in range(first, e + 1)]
            vals = [(kv, x) for kv, x in vals if kv[1] is not None]
            exp_best = None
            if vals:
                lk, lv = vals[-1][0]
                cand = [(kv[1], x) for kv, x in vals if kv[0] == lk and kv[1] <= kw.get("filter_score", math.inf)]
                if "only_last_n" in kw:
                    cand = cand[-kw["only_last_n"] :]
                cand = [(v, x) for v, x in cand if v + kw.get("min_score_dist", 0.0) < lv]
                exp_best = min(cand)[1] if cand else None
            case.equal(got_best, exp_best, f"get_last_best_epoch({first0}..{e}, {kw})", errs=m.err)
    except Tie:
        case.count("ties")
    if n < 2:
        case.trivial()


KINDS = {"schedule": {"func": schedule, "quick": 900, "thorough": 40000}}
