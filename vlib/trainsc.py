"""A training scenario: corpus + model + config, which can be run straight or with interruptions, in forked children."""

from __future__ import annotations
import hashlib
import json
import os
from vlib import eng
from vlib import ds as D
from vlib.trainmodels import gen_model, gen_config


class Scenario:
    def __init__(self, case, *, epochs=None, workers=None, cfg_update=None, n=None):
        rng = case.rng
        self.case = case
        self.tmp = case.tmpdir()
        self.epochs = epochs or rng.choice([3, 4, 5])
        n = n or rng.randint(6, 18)
        self.c = D.Corpus(rng, n, max_len=12, dim=3, num_labels=6)
        self.dev = [("dev_data", D.Corpus(rng, rng.randint(2, 5), max_len=8, dim=3, num_labels=6))] if rng.random() < 0.75 else []
        if self.dev and rng.random() < 0.3:
            self.dev.append(("eval_data", D.Corpus(rng, rng.randint(2, 5), max_len=8, dim=3, num_labels=6)))
        self.get_model, self._train_step, mdesc = gen_model(rng, self.c.dim, self.c.num_labels)
        self.order_kw = {"seq_ordering": rng.choice(["default", "random", "laplace:2", "sorted", "random:2"])}
        if rng.random() < 0.4:
            self.order_kw["partition_epoch"] = 2
        self.cfg, cdesc = gen_config(rng, self.c, "@DIR@", self.epochs)
        if rng.random() < 0.25:
            self.cfg["save_interval"] = 2
        if rng.random() < 0.3:
            self.cfg["cleanup_old_models"] = rng.choice([True, {"keep_last_n": 1, "keep_best_n": 1}, {"keep_last_n": 2, "keep_best_n": 0, "keep": []}])
        use_workers = (rng.random() < 0.1) if workers is None else workers
        if use_workers:
            # With persistent workers, PyTorch draws a different number of seeds from the main generator when it creates the workers
            # than when it reuses them, so only what does not draw random numbers in the main process is comparable.
            self.get_model, self._train_step, mdesc = gen_model(rng, self.c.dim, self.c.num_labels, stochastic=False)
            self.cfg.pop("gradient_noise", None)
        else:
            self.cfg["torch_dataloader_opts"] = {"num_workers": 0}
        self.cfg.update(cfg_update or {})
        case.desc(epochs=self.epochs, n=n, model=mdesc, order=self.order_kw, cfg=cdesc, save=self.cfg.get("save_interval"),
                  cleanup=self.cfg.get("cleanup_old_models"), workers=use_workers, dev=len(self.dev))

    def _data(self):
        from returnn.datasets.map import MapDatasetWrapper
        from vlib.mpfuncs import PMap

        def mk(c, name, **kw):
            ds = MapDatasetWrapper(map_dataset=PMap(c), name=name, **kw)
            ds.initialize()
            return ds

        return mk(self.c, "train", **self.order_kw), {k: mk(c, k[: -len("_data")]) for k, c in self.dev}

    def run(self, name, *, num_epochs=None, exit_at=None, crash_at=None, raise_exc=None, fsize=None, kill_when=None, count_events=False):
        """
        :param exit_at: (epoch, k): the process dies in the k-th train step of this epoch
        """
        d = f"{self.tmp}/{name}"
        os.makedirs(d, exist_ok=True)
        cfg = {k: (v.replace("@DIR@", d) if isinstance(v, str) else v) for k, v in self.cfg.items()}
        cfg["num_epochs"] = num_epochs or self.epochs
        trace_fn = f"{self.tmp}/{name}.trace"
        state = {"epoch": None, "k": 0}

        def train_step(*, model, extern_data, **kw):
            import returnn.frontend as rf

            ctx = rf.get_run_ctx()
            if ctx.train_flag:
                if state["epoch"] != ctx.epoch:
                    state["epoch"], state["k"] = ctx.epoch, 0
                state["k"] += 1
                if exit_at and (state["epoch"], state["k"]) == exit_at:
                    os._exit(eng.CRASH_RC)
                h = hashlib.sha1()
                for p in _params(model):
                    h.update(p.detach().cpu().numpy().tobytes())
                with open(trace_fn, "a") as f:
                    f.write(json.dumps([ctx.epoch, ctx.step, [str(t) for t in extern_data["seq_tag"].raw_tensor], h.hexdigest()[:12]]) + "\n")
            self._train_step(model=model, extern_data=extern_data, **kw)

        cfg["get_model"] = self.get_model
        cfg["train_step"] = train_step
        if fsize is not None:
            trace_fn = "/dev/null"
        hook = eng.Hook(d, at=crash_at, raise_exc=raise_exc) if (crash_at or count_events) else None
        return eng.in_child(lambda: eng.run_engine(cfg, self._data, hook=hook), fsize=fsize, kill_when=kill_when)

    def dir(self, name):
        return f"{self.tmp}/{name}"

    def trace(self, name):
        """:return: epoch -> list of (step, tags, params) of the last attempt; number of steps seen"""
        per_epoch, total, last = {}, 0, None
        fn = f"{self.tmp}/{name}.trace"
        if not os.path.exists(fn):
            return {}, 0
        with open(fn) as f:
            for line in f:
                e, s, tags, h = json.loads(line)
                total += 1
                cur = per_epoch.setdefault(e, [])
                if cur and s <= cur[-1][0]:
                    cur.clear()  # the epoch was started again
                cur.append((s, tags, h))
        return per_epoch, total

    def scores(self, name):
        fn = self.dir(name) + "/lr/scores"
        return eng.read_lr_file(fn)

    def ckpts(self, name):
        """:return: epoch -> {"model": .., "opt": ..} of what is under the final names"""
        d = self.dir(name) + "/net"
        res = {}
        if not os.path.isdir(d):
            return res
        for fn in sorted(os.listdir(d)):
            if not fn.endswith(".pt"):
                continue
            base = fn[: -len(".pt")]
            kind = "opt" if base.endswith(".opt") else "model"
            epoch = int(base.split(".")[1])
            res.setdefault(epoch, {})[kind] = f"{d}/{fn}"
        return res

    def same_result(self, case, a, b, ra, rb, what, trace=True):
        """a: straight"""
        case.count("runs_compared")
        ta, na = self.trace(a)
        tb, nb = self.trace(b)
        case.count("train_steps", na + nb)
        case.require(not trace or eng.diff(ta, tb) is None, f"{what}: the trained batches differ from the uninterrupted training", diff=eng.diff(ta, tb))
        for k in ("params", "opt", "step", "epoch"):
            d = eng.diff(ra[k], rb[k], k)
            case.require(d is None, f"{what}: final {k} differs from the uninterrupted training", diff=d)
        self.same_scores(case, self.scores(a), self.scores(b), what)

    def same_scores(self, case, sa, sb, what, epochs=None):
        meta = ("global_train_step", "effective_learning_rate", "epoch_num_train_steps", "global_train_step_end")
        for e in sorted(sa) if epochs is None else epochs:
            case.require(e in sb, f"{what}: scores of epoch {e} missing", got=sorted(sb))
            case.require(sa[e][0] == sb[e][0], f"{what}: learning rate of epoch {e} differs", got=sb[e][0], expected=sa[e][0])
            d = eng.diff(sa[e][1], sb[e][1])
            case.require(d is None, f"{what}: scores of epoch {e} differ", diff=d)
            if sa[e][1]:
                d = eng.diff({k: sa[e][2].get(k) for k in meta}, {k: sb[e][2].get(k) for k in meta})
                case.require(d is None, f"{what}: step info of epoch {e} differs", diff=d)
        if epochs is None:
            case.equal(sorted(sb), sorted(sa), f"{what}: epochs in the score file")


def _params(model):
    import torch

    if isinstance(model, torch.nn.Module):
        return list(model.parameters())
    return [p.raw_tensor for p in model.parameters()]
