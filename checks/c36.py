"""C36: parameters are loaded from where the config says; nothing stays silently uninitialised; averaging averages."""
import os
from vlib import eng
from vlib import ds as D

RULE = (
    "case = random module tree (nested, buffers, PyTorch or RF) x existing checkpoints / optimizer files x load / load_epoch / import_model_train_epoch1 / preload_from_files entries "
    "(prefix, ignore_params, ignore_params_prefixes, var_name_mapping, checkpoint_key, init_for_train, ignore_missing, filename None with pattern) x task; every tensor of every file has "
    "its own values, so the origin of each parameter in the engine is known. Compared with the documented rule. Distinct by case description."
)
ASSUMPTIONS = [
    "documented rule of preload_from_files: entries in sorted key order, the first which has a parameter wins, over the main checkpoint; init_for_train True only for the first epoch of a training, 'always' always, else not in training",
    "no prefix together with var_name_mapping (names would be ambiguous); init_for_train 'always' only for parameters, not buffers",
]
MIN_COUNTS = {"params_checked": 1500, "loads": 200, "refused": 15, "averaged": 100}
BUDGET = {"quick": 300, "thorough": 1200}


def worker_init():
    eng.torch_init()


class _Gen:
    def __init__(self, case):
        self.rng = case.rng
        self.n = 0

    def value(self, like):
        import torch

        self.n += 1
        v = torch.arange(like.numel(), dtype=torch.float64).reshape(like.shape) * 0.001 + self.n
        return v.to(like.dtype)


def _spec(rng):
    """names of sub modules with their kind"""
    parts = rng.sample(["encoder", "decoder", "lm", "enc_aux", "encoder2", "out"], rng.randint(2, 4))
    out = {}
    for p in parts:
        k = rng.choice(["lin", "lin", "bn", "seq", "ln", "param"])
        out[p] = k
    return out


def _torch_model(spec):
    import torch

    class Sub(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.w = torch.nn.Parameter(torch.randn(3))
            self.sub = torch.nn.Linear(2, 2)

    class Model(torch.nn.Module):
        def __init__(self):
            super().__init__()
            for n, k in spec.items():
                m = {
                    "lin": lambda: torch.nn.Linear(2, 3), "bn": lambda: torch.nn.BatchNorm1d(3), "seq": lambda: torch.nn.Sequential(torch.nn.Linear(2, 2), torch.nn.Linear(2, 1, bias=False)),
                    "ln": lambda: torch.nn.LayerNorm(2), "param": lambda: Sub(),
                }[k]()
                setattr(self, n, m)

    return Model()


def _rf_model(spec, noncrit):
    import returnn.frontend as rf
    from returnn.tensor import Dim

    class Model(rf.Module):
        def __init__(self):
            super().__init__()
            a, b = Dim(2, name="a"), Dim(3, name="b")
            for n, k in spec.items():
                m = {
                    "lin": lambda: rf.Linear(a, b), "bn": lambda: rf.BatchNorm(b, use_mask=False), "seq": lambda: rf.Sequential(rf.Linear(a, b), rf.Linear(b, a, with_bias=False)),
                    "ln": lambda: rf.LayerNorm(a), "param": lambda: rf.Linear(b, a),
                }[k]()
                setattr(self, n, m)
            if noncrit:
                self.extra = rf.Parameter([b])
                self.extra.initial = 0.25
                self.extra.non_critical_for_restore = True

    model = Model()
    named = dict(model.named_parameters())
    for k in noncrit or ():
        if k != "extra":
            named[k].non_critical_for_restore = True
    return model


def _state(case, gen, model_sd, keep=None):
    return {k: gen.value(v) for k, v in model_sd.items() if keep is None or k in keep}


def _engine(cfg, train_data=None):
    from returnn.config import Config, global_config_ctx
    from returnn.torch.engine import Engine

    config = Config(dict(cfg))
    with global_config_ctx(config):
        engine = Engine(config=config)
        if train_data is not None:
            engine.init_train_from_config(train_data=train_data)
        else:
            engine.init_network_from_config(config)
    return engine


def _train_data(case):
    from returnn.datasets.map import MapDatasetWrapper
    from vlib.mpfuncs import PMap

    ds = MapDatasetWrapper(map_dataset=PMap(D.Corpus(case.rng, 2, max_len=3, dim=3, num_labels=3)), name="train")
    ds.initialize()
    return ds


def _base(case, d, get_model, task):
    return {
        "backend": "torch", "device": "cpu", "task": task, "batch_size": 100, "optimizer": {"class": "sgd"}, "learning_rate": 0.1, "log_verbosity": 0, "num_epochs": 9,
        "extern_data": {"data": {"dim": 3}, "classes": {"dim": 3, "sparse": True}}, "model": f"{d}/net/epoch", "learning_rate_file": f"{d}/lr",
        "get_model": get_model, "train_step": lambda **_kw: None, "forward_step": lambda **_kw: None, "torch_dataloader_opts": {"num_workers": 0},
    }


def _save_opt(fn, get_model):
    """an optimizer file as the engine writes it"""
    from returnn.config import Config
    from returnn.torch.updater import Updater
    import torch
    import returnn.frontend as rf
    from returnn.torch.frontend.bridge import rf_module_to_pt_module

    model = get_model()
    if isinstance(model, rf.Module):
        model = rf_module_to_pt_module(model)
    u = Updater(config=Config({"optimizer": {"class": "sgd"}, "learning_rate": 0.1}), network=model, device="cpu", initial_learning_rate=0.1)
    u.create_optimizer()
    u.save_optimizer(fn)


def _pt_sd(get_model):
    import returnn.frontend as rf

    m = get_model()
    if isinstance(m, rf.Module):
        from returnn.torch.frontend.bridge import rf_module_to_pt_module

        m = rf_module_to_pt_module(m)
    # num_batches_tracked: PyTorch itself sets it to zero if it is not in the checkpoint
    return {k: v.detach().clone() for k, v in m.state_dict().items() if not k.endswith("num_batches_tracked")}, {k for k, _ in m.named_parameters()}


def _check_params(case, engine, expected, what, init=None):
    import torch

    m = engine.get_pt_model()
    got = dict(m.named_parameters())
    got.update(dict(m.named_buffers()))
    for k, v in expected.items():
        case.require(k in got, f"{what}: parameter {k} is gone", got=sorted(got))
        if v is None:
            continue
        case.require(torch.equal(got[k].detach().to(v.dtype), v), f"{what}: parameter {k} does not have the value of its source", got=got[k].detach().reshape(-1)[:3].tolist(), exp=v.reshape(-1)[:3].tolist())
        case.count("params_checked")
    case.count("loads")


def k_preload(case):
    import torch

    rng = case.rng
    d = case.tmpdir()
    os.makedirs(f"{d}/net")
    spec = _spec(rng)
    use_rf = rng.random() < 0.4
    noncrit = ["extra"] if use_rf and rng.random() < 0.5 else []

    def get_model(**_kw):
        return _rf_model(spec, noncrit) if use_rf else _torch_model(spec)

    sd, param_names = _pt_sd(get_model)
    names = sorted(sd)
    if noncrit:
        noncrit += rng.sample(sorted(param_names - {"extra"}), rng.randint(0, min(2, len(param_names) - 1)))
    gen = _Gen(case)
    task = rng.choice(["train", "forward"])
    main = rng.random() < (0.5 if task == "train" else 0.7)
    main_state = None
    epoch = rng.randint(1, 5)
    if main:
        keep = set(names) if rng.random() < 0.5 else set(rng.sample(names, rng.randint(1, len(names))))
        if len(noncrit) > 1 and rng.random() < 0.7:
            keep = {k for k in names if not k.startswith(noncrit[1].rpartition(".")[0])}
            if rng.random() < 0.5:  # only the non-critical one missing
                keep = set(names) - set(noncrit)
        main_state = _state(case, gen, sd, keep)
        if rng.random() < 0.3:
            main_state["unknown.weight"] = torch.ones(2)
        torch.save({"model": main_state, "epoch": epoch, "step": 17}, f"{d}/net/epoch.%03d.pt" % epoch)
        _save_opt(f"{d}/net/epoch.%03d.opt.pt" % epoch, get_model)
    entries = {}
    loaded_by = {}  # active entries: key -> (state after name handling, scope prefix, ignore_missing)
    for key in rng.sample(["a", "b", "c", "z", "A"], rng.randint(1, 3)):
        opts = {}
        mode = rng.choice(["plain", "plain", "prefix", "map"])
        if mode == "prefix":
            prefix = rng.choice(sorted(spec)) + "."
            if rng.random() < 0.2:
                prefix = prefix[:-1]  # "encoder" is also a prefix of "encoder2.": names in the file start with the rest
            keys_in_scope = [k for k in names if k.startswith(prefix)]
            opts["prefix"] = prefix
        else:
            prefix = ""
            keys_in_scope = names
        have = [k for k in keys_in_scope if rng.random() < 0.8]
        if not have:
            have = [rng.choice(keys_in_scope)]
        st = {k: gen.value(sd[k]) for k in have}
        file_state = {k[len(prefix):]: v for k, v in st.items()}
        if mode == "map":
            k = rng.choice(have)
            file_state["other.name"] = file_state.pop(k)
            opts["var_name_mapping"] = {k: "other.name"}
        if rng.random() < 0.3:
            file_state["junk.weight"] = torch.zeros(1)
        ign = set()
        if rng.random() < 0.3 and len(st) > 1 and mode != "map":
            if rng.random() < 0.5:
                ign = {rng.choice(sorted(st))}
                opts["ignore_params"] = sorted(ign)
            else:
                p = rng.choice(sorted(st)).rpartition(".")[0]
                ign = {k for k in st if k.startswith(p)}
                if len(ign) == len(st):
                    ign = set()
                else:
                    opts["ignore_params_prefixes"] = [p]
        st = {k: v for k, v in st.items() if k not in ign}
        ck = rng.choice(["model", "model", None, "state"])
        if ck == "model":
            content = {"model": file_state, "epoch": 3}
            if rng.random() < 0.4:
                opts["checkpoint_key"] = "model"
        elif ck is None:
            content = file_state
            opts["checkpoint_key"] = None
        else:
            content = {"state": file_state, "model": {}}
            opts["checkpoint_key"] = "state"
        fn = f"{d}/pre_{key}.pt"
        torch.save(content, fn)
        opts["filename"] = fn
        ift = rng.choice([None, True, True, "always"] if task == "train" else [None, None, "always", True])
        if ift == "always" and not set(st) <= param_names:
            ift = True
        if ift is not None:
            opts["init_for_train"] = ift
        im = rng.random() < 0.6
        if im:
            opts["ignore_missing"] = True
        entries[key] = opts
        first = task == "train" and not main
        active = (ift == "always") or (ift is True and first) or (ift is None and task != "train")
        if active:
            loaded_by[key] = (st, [k for k in names if k.startswith(prefix)], im, ift)
    pattern = None
    if main and rng.random() < 0.3:
        pattern = rng.choice(sorted(spec)) + ".*"
        entries["m_rand"] = {"filename": None, "pattern": pattern}
        if task == "train":
            entries["m_rand"]["init_for_train"] = "always"
    case.desc(spec=spec, rf=use_rf, task=task, main=sorted(main_state) if main else None, noncrit=noncrit,
              entries={k: {kk: vv for kk, vv in v.items() if kk != "filename"} for k, v in entries.items()}, have={k: sorted(v[0]) for k, v in loaded_by.items()}, pattern=pattern)
    # documented rule
    exp = {}
    if main:
        exp.update({k: v for k, v in main_state.items() if k in sd})
    for key in reversed(sorted(loaded_by)):
        exp.update(loaded_by[key][0])
    missing = set()
    if main:
        missing |= set(names) - set(exp)
        if pattern:
            missing = {k for k in missing if not k.startswith(pattern[:-1])}
    for st, scope, im, _ in loaded_by.values():
        if not im:
            m = set(scope) - set(exp)
            if pattern and m & {k for k in names if k.startswith(pattern[:-1])}:
                return case.trivial()  # not specified what counts more
            missing |= m
    missing -= set(noncrit)
    if task == "train" and not param_names - {k for st, _, _, ift in loaded_by.values() if ift == "always" for k in st}:
        return case.trivial()  # nothing left to train
    cfg = _base(case, d, get_model, task)
    cfg["preload_from_files"] = entries
    for n, v in list(exp.items()):
        case.require(v.dtype == sd[n].dtype, "harness")
    try:
        engine = _engine(cfg, _train_data(case) if task == "train" else None)
    except Exception as e:
        case.require(missing, "loading was refused although every parameter has a source", err=repr(e)[-900:])
        case.count("refused")
        return
    case.require(not missing, "parameters without a source stay randomly initialised without an error", missing=sorted(missing))
    _check_params(case, engine, {k: exp.get(k) for k in names}, "preload")
    if task == "train":
        case.equal(engine.global_train_step, 17 if main else 0, "global step after loading")
        always = set()
        for st, _, _, ift in loaded_by.values():
            if ift == "always":
                always |= set(st)
        trainable = {k for k, p in engine.get_pt_model().named_parameters()}
        case.require(not (trainable & always), "parameters with init_for_train always are trained", got=sorted(trainable & always))
        case.equal(sorted(param_names - always - trainable), [], "trainable parameters lost")
        stored = set(engine.get_pt_model().state_dict())
        case.require(not (stored & always), "parameters with init_for_train always are in the own checkpoint")
    case.count("preloads", len(loaded_by))


def k_select(case):
    """which checkpoint is used"""
    import torch

    rng = case.rng
    d = case.tmpdir()
    os.makedirs(f"{d}/net")
    spec = {"a": "lin", "b": "param"}

    def get_model(**_kw):
        return _torch_model(spec)

    sd, _ = _pt_sd(get_model)
    gen = _Gen(case)
    task = rng.choice(["train", "forward", "forward", "eval"])
    files = {}
    for e in rng.sample(range(1, 9), rng.randint(0, 4)):
        st = _state(case, gen, sd)
        step = rng.randint(1, 500)
        torch.save({"model": st, "epoch": e, "step": step}, f"{d}/net/epoch.%03d.pt" % e)
        opt = rng.random() < 0.7
        if opt:
            _save_opt(f"{d}/net/epoch.%03d.opt.pt" % e, get_model)
        files[e] = (st, step, opt)
    for junk in ["epoch.003.pt.tmp_write", "epoch.004.pt.bak", "other.005.pt", "epoch.5.pt", "epoch.010.pt"]:
        if rng.random() < 0.3:
            with open(f"{d}/net/{junk}", "wb") as f:
                f.write(b"junk")
    cfg = _base(case, d, get_model, task)
    ext_st = _state(case, gen, sd)
    ext_epoch, ext_step = 40, 900
    ext = f"{d}/ext/net.040"
    os.makedirs(f"{d}/ext")
    torch.save({"model": ext_st, "epoch": ext_epoch, "step": ext_step}, ext + ".pt")
    how = rng.choice(["none", "none", "load", "load_epoch", "import", "link"])
    if how in ("load", "link"):
        if how == "link":
            os.symlink("net.040.pt", f"{d}/ext/best.pt")
            cfg["load"] = f"{d}/ext/best" + rng.choice(["", ".pt"])
        else:
            cfg["load"] = ext + rng.choice(["", ".pt"])
    elif how == "load_epoch":
        if not files:
            return case.trivial()
        cfg["load_epoch"] = rng.choice(sorted(files))
    elif how == "import":
        cfg["import_model_train_epoch1"] = ext + rng.choice(["", ".pt"])
    if task == "train" and how in ("load", "link", "load_epoch"):
        how = "none"
        cfg.pop("load", None)
        cfg.pop("load_epoch", None)
    case.desc(task=task, files={e: v[2] for e, v in files.items()}, how=how, load_epoch=cfg.get("load_epoch"))
    use, epoch, step = None, None, None
    if task == "train":
        ok = [e for e, v in files.items() if v[2]]
        if ok:
            epoch = max(ok)
            use, step = files[epoch][0], files[epoch][1]
        elif how == "import":
            use, epoch, step = ext_st, 0, None
    else:
        if how in ("load", "link"):
            use, epoch, step = ext_st, ext_epoch, ext_step
        elif how == "load_epoch":
            epoch = cfg["load_epoch"]
            use, step = files[epoch][0], files[epoch][1]
        elif files:
            epoch = max(files)
            use, step = files[epoch][0], files[epoch][1]
    if use is None and task != "train":
        return case.trivial()
    engine = _engine(cfg, _train_data(case) if task == "train" else None)
    if use is None:
        # fresh initialisation: no value of any file
        for k, v in engine.get_pt_model().named_parameters():
            for st in [ext_st] + [f[0] for f in files.values()]:
                case.require(not torch.equal(v.detach(), st[k]), "a new training starts with parameters of an unrelated file", name=k)
            case.count("params_checked")
        case.count("loads")
        case.equal(engine.global_train_step, 0, "global step of a new training")
    else:
        _check_params(case, engine, use, "selected checkpoint")
        if task == "train":
            case.equal(engine.get_train_start_epoch(engine.config), epoch + 1, "epoch the training continues with")
            if step is not None:
                case.equal(engine.global_train_step, step, "global train step continued")
        else:
            case.equal(engine.epoch, epoch, "epoch of the loaded model")


def k_average(case):
    import runpy
    import sys
    import torch

    rng = case.rng
    d = case.tmpdir()
    spec = _spec(rng)
    base = _torch_model(spec)
    sd = {k: v.detach().clone() for k, v in base.state_dict().items()}
    tied = None
    names = sorted(sd)
    n = rng.randint(1, 4)
    g = torch.Generator().manual_seed(case.index)
    fns, states = [], []
    dtype = rng.choice([torch.float32, torch.float64])
    tie = rng.random() < 0.4 and [k for k in names if sd[k].is_floating_point()]
    for i in range(n):
        st = {k: (torch.randn(v.shape, generator=g, dtype=dtype) if v.is_floating_point() else torch.randint(1, 50, v.shape, generator=g)) for k, v in sd.items()}
        if tie:
            tied = tie[0]
            st["tied.weight"] = st[tied]  # shared storage as of tied parameters in a module
        extra = {"effective_learning_rate": 0.1 * (i + 1)} if rng.random() < 0.5 else {}
        fn = f"{d}/m.{i + 1:03d}.pt"
        torch.save({"model": st, "epoch": 10 + i, "step": 100 * (i + 1), **extra}, fn)
        fns.append(fn)
        states.append({k: v.clone() for k, v in st.items()})
    order = rng.sample(range(n), n)
    use_cli = rng.random() < 0.3
    out = f"{d}/out.pt"
    case.desc(spec=spec, n=n, dtype=str(dtype), tied=bool(tied), order=order, cli=use_cli)
    from vlib import core

    repo = os.environ.get("VERIF_REPO", "/repo")
    path = repo + "/tools/torch_avg_checkpoints.py"
    mod = runpy.run_path(path, run_name="avg_ckpt")
    before = {fn: open(fn, "rb").read() for fn in fns}
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        if use_cli:
            old = sys.argv
            style = rng.choice(["comma", "prefix"])
            if style == "comma":
                args = ["--checkpoints", ",".join(fns[i] for i in order)]
            else:
                args = ["--checkpoints", ",".join("%03d" % (i + 1) for i in order), "--prefix", f"{d}/m.", "--postfix", ".pt"]
            sys.argv = [path] + args + ["--output_path", out]
            try:
                mod["main"]()
            finally:
                sys.argv = old
        else:
            mod["merge_checkpoints"]([fns[i] for i in order], out)
    res = torch.load(out)
    case.equal(sorted(res["model"]), sorted(states[0]), "averaged checkpoint: parameters")
    for k in states[0]:
        exp = sum(s[k].to(torch.float64) for s in states) / n
        got = res["model"][k].to(torch.float64)
        case.require(torch.allclose(got, exp, rtol=1e-5, atol=1e-6), f"averaged parameter {k} is not the average", got=got.reshape(-1)[:3].tolist(), exp=exp.reshape(-1)[:3].tolist())
        if states[0][k].is_floating_point():
            case.equal(res["model"][k].dtype, dtype, "dtype of averaged parameter")
        case.count("averaged")
    case.equal(res["epoch"], 10 + n - 1, "epoch of the averaged checkpoint")
    case.equal(res["step"], 100 * n, "step of the averaged checkpoint")
    case.equal(res["merged_epochs"], [10 + i for i in order], "merged_epochs")
    for fn in fns:
        case.require(open(fn, "rb").read() == before[fn], "averaging changed an input file")
    case.count("params_checked", len(states[0]))


KINDS = {
    "preload": {"func": k_preload, "quick": 240, "thorough": 5000},
    "select": {"func": k_select, "quick": 80, "thorough": 1500},
    "average": {"func": k_average, "quick": 60, "thorough": 1000},
}
