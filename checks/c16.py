"""C16: the Updater applies exactly the configured update to every trainable parameter, also after save/load of the optimizer."""
import copy
from vlib import eng

RULE = (
    "case = random PyTorch/RF module tree (nested, shared parameters, norm/embedding layers, frozen parameters), random optimizer config (class, weight decay with "
    "blacklist / include check / custom groups, learning rate multiplier), gradient clipping, learning rate changes per step; random gradients over several steps; "
    "parameters compared with an independent plain-torch.optim model of the same update; optimizer state saved, reloaded into a rebuilt, reordered or "
    "extended module, and continued. Non-trivial: at least one parameter changed."
)
ASSUMPTIONS = ["torch.optim itself is right"]
MIN_COUNTS = {"steps": 1000, "params_compared": 5000, "opt_reloads": 100}
BUDGET = {"quick": 240, "thorough": 900}


def worker_init():
    eng.torch_init()


def _gen_mod(rng):
    import torch

    class Scale(torch.nn.Module):
        def __init__(self, d):
            super().__init__()
            self.scale = torch.nn.Parameter(torch.randn(d))
            self.my_bias = torch.nn.Parameter(torch.randn(d))

    def mk(depth):
        k = rng.choice(["lin", "lin", "ln", "emb", "bn", "lstm", "scale", "conv", "seq", "seq"])
        if k == "seq" and depth > 0:
            return ("seq", [mk(depth - 1) for _ in range(rng.randint(1, 3))])
        return (k if k != "seq" else "lin", rng.randint(2, 4), rng.random() < 0.7)

    spec = [mk(2) for _ in range(rng.randint(1, 4))]

    def build(s):
        if s[0] == "seq":
            return torch.nn.Sequential(*[build(x) for x in s[1]])
        k, d, b = s
        return {
            "lin": lambda: torch.nn.Linear(d, 3, bias=b), "ln": lambda: torch.nn.LayerNorm(d), "emb": lambda: torch.nn.Embedding(5, d),
            "bn": lambda: torch.nn.BatchNorm1d(d), "lstm": lambda: torch.nn.LSTM(d, 2), "scale": lambda: Scale(d), "conv": lambda: torch.nn.Conv1d(d, 2, 1, bias=b),
        }[k]()

    shared = rng.random() < 0.3
    root_param = rng.random() < 0.3
    frozen = rng.random() < 0.3

    class Net(torch.nn.Module):
        def __init__(self, order=None):
            super().__init__()
            mods = [build(s) for s in spec]
            for i in order or range(len(mods)):
                setattr(self, "m%i" % i, mods[i])
            if shared:
                self.again = self.m0
            if root_param:
                self.top = torch.nn.Parameter(torch.randn(3))
            if frozen:
                self.frozen = torch.nn.Parameter(torch.randn(2), requires_grad=False)

    tied = rng.choice([(), (), ("weight",), ("bias",), ("weight", "bias")])
    if tied:
        base = Net

        class Net(base):
            def __init__(self, order=None):
                super().__init__(order)
                self.tied_a, self.tied_b = torch.nn.Linear(2, 2), torch.nn.Linear(2, 2)
                for k in tied:
                    setattr(self.tied_b, k, getattr(self.tied_a, k))

    return Net, dict(spec=spec, tied=tied, shared=shared, root=root_param, frozen=frozen), len(spec)


class Include:
    """weight_decay_custom_include_check; picklable, as functions of a config are"""

    def __init__(self, mode):
        self.mode = mode

    def __call__(self, *, module, rf_module, full_param_name, param, **_kw):
        import torch

        if self.mode == "full":
            if full_param_name.startswith("m0."):
                return full_param_name.endswith("weight")
            return None
        if self.mode == "shape":
            return {1: None, 2: True, 3: False}.get(param.ndim)
        return False if isinstance(module, torch.nn.Linear) else None


def _gen_opt(rng):
    base = rng.choice([
        {"class": "sgd"}, {"class": "sgd", "momentum": 0.9}, {"class": "SGD", "momentum": 0.5, "nesterov": True}, {"class": "adam"},
        {"class": "adamw"}, {"class": "AdamW", "betas": (0.8, 0.9)}, {"class": "rmsprop"}, {"class": "nadam"}, {"class": "radam"}, {"class": "adagrad"},
        {"class": "torch.optim.Adam"}, {"class": "Rprop"},
    ])
    o = dict(base)
    if rng.random() < 0.4 and "sgd" not in o["class"].lower() and o["class"] != "Rprop":
        o[rng.choice(["epsilon", "eps"])] = 1e-3
    if rng.random() < 0.65 and o["class"] != "Rprop":
        o["weight_decay"] = rng.choice([0.1, 0.3])
    if rng.random() < 0.25:
        o["learning_rate_multiplier"] = rng.choice([0.5, 3.0])
    return o


def _cls(name):
    import torch

    n = name.split(".")[-1].lower()
    return {c.__name__.lower(): c for c in [torch.optim.SGD, torch.optim.Adam, torch.optim.AdamW, torch.optim.RMSprop, torch.optim.NAdam, torch.optim.RAdam,
                                            torch.optim.Adagrad, torch.optim.Rprop]}[n]


class Fixture:
    def __init__(self, case):
        import torch
        from returnn.config import Config

        rng = case.rng
        torch.manual_seed(rng.randrange(10**6))
        self.rng = rng
        self.Net, mdesc, self.n = _gen_mod(rng)
        self.opt = _gen_opt(rng)
        wd = self.opt.get("weight_decay", 0.0)
        self.blacklist = None
        self.include = None
        self.custom_groups = False
        opts = dict(self.opt)
        if wd:
            if rng.random() < 0.4:
                self.blacklist = rng.choice([["torch.nn.BatchNorm1d"], [torch.nn.Linear, "torch.nn.LayerNorm"], [], ["torch.nn.LSTM", torch.nn.Conv1d]])
                opts["weight_decay_modules_blacklist"] = self.blacklist
            if rng.random() < 0.35:
                mode = rng.choice(["full", "shape", "module"])

                include = Include(mode)
                self.include = include
                opts["weight_decay_custom_include_check"] = include
        if rng.random() < 0.15:
            self.custom_groups = True

            def groups(*, model, **_kw):
                ps = list(model.parameters())
                res = [{"params": ps[::2], "weight_decay": 0.2}]
                if ps[1::2]:
                    res.append({"params": ps[1::2]})
                return res

            for k in ("weight_decay_modules_blacklist", "weight_decay_custom_include_check"):
                opts.pop(k, None)
            self.include = self.blacklist = None
            if self.opt["class"] == "Rprop":
                self.opt["class"] = opts["class"] = "adam"
            opts["param_groups_custom"] = groups
            self.groups = groups
        self.cfg = {"optimizer": opts}
        self.clip = rng.choice([0.0, 0.0, 0.3])
        self.clip_norm = rng.choice([0.0, 0.0, 0.5, 100.0])
        if self.clip:
            self.cfg["gradient_clip"] = self.clip
        if self.clip_norm:
            self.cfg["gradient_clip_global_norm"] = self.clip_norm
        self.dyn = rng.random() < 0.5
        if self.dyn:
            self.cfg["dynamic_learning_rate"] = lambda *, global_train_step, epoch, epoch_continuous, learning_rate, **_kw: (
                learning_rate * (1 + 0.1 * global_train_step) + 0.01 * epoch + (0.0 if epoch_continuous is None else 0.001 * epoch_continuous)
            )
        self.config = Config(self.cfg)
        case.desc(m=mdesc, opt={k: str(v) for k, v in self.opt.items()}, bl=str(self.blacklist), inc=bool(self.include), groups=self.custom_groups, clip=self.clip, norm=self.clip_norm, dyn=self.dyn)

    def wd_of(self, net):
        """:return: name -> weight decay"""
        import torch

        wd = self.opt.get("weight_decay", 0.0)
        bl = (torch.nn.LayerNorm, torch.nn.Embedding) if self.blacklist is None else tuple(
            getattr(torch.nn, m.split(".")[-1]) if isinstance(m, str) else m for m in self.blacklist
        )
        res = {}
        ids = {}
        for mn, mod in net.named_modules():
            for pn, p in mod.named_parameters(recurse=False):
                if id(p) in ids:
                    continue
                full = f"{mn}.{pn}" if mn else pn
                ids[id(p)] = full
                v = self.include(module=mod, rf_module=None, full_param_name=full, param=p) if self.include else None
                if v is None:
                    v = not (pn.endswith("bias") or isinstance(mod, bl))
                res[full] = wd if v else 0.0
        return res

    def ref_opt(self, net, lr):
        o = {k: v for k, v in self.opt.items() if k not in ("class", "learning_rate_multiplier")}
        if "epsilon" in o:
            o["eps"] = o.pop("epsilon")
        cls = _cls(self.opt["class"])
        o["lr"] = lr
        if self.custom_groups:
            return cls(self.groups(model=net), **o)
        named = dict(net.named_parameters())
        if o.get("weight_decay"):
            wd = self.wd_of(net)
            return cls([{"params": [named[n]], "weight_decay": wd[n]} for n in named], **o)
        return cls(list(named.values()), **o)

    def updater(self, net, lr):
        from returnn.torch.updater import Updater

        u = Updater(config=self.config, network=net, device="cpu", initial_learning_rate=lr)
        u.create_optimizer()
        return u


def _ref_lr(f, u_lr, step, epoch, cont):
    lr = u_lr
    if f.dyn:
        lr = u_lr * (1 + 0.1 * step) + 0.01 * epoch + (0.0 if cont is None else 0.001 * cont)
    return lr * f.opt.get("learning_rate_multiplier", 1.0)


def _set_grads(f, net, ref):
    import torch

    skip = f.rng.random() < 0.2
    first = True
    for (n, p), (n2, q) in zip(net.named_parameters(), ref.named_parameters()):
        assert n == n2
        if not p.requires_grad or (skip and not first and f.rng.random() < 0.3):
            p.grad = q.grad = None
            continue
        first = False
        g = torch.randn_like(p) * f.rng.choice([0.01, 1.0, 5.0])
        p.grad, q.grad = g.clone(), g.clone()


def _ref_clip(f, ref):
    import torch

    gs = [p.grad for p in ref.parameters() if p.grad is not None]
    if f.clip:
        for g in gs:
            g.clamp_(-f.clip, f.clip)
    if f.clip_norm and gs:
        norm = torch.sqrt(sum((g.double() ** 2).sum() for g in gs)).item()
        if norm > f.clip_norm:
            for g in gs:
                g.mul_(f.clip_norm / (norm + 1e-6))


def _compare(case, net, ref, what):
    import torch

    for (n, p), (_, q) in zip(net.named_parameters(), ref.named_parameters()):
        case.count("params_compared")
        case.require(torch.allclose(p, q, rtol=1e-4, atol=1e-5), f"{what}: parameter {n} differs from the configured update", got=p.flatten()[:4].tolist(), expected=q.flatten()[:4].tolist())


def update(case):
    f = Fixture(case)
    rng = case.rng
    net = f.Net()
    ref = copy.deepcopy(net)
    lr = 0.1
    u = f.updater(net, lr)
    groups = u.get_optimizer().param_groups
    ids = [id(p) for g in groups for p in g["params"]]
    case.equal(sorted(ids), sorted(id(p) for p in net.parameters()), "every parameter is in exactly one optimizer group")
    names = {id(p): n for n, p in net.named_parameters()}
    if not f.custom_groups and f.opt.get("weight_decay"):
        got = {names[id(p)]: g.get("weight_decay", 0.0) for g in groups for p in g["params"]}
        case.equal(got, f.wd_of(net), "weight decay per parameter")
    ropt = f.ref_opt(ref, lr)
    step = rng.choice([0, 0, 17])
    for ep in range(1, rng.randint(2, 4)):
        lr = lr * rng.choice([1.0, 0.5])
        u.set_learning_rate(lr)
        for k in range(rng.randint(1, 4)):
            cont = rng.choice([None, ep - 1 + k / 10.0])
            u.set_current_train_step(global_train_step=step, epoch=ep, epoch_continuous=cont)
            eff = _ref_lr(f, lr, step, ep, cont)
            mult = f.opt.get("learning_rate_multiplier", 1.0)
            got = u.get_effective_learning_rate()
            case.require(abs(got - eff / mult) < 1e-9 or abs(got - eff) < 1e-9, "effective learning rate", got=got, expected=eff)
            for g in ropt.param_groups:
                g["lr"] = eff
            _set_grads(f, net, ref)
            _ref_clip(f, ref)
            u.step()
            ropt.step()
            case.count("steps")
            _compare(case, net, ref, f"step {step} of epoch {ep}")
            step += 1


def reload(case):
    import torch

    f = Fixture(case)
    f.custom_groups = False
    f.cfg["optimizer"].pop("param_groups_custom", None)
    rng = case.rng
    net = f.Net()
    u = f.updater(net, 0.1)
    ref = copy.deepcopy(net)
    uref = f.updater(ref, 0.1)
    for s in range(rng.randint(1, 3)):
        for x in (u, uref):
            x.set_learning_rate(0.1 / (s + 1))
            x.set_current_train_step(global_train_step=s, epoch=1)
        _set_grads(f, net, ref)
        u.step(), uref.step()
    fn = f"{case.tmpdir()}/sub/opt.pt"
    u.save_optimizer(fn)
    order = list(range(f.n))
    rng.shuffle(order)
    mode = rng.choice(["same", "reorder", "extra_frozen", "removed"])
    case.desc(mode=mode, order=order)
    net2 = f.Net(order=order if mode != "same" else None)
    removed = None
    if mode == "extra_frozen":
        for k in ["a_extra", "zz_extra"]:
            setattr(net2, k, torch.nn.Parameter(torch.randn(4), requires_grad=False))
    if mode == "removed" and f.n >= 2 and not hasattr(net2, "again"):
        removed = "m%i" % rng.randrange(f.n)
        delattr(net2, removed)
    src = dict(net.named_parameters())
    with torch.no_grad():
        for n, p in net2.named_parameters():
            # shared modules: the first name under which a parameter is listed may differ
            if n in src:
                p.copy_(src[n])
    if hasattr(net2, "again") and mode != "same" and order[0] != 0:
        # parameter names differ only if the alias comes first; it is always set last, so names agree
        pass
    u2 = f.updater(net2, 0.1)
    u2.load_optimizer(fn)
    case.count("opt_reloads")
    ids = {n: p for n, p in net2.named_parameters()}
    st = u2.get_optimizer().state
    st_ref = uref.get_optimizer().state
    ref_named = dict(ref.named_parameters())
    for n, p in ids.items():
        if n not in ref_named:
            continue
        a, b = st.get(p, {}), st_ref.get(ref_named[n], {})
        d = eng.diff(eng.opt_state(dict(a)), eng.opt_state(dict(b)))
        case.require(d is None, f"optimizer state of {n} after loading ({mode})", diff=d)
    # continue. global norm clipping depends on all params, so all get the same grads
    for s in range(2):
        for x in (u2, uref):
            x.set_learning_rate(0.05)
            x.set_current_train_step(global_train_step=10 + s, epoch=2)
        for n, q in ref_named.items():
            q.grad = torch.randn_like(q) if q.requires_grad and (n in ids) else None
            if n in ids:
                ids[n].grad = q.grad.clone() if q.grad is not None else None
        u2.step(), uref.step()
        case.count("steps")
        for n, p in ids.items():
            if n in ref_named:
                case.count("params_compared")
                case.require(torch.allclose(p, ref_named[n], rtol=1e-5, atol=1e-6), f"continued training ({mode}): parameter {n} differs")


def noise(case):
    import torch
    from returnn.config import Config
    from returnn.torch.updater import Updater

    rng = case.rng
    torch.manual_seed(rng.randrange(10**6))
    std = rng.choice([0.01, 0.5])
    clip = rng.choice([None, 0.1])
    net = torch.nn.Linear(40, 50)
    net.frozen = torch.nn.Parameter(torch.zeros(3), requires_grad=False)
    cfg = {"optimizer": {"class": "sgd"}, "gradient_noise": std}
    if clip:
        cfg["gradient_clip"] = clip
    case.desc(std=std, clip=clip)
    u = Updater(config=Config(cfg), network=net, device="cpu", initial_learning_rate=1.0)
    u.create_optimizer()
    u.set_current_train_step(global_train_step=0, epoch=1)
    before = {n: p.detach().clone() for n, p in net.named_parameters()}
    for p in (net.weight, net.bias):
        p.grad = torch.zeros_like(p)
    u.step()
    delta = (before["weight"] - net.weight.detach()).flatten()
    lim = min(2 * std, clip or 1e9)
    case.require(float(delta.abs().max()) <= lim * (1 + 1e-4), "gradient noise exceeds its truncation / the clipping", got=float(delta.abs().max()), limit=lim)
    case.require(bool((delta != 0).float().mean() > 0.95), "no noise on the gradients")
    case.require(abs(float(delta.mean())) < 0.1 * std, "gradient noise is not centered", mean=float(delta.mean()))
    if lim >= 2 * std:
        case.require(0.75 * std < float(delta.std()) < 1.0 * std, "gradient noise scale", got=float(delta.std()), std=std)
    case.require(bool((before["bias"] != net.bias).all()), "no noise on the bias gradient")
    case.require(bool((net.frozen == 0).all()), "frozen parameter changed")
    case.count("steps")


def groups_rf(case):
    """RF modules: weight decay decisions by the RF module type"""
    import returnn.frontend as rf
    from returnn.tensor import Dim
    from returnn.config import Config
    from returnn.torch.updater import Updater
    from returnn.torch.frontend.bridge import rf_module_to_pt_module

    rng = case.rng
    a, b = Dim(3, name="a"), Dim(4, name="b")
    spec = [rng.choice(["lin", "ln", "emb", "bn", "lstm"]) for _ in range(rng.randint(2, 5))]

    class Net(rf.Module):
        def __init__(self):
            super().__init__()
            self.ls = rf.ModuleList([
                {"lin": lambda: rf.Linear(a, b), "ln": lambda: rf.LayerNorm(a), "emb": lambda: rf.Embedding(a, b), "bn": lambda: rf.BatchNorm(a, use_mask=False), "lstm": lambda: rf.LSTM(a, b)}[k]()
                for k in spec
            ])
            self.sub = rf.Linear(b, b)
            self.p = rf.Parameter([b])

    net = Net()
    pt = rf_module_to_pt_module(net)
    bl = rng.choice([["rf.Embedding", "rf.LayerNorm"], [rf.Linear], ["rf.LSTM", rf.BatchNorm], []])
    blt = tuple(getattr(rf, m[3:]) if isinstance(m, str) else m for m in bl)
    case.desc(spec=spec, bl=str(bl))
    u = Updater(config=Config({"optimizer": {"class": "adamw", "weight_decay": 0.25, "weight_decay_modules_blacklist": bl}}), network=pt, device="cpu", initial_learning_rate=0.1)
    u.create_optimizer()
    names = {id(p): n for n, p in pt.named_parameters()}
    got = {names[id(p)]: g["weight_decay"] for g in u.get_optimizer().param_groups for p in g["params"]}
    exp = {}
    for mod_name, mod in net.named_modules():
        for pn, p in mod.named_parameters(recurse=False):
            full = f"{mod_name}.{pn}" if mod_name else pn
            if full in names.values():
                exp[full] = 0.0 if pn.endswith("bias") or isinstance(mod, blt) else 0.25
    case.count("params_compared", len(exp))
    case.equal(got, exp, "weight decay per RF parameter")


KINDS = {
    "update": {"func": update, "quick": 300, "thorough": 10000},
    "reload": {"func": reload, "quick": 200, "thorough": 6000},
    "noise": {"func": noise, "quick": 10, "thorough": 100},
    "groups_rf": {"func": groups_rf, "quick": 60, "thorough": 1500},
}
