"""C40: gradient checkpointing, scaled / stopped gradients, weight noise and dropout: exactly the specified gradient."""
import contextlib
import gc
import threading
import numpy

RULE = (
    "kind ckpt: random PyTorch programs (elementwise, matmul, views, in-place, multi-output, random ops, autocast regions, detach) split in blocks, some of them inside (nested, overlapping in lifetime, left by an exception) gradient_checkpoint_scope, mixed with other saved_tensors_hooks users, "
    "explicit deletions of tensors in random order, several backward passes, several threads; the same program without any scope and with the same seed is the oracle for outputs, gradients and the state of the random generator. "
    "Also observed: storages of deleted scope tensors are released before the backward pass; afterwards saved_tensors_hooks work as before. kind rf: rf.scaled_gradient(_ext), stop_gradient(_scope), gradient, weight_noise and weight_dropout against their definition. Distinct by program."
)
ASSUMPTIONS = ["inputs of a scope are not modified in place between the forward and the backward pass (same restriction as torch.utils.checkpoint)", "CPU, PyTorch backend, float64 (bfloat16 in autocast regions)", "no in-place modification, inside a scope, of tensors created outside of it"]
MIN_COUNTS = {"scopes": 200, "grads": 500, "random_in_scope": 40, "storages_released": 20, "foreign_hooks": 40, "exceptions": 10, "inplace": 30, "nested": 20, "threads": 6, "rf_grads": 100, "parametrized": 15}
BUDGET = {"quick": 200, "thorough": 1200}


def worker_init():
    import torch

    torch.set_num_threads(1)
    from vlib import rfseq

    rfseq.init()


class Boom(Exception):
    pass


def gen_steps(rng, names, n, fresh, rand_ok, own):
    """:return: list of (op, out names, in names, opt). All tensors have shape (3, 4). own: names created in the current block"""
    steps = []
    for _ in range(n):
        op = rng.choice(["add", "mul", "tanh", "sin", "mulc", "mm", "softmax", "dropout", "noise", "inplace", "split", "view", "detach", "max", "cumsum", "sigmoid", "reuse", "where", "layernorm", "selfmul", "autocast", "randperm", "setitem"])
        if op in ("dropout", "noise", "randperm") and not rand_ok:
            op = "mul"
        a, b = rng.choice(names), rng.choice(names)
        if op in ("inplace", "setitem"):
            if not own:
                continue
            a = rng.choice(own)
            steps.append((op, [a], [a], rng.choice(["add_", "mul_"])))
            continue
        out = "t%i" % next(fresh)
        steps.append((op, [out], [a, b], rng.randrange(1 << 20)))
        names.append(out)
        own.append(out)
    return steps


def exec_step(torch, env, st, W):
    op, (out,), ins, opt = st
    F = torch.nn.functional
    a = env[ins[0]]
    b = env[ins[1]] if len(ins) > 1 else None
    if op == "add":
        r = a + 0.5 * b
    elif op == "mul":
        r = a * b
    elif op == "tanh":
        r = a.tanh()
    elif op == "sin":
        r = (a + b).sin()
    elif op == "mulc":
        r = a * 0.7 + 0.1
    elif op == "mm":
        r = (a @ W) * 0.5
    elif op == "softmax":
        r = F.softmax(a, -1)
    elif op == "dropout":
        r = F.dropout(a, 0.4, training=True)
    elif op == "noise":
        r = a + torch.randn(a.shape, dtype=a.dtype) * b
    elif op == "randperm":
        r = a[:, torch.randperm(4)] * b
    elif op == "inplace":
        # via a clone, so that the clone is what is modified
        x = a * 1.0
        getattr(x, opt)(0.25)
        r = x * x
    elif op == "setitem":
        x = a.sin()
        x[:, 1:3] = 0.5
        r = x * a.cos()
    elif op == "split":
        p, q = a.split([1, 3], dim=1)
        r = torch.cat([q.sin(), p.cos()], 1) * b
    elif op == "view":
        r = (a.reshape(4, 3).t().contiguous().exp() * 0.1).view(3, 4) * b.t().reshape(3, 4)
    elif op == "detach":
        r = a.detach() * b
    elif op == "max":
        v, i = a.max(dim=1, keepdim=True)
        r = v * b + a.gather(1, i)
    elif op == "cumsum":
        r = a.cumsum(1) * 0.3
    elif op == "sigmoid":
        r = torch.sigmoid(a) * b
    elif op == "reuse":
        r = a * a * a * 0.1 + b
    elif op == "where":
        r = torch.where(a > 0, a * b, b.sin())
    elif op == "layernorm":
        r = F.layer_norm(a, (4,))
    elif op == "selfmul":
        r = torch.einsum("ij,ik->ijk", a, b).sum(2) * 0.2
    elif op == "autocast":
        with torch.autocast("cpu", dtype=torch.bfloat16):
            r = ((a.float() @ W.float()) * 0.1).to(a.dtype) + b
    else:
        raise NotImplementedError(op)
    env[out] = r


def make_program(rng, rand_ok=True):
    import itertools

    fresh = itertools.count()
    names = ["p0", "p1", "x0"]
    blocks = []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 5])):
        kind = rng.choice(["plain", "ckpt", "ckpt", "ckpt", "nested"])
        own = []
        blk = {"kind": kind, "steps": gen_steps(rng, names, rng.randint(1, 5), fresh, rand_ok, own)}
        if kind == "nested":
            blk["inner"] = gen_steps(rng, names, rng.randint(1, 3), fresh, rand_ok, own)
            blk["steps2"] = gen_steps(rng, names, rng.randint(0, 2), fresh, rand_ok, own)
        if kind == "ckpt" and rng.random() < 0.15:
            blk["raise"] = True
        blk["hook"] = kind == "plain" and rng.random() < 0.5  # other saved_tensors_hooks, used while tensors of a scope are alive
        dead = [n for n in own if rng.random() < 0.4]
        for n in dead:
            names.remove(n)
        blk["del"] = dead
        if own and rng.random() < 0.15 and kind == "ckpt":
            alive = [n for n in own if n not in dead]
            if alive:
                blk["inplace_after"] = rng.choice(alive)
        blocks.append(blk)
    outs = [n for n in names if n.startswith("t")]
    if not outs:
        return None
    losses = [rng.sample(outs, rng.randint(1, len(outs))) for _ in range(rng.randint(1, 2))]
    return {"blocks": blocks, "losses": losses, "retain": rng.random() < 0.3, "rand_between": rand_ok and rng.random() < 0.5}


def run_program(torch, prog, vals, seed, ckpt, case=None, weak=None):
    """:return: outputs, grads, rng state"""
    from returnn.torch.util.gradient_checkpoint import gradient_checkpoint_scope

    scope = gradient_checkpoint_scope if ckpt else contextlib.nullcontext
    if seed is not None:
        torch.manual_seed(seed)
    env = {k: torch.tensor(v, dtype=torch.float64) for k, v in vals.items()}
    params = [env["p0"].requires_grad_(), env["p1"].requires_grad_()]
    W = env.pop("W").requires_grad_()
    params.append(W)
    packed = [0, 0]

    def pack(x):
        packed[0] += 1
        return x

    def unpack(x):
        packed[1] += 1
        return x

    weak_refs = []
    cnt = lambda k: case.count(k) if case is not None and ckpt else None
    for blk in prog["blocks"]:
        foreign = contextlib.nullcontext()
        if blk["hook"]:
            foreign = torch.autograd.graph.saved_tensors_hooks(pack, unpack)
        try:
            with foreign if blk["kind"] == "plain" else scope():
                for st in blk["steps"]:
                    exec_step(torch, env, st, W)
                    if blk["kind"] != "plain":
                        if st[0] in ("dropout", "noise", "randperm"):
                            cnt("random_in_scope")
                        if st[0] in ("inplace", "setitem"):
                            cnt("inplace")
                if blk["kind"] == "nested":
                    with scope():
                        for st in blk["inner"]:
                            exec_step(torch, env, st, W)
                    for st in blk["steps2"]:
                        exec_step(torch, env, st, W)
                    cnt("nested")
                if blk.get("raise"):
                    raise Boom
        except Boom:
            cnt("exceptions")
        if blk["kind"] != "plain":
            cnt("scopes")
        if blk["hook"]:
            cnt("foreign_hooks")
        n = blk.get("inplace_after")
        if n:
            env[n].mul_(0.5)
            env[n + "_m"] = env[n] * env["p0"]
            cnt("inplace_after")
        for n in blk["del"]:
            if blk["kind"] != "plain" and weak is not None and env[n].grad_fn is not None:
                from torch.multiprocessing.reductions import StorageWeakRef

                if not any(env[n].untyped_storage().data_ptr() == v.untyped_storage().data_ptr() for k, v in env.items() if k != n):
                    weak_refs.append((n, StorageWeakRef(env[n].untyped_storage())))
            del env[n]
    if weak is not None:
        weak.extend((n, w.expired()) for n, w in weak_refs)
        del weak_refs
    if prog["rand_between"]:
        torch.rand(3)
    outs = {k: v.detach().clone() for k, v in env.items() if k.startswith("t")}
    grads = []
    ls = []
    for i, names in enumerate(prog["losses"]):
        l = sum(((i + 1.5) * env[n]).sin().sum() for n in names)
        l = l + sum(env[b["inplace_after"] + "_m"].sum() for b in prog["blocks"] if b.get("inplace_after"))
        ls.append(l)
    env.clear()
    for i, l in enumerate(ls):
        if not l.requires_grad:
            grads.append(None)
            continue
        last = i == len(ls) - 1
        for rep in range(2 if prog["retain"] else 1):
            g = torch.autograd.grad(l, params, retain_graph=not last or (prog["retain"] and rep == 0), allow_unused=True)
            grads.append([None if x is None else x.clone() for x in g])
    del ls, l
    return outs, grads, torch.get_rng_state(), packed


def compare(case, torch, a, b, prog):
    case.equal(sorted(a[0]), sorted(b[0]), "tensors")
    for k in a[0]:
        case.require(torch.equal(a[0][k], b[0][k]), "forward value with gradient checkpointing", tensor=k, got=a[0][k].tolist(), expected=b[0][k].tolist(), prog=prog)
    case.equal(len(a[1]), len(b[1]), "number of gradients")
    for i, (g, e) in enumerate(zip(a[1], b[1])):
        if e is None:
            case.require(g is None, "loss without gradient")
            continue
        for j, (x, y) in enumerate(zip(g, e)):
            case.require((x is None) == (y is None), "gradient defined", backward=i, param=j, prog=prog)
            if x is None:
                continue
            case.require(torch.allclose(x, y, rtol=1e-9, atol=1e-11), "gradient with gradient checkpointing", backward=i, param=j, got=x.tolist(), expected=y.tolist(), prog=prog)
            case.count("grads")


def values(nprng):
    v = {k: nprng.randn(3, 4) for k in ("p0", "p1", "x0")}
    v["W"] = nprng.randn(4, 4) * 0.5
    return v


def check_hooks_clean(case, torch):
    """saved_tensors_hooks work as if nothing had happened"""
    gc.collect()
    seen = []
    x = torch.randn(3, dtype=torch.float64, requires_grad=True)
    with torch.autograd.graph.saved_tensors_hooks(lambda t: seen.append("p") or ("box", t), lambda b: seen.append("u") or b[1]):
        y = (x * x).sum()
    z = (x * x * x).sum()  # outside
    g, = torch.autograd.grad(y + z, [x])
    case.require(torch.allclose(g, 2 * x + 3 * x * x), "gradients of unrelated code afterwards")
    case.equal((seen.count("p") > 0, seen.count("p") == seen.count("u")), (True, True), "unrelated saved_tensors_hooks are used for exactly their tensors")
    case.count("foreign_hooks")


def isolated(case, func):
    """In a child process of its own: whatever a program leaves behind cannot influence another case."""
    import os, pickle, traceback
    from vlib import core

    r, w = os.pipe()
    case.counts.clear()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            msg = None
            try:
                func(case)
            except core.Violation as exc:
                msg = str(exc)
            except BaseException:
                msg = traceback.format_exc(limit=-6)
            with os.fdopen(w, "wb") as f:
                pickle.dump((msg, case.counts, case._desc, case._nontrivial), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    case.require(data, "process running the program was ended", status=status, desc=case._desc)
    msg, counts, desc, nontrivial = pickle.loads(data)
    case.counts.update(counts)
    case._desc, case._nontrivial = desc, nontrivial
    if msg:
        raise core.Violation(msg)


def ckpt(case):
    isolated(case, _ckpt)


def threads(case):
    isolated(case, _threads)


def _ckpt(case):
    import torch

    rng, nprng = case.rng, case.np_rng()
    prog = None
    while prog is None:
        prog = make_program(rng)
    vals, seed = values(nprng), rng.randrange(1 << 30)
    case.desc(prog=prog)
    try:
        ref = run_program(torch, prog, vals, seed, False)
    except RuntimeError as exc:
        if "inplace" not in str(exc):
            raise
        case.trivial()  # invalid program, also without any scope
        return
    weak = []
    got = run_program(torch, prog, vals, seed, True, case, weak)
    compare(case, torch, got, ref, prog)
    case.require(torch.equal(got[2], ref[2]), "state of the random generator after the backward pass", prog=prog)
    hooked = any(b["hook"] for b in prog["blocks"])
    for n, expired in weak:
        # a tensor saved under someone else's hooks may be kept by them
        # PyTorch applies only the innermost hooks: with several scopes, a tensor can be saved under the ones of another scope
        if not hooked and sum(b["kind"] != "plain" for b in prog["blocks"]) == 1 and not any(b.get("inplace_after") or b["kind"] == "nested" for b in prog["blocks"]):
            case.require(expired, "tensor created within a scope is not stored for the backward pass", tensor=n, prog=prog)
            case.count("storages_released")
    check_hooks_clean(case, torch)
    if not any(b["kind"] != "plain" for b in prog["blocks"]):
        case.trivial()


def _threads(case):
    """several threads at the same time, tensors also dropped in other threads"""
    import torch

    rng, nprng = case.rng, case.np_rng()
    jobs, refs = [], []
    num = rng.randint(2, 4)
    while len(jobs) < num:
        p = make_program(rng, rand_ok=False)
        if p:
            v = values(nprng)
            try:
                refs.append(run_program(torch, p, v, None, False))
            except RuntimeError as exc:
                if "inplace" not in str(exc):
                    raise
                continue
            jobs.append((p, v))
    case.desc(progs=[p for p, _ in jobs])
    res = [None] * len(jobs)
    bar = threading.Barrier(len(jobs))
    reps = 5
    keep = []

    def work(i):
        try:
            bar.wait(60)
            rs = []
            for _ in range(reps):
                rs.append(run_program(torch, jobs[i][0], jobs[i][1], None, True))
                # some graph which is dropped by the main thread
                from returnn.torch.util.gradient_checkpoint import gradient_checkpoint_scope

                a = torch.randn(4, requires_grad=True)
                with gradient_checkpoint_scope():
                    x = a.sin() * a
                keep.append(x * x)
                if len(keep) > 3:
                    keep.pop(0)
                del x
            res[i] = rs
        except BaseException as exc:
            res[i] = exc

    ths = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
    for t in ths:
        t.start()
    for t in ths:
        t.join(120)
        case.require(not t.is_alive(), "thread ends")
    keep.clear()
    for i, r in enumerate(res):
        if isinstance(r, BaseException):
            raise r
        for x in r:
            compare(case, torch, x, refs[i], jobs[i][0])
        case.count("threads")


def rf_grads(case):
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Tensor, Dim

    rng, nprng = case.rng, case.np_rng()
    bd, fd = Dim(rng.randint(1, 3), name="b"), Dim(rng.randint(1, 4), name="f")
    xv = nprng.randn(bd.dimension, fd.dimension)
    raw = torch.tensor(xv, requires_grad=True)
    x = rf.convert_to_tensor(raw, dims=[bd, fd])
    k = rng.choice(["scaled", "ext", "stop", "stop_scope", "gradient", "set_requires"])
    w = nprng.randn(bd.dimension, fd.dimension)
    wt = rf.convert_to_tensor(torch.tensor(w), dims=[bd, fd])
    d_out = None
    h = rf.sin(x) if rng.random() < 0.5 else x
    dh = numpy.cos(xv) if h is not x else numpy.ones_like(xv)
    hv = numpy.sin(xv) if h is not x else xv
    if k == "scaled":
        s = rng.choice([0.0, 0.5, -1.0, 2.0])
        tens = rng.random() < 0.3
        y = rf.scaled_gradient(h, rf.constant(s, dims=(), dtype="float64") if tens else s)
        d_out = w * s * dh
    elif k == "ext":
        s = rng.choice([1.0, 0.5, -1.0, 0.0])
        sh = rng.choice([None, 0.0, 0.3])
        ax = rng.choice([None, bd, fd]) if sh else None
        y = rf.scaled_gradient_ext(h, scale=s, shift=sh, scale_shift_by_sum_over_axis=ax)
        m = numpy.abs(w).sum(axis=0 if ax is bd else 1, keepdims=True) if ax is not None else 1.0
        d_out = (w * s + (sh or 0.0) * m) * dh
    elif k == "stop":
        y = rf.stop_gradient(h)
        d_out = None
    elif k == "stop_scope":
        with rf.stop_gradient_scope():
            q = h * 2.0
        y = q * h
        d_out = w * 2.0 * hv * dh
        hv = hv * 2.0 * hv
    elif k == "gradient":
        y = h * h
        d_out = w * 2 * hv * dh
        hv = hv * hv
    else:
        raw2 = torch.tensor(nprng.randn(bd.dimension, fd.dimension))
        z = rf.convert_to_tensor(raw2, dims=[bd, fd])
        rf.set_requires_gradient(z)
        y = z * h
        l = rf.reduce_sum(y * wt, axis=[bd, fd])
        g = rf.gradient(l, z)
        got = g.copy_compatible_to_dims_raw([bd, fd]).detach().numpy()
        case.desc(k=k)
        case.require(numpy.allclose(got, w * hv), "gradient w.r.t. a tensor set to require gradients", got=got.tolist(), expected=(w * hv).tolist())
        case.count("rf_grads")
        return
    case.desc(k=k, shape=xv.shape, d=None if d_out is None else numpy.round(d_out, 6).tolist())
    case.require(numpy.allclose(y.copy_compatible_to_dims_raw([bd, fd]).detach().numpy(), hv), "forward value unchanged", op=k)
    l = rf.reduce_sum(y * wt, axis=[bd, fd])
    if k == "stop" or (k == "scaled" and s == 0.0 and not tens):
        case.require(not l.raw_tensor.requires_grad or (torch.autograd.grad(l.raw_tensor, [raw], allow_unused=True)[0] is None), "no gradient behind stop_gradient", op=k)
    else:
        if k == "gradient" or rng.random() < 0.3:
            got = rf.gradient(l, x).copy_compatible_to_dims_raw([bd, fd]).detach().numpy()
        else:
            (g,) = torch.autograd.grad(l.raw_tensor, [raw])
            got = g.numpy()
        case.require(numpy.allclose(got, d_out, rtol=1e-7, atol=1e-9), "gradient", op=k, got=got.tolist(), expected=d_out.tolist())
    case.count("rf_grads")


def parametrized(case):
    """weight noise / dropout: in training the effective weight is transformed, the gradient is for the original parameter; eval: unchanged"""
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Dim

    rng, nprng = case.rng, case.np_rng()
    i, o = Dim(rng.randint(2, 5), name="in"), Dim(rng.randint(2, 5), name="out")
    b = Dim(rng.randint(1, 3), name="b")
    kind = rng.choice(["noise", "dropout", "custom"])
    train = rng.random() < 0.75
    steps = rng.randint(1, 3)
    case.desc(kind=kind, train=train, dims=(i.dimension, o.dimension, b.dimension), steps=steps)
    rf.init_forward_step_run_ctx() if not train else rf.init_train_step_run_ctx(train_flag=True)
    lin = rf.Linear(i, o)
    lin.weight.initial = rf.init.Glorot()
    std, p = 0.3, 0.4
    names0 = sorted(n for n, _ in lin.named_parameters())
    if kind == "noise":
        rf.weight_noise(lin, "weight", std=std)
    elif kind == "dropout":
        rf.weight_dropout(lin, "weight", drop_prob=p)
    else:
        rf.register_parametrization(lin, "weight", lambda w: w * 2.0)
    params = dict(lin.named_parameters())
    orig = [q for n, q in params.items() if "weight" in n]
    case.require(len(orig) == 1 and len(params) == len(names0), "parameters with a parametrization", got=sorted(params), expected=names0)
    w = orig[0]
    xs = [torch.tensor(nprng.randn(b.dimension, i.dimension)).to(w.raw_tensor.dtype) for _ in range(steps)]
    seed = rng.randrange(1 << 30)
    torch.manual_seed(seed)
    rf.set_random_seed(seed)
    loss, effs = 0.0, []
    for x in xs:
        y = lin(rf.convert_to_tensor(x, dims=[b, i]))
        yr = y.copy_compatible_to_dims_raw([b, o])
        loss = loss + (yr * yr).sum()
        effs.append(yr)
    w_dims = list(w.dims)
    wr = w.raw_tensor
    w0 = wr.detach().clone()
    bias = lin.bias.raw_tensor
    ti = w_dims.index(i)
    # effective weights from the outputs: probe with the identity would use another random draw, so solve via autograd below
    g, gb = torch.autograd.grad(loss, [wr, bias])
    case.require(torch.equal(wr, w0), "the parameter itself is not changed by its parametrization")
    # The loss is sum_t |x_t W_t + b|^2 with W_t = f_t(W): dloss/dW = f_t'(W) * x_t^T 2 y_t
    W = w0 if ti == 0 else w0.t()
    G = g if ti == 0 else g.t()
    if not train or kind == "custom":
        f = 2.0 if kind == "custom" else 1.0
        exp = sum(f * 2 * x.t() @ (x @ (W * f) + bias) for x in xs).detach()
        for x, y in zip(xs, effs):
            case.require(torch.allclose(y, x @ (W * f) + bias, atol=1e-5), "output with parametrized weight", kind=kind, train=train)
        case.require(torch.allclose(G, exp, rtol=1e-4, atol=1e-4), "gradient of the parametrized parameter", kind=kind, train=train, got=G.tolist(), expected=exp.tolist())
    elif kind == "noise":
        # gradient must be consistent with the outputs (noise is the same draw in the recomputation)
        exp = sum(2 * x.t() @ y for x, y in zip(xs, effs)).detach()
        case.require(torch.allclose(G, exp, rtol=1e-4, atol=1e-4), "gradient with weight noise", got=G.tolist(), expected=exp.tolist())
        case.require(all(not torch.allclose(y, x @ W + bias, atol=1e-6) for x, y in zip(xs, effs)), "noise is applied in training")
    else:
        # gradient is zero exactly where every draw dropped the weight; scaled by 1/(1-p) elsewhere
        full = [2 * x.t() @ y / (1 - p) for x, y in zip(xs, effs)]
        ok = torch.zeros_like(G, dtype=torch.bool)
        import itertools

        for m in itertools.product([0.0, 1.0], repeat=steps):
            ok |= torch.isclose(G, sum(a * f_.detach() for a, f_ in zip(m, full)), rtol=1e-3, atol=1e-4)
        case.require(bool(ok.all()), "gradient with weight dropout is that of the kept weights", got=G.tolist(), full=[f_.tolist() for f_ in full])
        if steps == 1:
            mask = ~torch.isclose(G, torch.zeros_like(G), atol=1e-9)
            y2 = xs[0] @ (W * mask / (1 - p)) + bias
            case.require(torch.allclose(y2, effs[0], rtol=1e-3, atol=1e-3) or bool((full[0].abs() < 1e-6).any()), "the weights which get a gradient are those used in the forward pass", got=effs[0].tolist(), expected=y2.tolist())
    case.require(torch.allclose(gb, sum(2 * y.sum(0) for y in effs).detach(), rtol=1e-4, atol=1e-4), "gradient of the other parameter")
    case.count("parametrized")
    del loss, effs, y, yr, g
    if kind != "custom" and rng.random() < 0.5:
        rf.remove_parametrization(lin, "weight")
        case.equal(sorted(n for n, _ in lin.named_parameters()), names0, "parameters after removing the parametrization")
        y = lin(rf.convert_to_tensor(xs[0], dims=[b, i])).copy_compatible_to_dims_raw([b, o])
        case.require(torch.allclose(y, xs[0] @ W + bias, atol=1e-5), "output after removing the parametrization")


KINDS = {
    "ckpt": {"func": ckpt, "quick": 500, "thorough": 6000},
    "threads": {"func": threads, "quick": 6, "thorough": 200},
    "rf": {"func": lambda case: isolated(case, rf_grads), "quick": 200, "thorough": 2000},
    "param": {"func": lambda case: isolated(case, parametrized), "quick": 60, "thorough": 1000},
}
