"""C22: arithmetic on dimension tags gives the arithmetic on the sizes, and equality of dims is consistent with it."""
from vlib import rfseq as S

RULE = (
    "case = random expressions (+, -, *, //, /, ceildiv, each from the right and from the left, by ints and by dims) over static dims, dynamic dims with a length per sequence and scalar dynamic dims; "
    "after each step the size of the result per sequence, its static dimension, its capacity, its mask and tensors created with it are compared with integer arithmetic on the sizes; "
    "in addition new batches for the same dims, pickling, copies, declare_same_as, and the laws of ==, hash and ordering over all dims of the case. Distinct by case description."
)
ASSUMPTIONS = [
    "eager PyTorch backend, behaviour version 24; every intermediate size is >= 0 for every sequence (negative sizes are clipped), truediv only where it is exact",
    "a derived dim is derived anew for a new batch (derived dims of an earlier batch are not looked at)",
]
MIN_COUNTS = {"dims_compared": 1500, "pairs_compared": 3000}
BUDGET = {"quick": 300, "thorough": 1500}


def worker_init():
    S.init()


class Node:
    """dim with expected sizes (list per sequence), static or not, and whether an int of constant"""

    def __init__(self, dim, sizes, static, text):
        self.dim, self.sizes, self.static, self.text = dim, sizes, static, text


def _bases(case, env):
    from returnn.tensor import Dim, Tensor
    import torch

    rng = case.rng
    nodes = []
    for i, d in enumerate(env.dyn):
        nodes.append(Node(d, list(env.lens[d]), False, "t%i" % i))
    n = rng.randint(1, 7)
    sc = Dim(Tensor("sc_len", [], dtype="int32", raw_tensor=torch.tensor(n, dtype=torch.int32)), name="sc", kind=Dim.Types.Spatial)
    nodes.append(Node(sc, [n] * env.nb, False, "sc"))
    for i in range(rng.randint(1, 3)):
        n = rng.choice([1, 1, 2, 3, 4, 6, 8])
        nodes.append(Node(env.static(n, name="s%i" % i), [n] * env.nb, True, "s%i=%i" % (i, n)))
    return nodes


def _apply(op, x, y):
    """x, y: dims, or one of both int"""
    if op == "add":
        return x + y
    if op == "sub":
        return x - y
    if op == "mul":
        return x * y
    if op == "floordiv":
        return x // y
    if op == "truediv":
        return x / y
    if op == "ceildiv":
        return x.ceildiv_right(y)
    if op == "ceildiv_left":
        return x.ceildiv_left(y)
    if op == "div_left":
        return x.div_left(y)
    if op == "sub_left":
        return x.sub_left(y)
    raise ValueError(op)


def _arith(op, a, b):
    if op == "add":
        return a + b
    if op in ("sub", "sub_left"):
        return a - b
    if op == "mul":
        return a * b
    if op == "floordiv":
        return a // b
    if op in ("truediv", "div_left"):
        return a // b if a % b == 0 else None
    if op in ("ceildiv", "ceildiv_left"):
        return -(-a // b)
    raise ValueError(op)


def _step(rng, pool, nb):
    """:return: (op, x, y, sizes, static, text) with all sizes fine, or None"""
    op = rng.choice(["add", "add", "sub", "sub", "sub_left", "mul", "mul", "floordiv", "truediv", "ceildiv", "ceildiv_left", "div_left"])
    x = rng.choice(pool if rng.random() < 0.5 else pool[-4:])
    other_int = rng.random() < 0.6
    left = False
    if other_int:
        k = rng.choice([0, 1, 1, 2, 2, 3, 4, 5]) if op in ("add", "sub", "sub_left") else rng.choice([1, 2, 2, 3, 4, 6])
        ys, ystatic, ytext, y = [k] * nb, True, str(k), k
        left = op in ("add", "mul") and rng.random() < 0.3
    else:
        yn = rng.choice(pool)
        ys, ystatic, ytext, y = yn.sizes, yn.static, yn.text, yn.dim
    if op.endswith("div") or op in ("floordiv", "ceildiv_left", "div_left"):
        if min(ys) <= 0:
            return None
    sizes = [_arith(op, a, b) for a, b in zip(x.sizes, ys)]
    if any(s is None or s < 0 or s > 500 for s in sizes):
        return None
    text = "(%s %s %s)" % ((ytext, op, x.text) if left else (x.text, op, ytext))
    if len(text) > 120:
        return None
    return op, x, y, left, sizes, x.static and ystatic, text


def _build(op, x, y, left):
    if left:
        return _apply(op, y, x)
    return _apply(op, x, y)


def _check_dim(case, env, dim, sizes, static, text):
    case.count("dims_compared")
    if static:
        case.require(dim.dimension is not None and dim.dimension == sizes[0], f"{text}: static dim {dim.dimension}, expected {sizes[0]}")
        case.require(dim.is_static() and not dim.is_dynamic(), f"{text}: must be static")
        case.require(int(dim.get_dim_value()) == sizes[0], f"{text}: dim value {dim.get_dim_value()}")
        return
    if dim.dimension is not None:  # simplified, e.g. a - a
        case.require(all(s == dim.dimension for s in sizes), f"{text}: static dim {dim.dimension}, expected sizes {sizes}")
        return
    got = S.sizes_of(env, dim)
    case.require(got == sizes, f"{text}: sizes {got}, expected {sizes}")
    cap = int(dim.get_dim_value())
    case.require(cap >= max(sizes), f"{text}: the dim value (max size) is {cap}, but the sizes are {sizes}")


def _check_use(case, env, dim, sizes, text):
    """create tensors over this dim"""
    import numpy
    import returnn.frontend as rf

    if max(sizes) <= 0 or dim.dimension is not None:
        return
    case.count("used_in_tensors")
    x = rf.range_over_dim(dim)
    case.require(tuple(x.dims) == (dim,), f"{text}: range_over_dim dims")
    y = rf.zeros([env.batch, dim], dtype="float64") + rf.cast(x, "float64")
    got = S.seqs(env, y, [dim])
    for g, n in zip(got, sizes):
        case.require(g.shape == (n,) and numpy.array_equal(g, numpy.arange(n)), f"{text}: range over dim: {g.tolist()} for size {n}")
    s = rf.reduce_sum(rf.ones([env.batch, dim], dtype="float64"), axis=dim)
    case.require([int(v) for v in S.seqs(env, s, [])] == sizes, f"{text}: sum of ones over the dim {s.raw_tensor.tolist()}, sizes {sizes}")
    m = dim.get_mask(dim_order=[dim, env.batch] if case.rng.random() < 0.5 else None)
    v = m.raw_tensor.numpy()
    if env.batch in m.dims:
        v = numpy.moveaxis(v, list(m.dims).index(env.batch), 0)
    else:
        v = numpy.stack([v] * env.nb)
    for b, n in enumerate(sizes):
        case.require(numpy.array_equal(v[b], numpy.arange(v.shape[1]) < n), f"{text}: mask {v[b].tolist()} for size {n}")


def _laws(case, env, pool):
    """equality is an equivalence relation, consistent with hash and sizes, and the order is total"""
    dims = [(n.dim, n.sizes, n.text) for n in pool]
    for i, (a, sa, ta) in enumerate(dims):
        case.require(a == a and not (a != a), f"{ta}: not equal to itself")
        for b, sb, tb in dims[i + 1 :]:
            case.count("pairs_compared")
            eq = a == b
            case.require(eq == (b == a) and eq == (not (a != b)), f"{ta}, {tb}: == not symmetric or != not the opposite")
            if eq:
                case.count("equal_pairs")
                case.require(hash(a) == hash(b), f"{ta} == {tb} but the hash differs")
                case.require(sa == sb, f"{ta} == {tb} but sizes are {sa} and {sb}")
                for c, sc, tc in dims:
                    case.require((a == c) == (b == c), f"{ta} == {tb} but differently related to {tc}")
            if eq:
                case.require(not (a < b) and not (b < a), f"{ta} == {tb} but one is smaller")


def expr(case):
    rng = case.rng
    env = S.Env(case, num_dyn=2, max_len=rng.choice([6, 12]), min_len=rng.choice([0, 1, 2]))
    pool = _bases(case, env)
    nb = len(pool)
    for _ in range(rng.randint(4, 14)):
        st = _step(rng, pool, env.nb)
        if not st:
            continue
        op, x, y, left, sizes, static, text = st
        dim = _build(op, x.dim, y, left)
        _check_dim(case, env, dim, sizes, static, text)
        # the same again must be the same dim
        again = _build(op, x.dim, y, left)
        case.require(again == dim and hash(again) == hash(dim), f"{text}: built twice, not equal")
        pool.append(Node(dim, sizes, static, text))
        if rng.random() < 0.4:
            _check_use(case, env, dim, sizes, text)
    case.desc(lens=list(env.lens.values()), exprs=[n.text for n in pool[nb:]])
    # nothing changed later on
    for n in pool:
        _check_dim(case, env, n.dim, n.sizes, n.static, n.text + " (later)")
    _laws(case, env, pool)


def inverse(case):
    """a + b - b == a and so on: undoing the operation gives the same dim again"""
    rng = case.rng
    env = S.Env(case, num_dyn=2, min_len=1)
    pool = _bases(case, env)
    a, b = rng.sample([n for n in pool], 2)
    k = rng.randint(1, 5)
    law = rng.choice(["add_sub", "add_sub_int", "sub_add_int", "mul_div", "mul_div_int", "radd", "neg"])
    case.desc(law=law, a=a.text, b=b.text, k=k, lens=list(env.lens.values()))
    A, B = a.dim, b.dim
    if law == "add_sub":
        r = A + B - B
    elif law == "add_sub_int":
        r = A + k - k
    elif law == "sub_add_int":
        if min(a.sizes) < k:
            k = 1
        r = A - k + k
    elif law == "mul_div":
        if min(b.sizes) < 1:
            return
        r = rng.choice([lambda: A * B // B, lambda: (A * B) / B, lambda: (A * B).ceildiv_right(B), lambda: (B * A).div_left(B)])()
    elif law == "mul_div_int":
        r = rng.choice([lambda: k * A // k, lambda: (A * k).div_right(k), lambda: (k * A).div_left(k), lambda: (k * A).ceildiv_left(k)])()
    elif law == "radd":
        r = (k + A).sub_left(k)
    else:
        r = -(-A)
    case.count("dims_compared")
    case.count("inverse_laws")
    case.desc(equal=bool(r == A))
    _check_dim(case, env, r, a.sizes, a.static, f"{law}({a.text}, {b.text}, {k})")
    case.require(law.startswith("mul_div") or r == A, f"{law}({a.text}, {b.text}, {k}): {r} is not {A}")


def batches(case):
    """the same dims for a new batch: like extern data in every training step"""
    from returnn.tensor import Tensor
    import torch

    rng = case.rng
    env = S.Env(case, num_dyn=2, min_len=1)
    bases = _bases(case, env)
    plan = []
    n0 = len(bases)
    pool = list(bases)
    for _ in range(rng.randint(3, 8)):
        st = _step(rng, pool, env.nb)
        if not st or st[0] in ("truediv", "div_left", "sub", "sub_left"):
            continue
        op, x, y, left, sizes, static, text = st
        xi = pool.index(x)
        yi = next((i for i, n in enumerate(pool) if n.dim is y), None) if not isinstance(y, int) else None
        plan.append((op, xi, y if isinstance(y, int) else None, yi, left, text))
        pool.append(Node(None if False else _build(op, x.dim, y, left), sizes, static, text))
        _check_dim(case, env, pool[-1].dim, sizes, static, text)
    case.desc(plan=[p[-1] for p in plan])
    steps = rng.randint(2, 4)
    for step in range(steps):
        env.nb = rng.choice([1, 2, 3, 5])
        new_b = Tensor("batch", [], dtype="int32", raw_tensor=torch.tensor(env.nb, dtype=torch.int32))
        for n in bases:
            if n.static:
                if rng.random() < 0.7:
                    n.dim.reset_eager()
                n.sizes = [n.sizes[0]] * env.nb
        for n in bases[:n0]:
            if n.static:
                continue
            n.dim.reset_eager()
        if env.batch.dimension is None:
            env.batch.reset_eager()
            env.batch.dyn_size_ext = new_b
        else:
            from returnn.tensor import Dim

            env.batch = Dim(env.nb, name="batch", kind=Dim.Types.Batch)
        pool = []
        for n in bases:
            if not n.static:
                scalar = n.dim.dyn_size_ext.dims == ()
                lens = [rng.randint(1, 9) for _ in range(env.nb)]
                if scalar:
                    lens = [lens[0]] * env.nb
                raw = torch.tensor(lens[0] if scalar else lens, dtype=torch.int32)
                n.dim.dyn_size_ext = Tensor("len", [] if scalar else [env.batch], dtype="int32", raw_tensor=raw)
                n.sizes = lens
                env.lens[n.dim] = lens
            pool.append(n)
        skip = set()
        for op, xi, k, yi, left, text in plan:
            idx = len(pool)
            if xi in skip or yi in skip:
                skip.add(idx)
                pool.append(None)
                continue
            x = pool[xi]
            ys = [k] * env.nb if yi is None else pool[yi].sizes
            if op not in ("add", "mul") and min(ys) <= 0:
                skip.add(idx)
                pool.append(None)
                continue
            sizes = [_arith(op, a, b) for a, b in zip(x.sizes, ys)]
            y = k if yi is None else pool[yi].dim
            static = x.static and (yi is None or pool[yi].static)
            dim = _build(op, x.dim, y, left)
            _check_dim(case, env, dim, sizes, static, f"batch {step}: {text}")
            if rng.random() < 0.3:
                _check_use(case, env, dim, sizes, f"batch {step}: {text}")
            pool.append(Node(dim, sizes, static, text))
            case.count("dims_in_new_batches")
        _laws(case, env, [n for n in pool if n])


def pickled(case):
    """pickle and deep copy of a structure with dims: the structure of equal dims and the sizes survive, and the dims still work"""
    import copy
    import pickle
    import torch

    rng = case.rng
    env = S.Env(case, num_dyn=2, min_len=1, global_batch=True)
    env_batch = env.batch
    pool = _bases(case, env)
    nbase = len(pool)
    for _ in range(rng.randint(2, 8)):
        st = _step(rng, pool, env.nb)
        if st:
            op, x, y, left, sizes, static, text = st
            pool.append(Node(_build(op, x.dim, y, left), sizes, static, text))
    case.desc(exprs=[n.text for n in pool], lens=list(env.lens.values()))
    if rng.random() < 0.5:
        for n in pool:
            if n.dim.dimension is None and max(n.sizes) > 0:
                n.dim.get_mask()
    dims = [n.dim for n in pool]
    case.require(all(a is b for a, b in zip(dims, copy.deepcopy(dims))) and copy.copy(dims[0]) is dims[0], "copy of a dim is not the dim")
    p = pickle.loads(pickle.dumps((env_batch, dims), protocol=rng.choice([2, 4, pickle.HIGHEST_PROTOCOL])))
    env.batch, dims2 = p
    case.count("pickled_dims", len(dims2))
    # raw tensors are not pickled: set the sizes of the bases again
    for n, d in zip(pool[:nbase], dims2):
        if not n.static:
            scalar = d.dyn_size_ext.dims == ()
            case.require(d.dyn_size_ext.raw_tensor is None, "raw tensor pickled")
            d.dyn_size_ext.raw_tensor = torch.tensor(n.sizes[0] if scalar else n.sizes, dtype=torch.int32)
    for d in dims2:
        d.complete_dyn_size()
    case.require(len(dims2) == len(dims), "number")
    for i, (a, b) in enumerate(zip(dims, dims2)):
        case.require((a.name, a.dimension, a.kind and a.kind.name) == (b.name, b.dimension, b.kind and b.kind.name), f"{pool[i].text}: pickled dim differs: {b}")
        for j in range(i):
            case.count("pairs_compared")
            if not (pool[i].dim.auto_generated and pool[j].dim.auto_generated):
                case.require((dims[i] == dims[j]) == (dims2[i] == dims2[j]), f"{pool[i].text}, {pool[j].text}: equality changed by pickling")
        _check_dim(case, env, b, pool[i].sizes, pool[i].static, pool[i].text + " (unpickled)")
    # they still work
    pool2 = [Node(d, n.sizes, n.static, n.text) for d, n in zip(dims2, pool)]
    for _ in range(6):
        st = _step(rng, pool2, env.nb)
        if st:
            op, x, y, left, sizes, static, text = st
            d = _build(op, x.dim, y, left)
            _check_dim(case, env, d, sizes, static, text + " (of unpickled)")
            _check_use(case, env, d, sizes, text + " (of unpickled)")
    for n in pool2:
        if n.static:
            n.dim.reset_eager()
            case.require(n.dim.dimension == n.sizes[0], "static dim after reset")


def same_as(case):
    """declare_same_as: afterwards equal, same hash, same sizes; arithmetic on one is arithmetic on the other"""
    from returnn.tensor import Dim

    rng = case.rng
    env = S.Env(case, num_dyn=2, min_len=1)
    pool = _bases(case, env)
    for _ in range(rng.randint(0, 5)):
        st = _step(rng, pool, env.nb)
        if st:
            op, x, y, left, sizes, static, text = st
            pool.append(Node(_build(op, x.dim, y, left), sizes, static, text))
    n = rng.choice([p for p in pool if not p.dim.is_constant_static_dim()])
    out = Dim(None, name="out", kind=Dim.Types.Spatial)
    case.desc(of=n.text, lens=list(env.lens.values()), chain=True)
    other = Dim(None, name="out2", kind=Dim.Types.Spatial)
    pool = [p for p in pool if not p.dim.is_constant_static_dim()]
    if rng.random() < 0.5:
        out.declare_same_as(n.dim)
    else:
        n.dim.declare_same_as(out)
    group = [out, n.dim]
    if rng.random() < 0.5:
        a, b = rng.sample([other, rng.choice([out, n.dim])], 2)
        a.declare_same_as(b)
        group.append(other)
    for d in group:
        _check_dim(case, env, d, n.sizes, n.static, f"same as {n.text}: {d}")
        for e in group:
            case.count("pairs_compared")
            case.require(d == e and hash(d) == hash(e), f"same as {n.text}: {d} and {e} not equal")
    pool2 = pool + [Node(d, n.sizes, n.static, "same:" + n.text) for d in group]
    for p in pool:
        _check_dim(case, env, p.dim, p.sizes, p.static, p.text + " (after declare_same_as)")
    _laws(case, env, pool2)
    st = None
    for _ in range(10):
        st = st or _step(rng, [Node(out, n.sizes, n.static, "out")] + pool, env.nb)
    if st:
        op, x, y, left, sizes, static, text = st
        for d in group if x.text == "out" else [x.dim]:
            r = _build(op, d, y, left)
            _check_dim(case, env, r, sizes, static, text + " (after declare_same_as)")
            case.require(r == _build(op, x.dim, y, left), f"{text}: arithmetic on equal dims gives unequal dims")


KINDS = {
    "expr": {"func": expr, "quick": 1200, "thorough": 40000},
    "inverse": {"func": inverse, "quick": 300, "thorough": 6000},
    "batches": {"func": batches, "quick": 400, "thorough": 12000},
    "pickled": {"func": pickled, "quick": 300, "thorough": 8000},
    "same_as": {"func": same_as, "quick": 400, "thorough": 12000},
}
