"""RF tensors with a per-sequence oracle: what a padded batch must give is what every sequence alone gives.

Env makes tensors whose padding is garbage, with dims in a random order and sometimes not contiguous in memory,
together with the list of the unpadded per-sequence arrays (axes in a canonical order, without batch).
"""


class Env:
    def __init__(self, case, *, nb=None, max_len=6, min_len=1, num_dyn=2, sizes=(1, 2, 3, 4, 5), dtype="float64", global_batch=False):
        from returnn.tensor import Dim, Tensor
        import torch

        self.case = case
        self.rng = case.rng
        self.np = case.np_rng()
        self.dtype = dtype
        self.nb = nb or self.rng.choice([1, 2, 2, 3, 4])
        # the batch dim is sometimes the global one with size unknown by itself, here always explicit
        self.batch = Dim(Tensor("batch", [], dtype="int32", raw_tensor=torch.tensor(self.nb, dtype=torch.int32)), name="batch", kind=Dim.Types.Batch)
        if self.rng.random() < 0.3:
            self.batch = Dim(self.nb, name="batch", kind=Dim.Types.Batch)
        if global_batch:
            from returnn.tensor import batch_dim

            batch_dim.reset_eager()
            batch_dim.dyn_size_ext = Tensor("batch", [], dtype="int32", raw_tensor=torch.tensor(self.nb, dtype=torch.int32))
            self.batch = batch_dim
        self.made = []
        self.dyn, self.lens = [], {}
        for i in range(num_dyn):
            self.dyn.append(self.new_dyn("t%i" % i, min_len, max_len))
        self.sizes = sizes

    def new_dyn(self, name, min_len=1, max_len=6, lens=None):
        """dim with a length per sequence; or all the same length; or one length without batch dim"""
        from returnn.tensor import Dim, Tensor
        import torch

        rng = self.rng
        dims = [self.batch]
        if lens is None:
            r = rng.random()
            lens = [rng.randint(min_len, max_len) for _ in range(self.nb)]
            if r < 0.1:
                lens = [lens[0]] * self.nb
            if r < 0.05:
                dims = []
        raw = torch.tensor(lens if dims else lens[0], dtype=torch.int32)
        d = Dim(Tensor(name + "_len", dims, dtype="int32", raw_tensor=raw), name=name, kind=Dim.Types.Spatial)
        self.lens[d] = list(lens)
        return d

    def static(self, n=None, name="f"):
        from returnn.tensor import Dim

        return Dim(n or self.rng.choice(self.sizes), name=name, kind=self.rng.choice([Dim.Types.Feature, Dim.Types.Spatial]))

    def size(self, dim, b):
        if dim in self.lens:
            return self.lens[dim][b]
        if dim.dimension is not None:
            return dim.dimension
        return sizes_of(self, dim)[b]

    def values(self, shape, dtype=None, lo=-3, hi=3):
        dtype = dtype or self.dtype
        import numpy

        if dtype == "bool":
            return self.np.randint(0, 2, size=shape).astype(bool)
        if dtype.startswith(("int", "uint")):
            return self.np.randint(lo, hi + 1, size=shape).astype(dtype)
        return numpy.asarray(self.np.normal(size=shape) * 2).astype(dtype)

    def make(self, dims, *, batch=True, dtype=None, sparse_dim=None, feature_dim=None, seqs=None, gen=None, garbage=None, order=None):
        """:return: tensor, list of arrays per sequence with axes as in dims"""
        import numpy
        import torch
        from returnn.tensor import Tensor

        dtype = dtype or self.dtype
        if sparse_dim is not None:
            lo, hi = 0, sparse_dim.dimension - 1
            if dtype.startswith("float"):
                dtype = "int32"
        else:
            lo, hi = -3, 3
        n = self.nb if batch else 1
        if seqs is None:
            seqs = [(gen or (lambda shape: self.values(shape, dtype, lo, hi)))([self.size(d, b) for d in dims]) for b in range(n)]
        seqs = [numpy.asarray(s) for s in seqs]
        full = [max([s.shape[i] for s in seqs] + ([self.capacity(d)] if d not in self.lens else [max(self.lens[d])])) for i, d in enumerate(dims)]
        if garbage is None:
            if dtype == "bool":
                g = self.np.randint(0, 2, size=[n] + full).astype(bool)
            elif dtype.startswith(("int", "uint")):
                g = self.np.randint(lo, hi + 1, size=[n] + full).astype(dtype)
                if sparse_dim is None:
                    g = (g * 100 + 7).astype(dtype)
            else:
                g = (self.np.normal(size=[n] + full) * 1000).astype(dtype)
        else:
            g = numpy.full([n] + full, garbage, dtype=dtype)
        for b, s in enumerate(seqs):
            g[(b,) + tuple(slice(0, k) for k in s.shape)] = s
        all_dims = ([self.batch] if batch else []) + list(dims)
        if not batch:
            g = g[0]
        perm = list(range(len(all_dims)))
        if order is None:
            self.rng.shuffle(perm)
        else:
            perm = [all_dims.index(d) for d in order]
        raw = torch.tensor(numpy.array(numpy.transpose(g, perm), order="C"))
        if raw.dim() >= 2 and self.rng.random() < 0.3:  # not contiguous in memory
            p = list(range(raw.dim()))
            self.rng.shuffle(p)
            raw = raw.permute(p).contiguous().permute([p.index(i) for i in range(len(p))])
        t = Tensor("x", dims=[all_dims[i] for i in perm], dtype=dtype, sparse_dim=sparse_dim, feature_dim=feature_dim)
        t.raw_tensor = raw
        self.__dict__.setdefault("made", []).append((t, raw, raw.clone()))
        return t, (seqs if batch else seqs * self.nb)

    def capacity(self, d):
        return d.dimension if d.dimension is not None else int(d.get_dim_value())


def sizes_of(env, dim):
    """list of sizes per sequence"""
    import numpy

    if dim.dimension is not None:
        return [dim.dimension] * env.nb
    s = dim.get_size_tensor()
    v = s.raw_tensor.detach().cpu().numpy() if hasattr(s.raw_tensor, "detach") else numpy.asarray(s.raw_tensor)
    if s.dims == ():
        return [int(v)] * env.nb
    assert s.dims == (env.batch,), "size of %s has dims %s" % (dim, s.dims)
    return [int(x) for x in v]


def seqs(env, tensor, dims):
    """per sequence arrays, axes as in dims; the tensor must have exactly these dims (plus batch or not)"""
    import numpy

    have = list(tensor.dims)
    with_batch = any(d == env.batch for d in have)
    want = ([env.batch] if with_batch else []) + list(dims)
    assert len(have) == len(want) and set(have) == set(want), "result dims %s, expected %s" % (have, want)
    v = tensor.raw_tensor.detach().cpu().numpy()
    assert str(v.dtype) == tensor.dtype, "tensor dtype %s but raw dtype %s" % (tensor.dtype, v.dtype)
    for i, d in enumerate(have):
        cap = d.dimension if d.dimension is not None else int(d.get_dim_value())
        assert v.shape[i] == cap, "raw shape %s does not match the dims %s (axis %i, size %i)" % (v.shape, have, i, cap)
    v = numpy.transpose(v, [have.index(d) for d in want])
    out = []
    sizes = [sizes_of(env, d) for d in dims]
    for b in range(env.nb):
        x = v[b] if with_batch else v
        out.append(x[tuple(slice(0, s[b]) for s in sizes)])
        assert out[-1].shape == tuple(s[b] for s in sizes), "size of a dim is above the raw size: %s %s" % (out[-1].shape, [s[b] for s in sizes])
    return out


def check(case, env, tensor, dims, expected, msg, tol=1e-9, dtype=None):
    import numpy
    import torch

    got = seqs(env, tensor, dims)
    for t, raw, orig in getattr(env, "made", ()):
        case.require(t.raw_tensor is raw and torch.equal(torch.nan_to_num(raw) if raw.is_floating_point() else raw, torch.nan_to_num(orig) if raw.is_floating_point() else orig), f"{msg}: an operand was changed", operand=str(t))
    for b, (g, e) in enumerate(zip(got, expected)):
        e = numpy.asarray(e)
        case.require(g.shape == e.shape, f"{msg}: sequence {b} has shape {list(g.shape)}, expected {list(e.shape)}")
        if e.dtype.kind in "biu":
            ok = numpy.array_equal(g, e)
        else:
            ok = numpy.allclose(g, e, rtol=tol, atol=tol, equal_nan=True)
        case.require(ok, f"{msg}: sequence {b} is wrong", got=g.tolist(), expected=e.tolist(), dims=[str(d) for d in tensor.dims], lens=[str(v) for v in env.lens.values()])
    if dtype:
        case.equal(tensor.dtype, dtype, f"{msg}: dtype")
    case.count("results")
    case.count("seqs_checked", len(got))
    case.count("padded_results", int(any(len({g.shape for g in got}) > 1 for _ in [0])))


def init():
    from vlib import ds as D

    D.quiet_log()
    import torch

    torch.set_num_threads(1)
    import returnn.frontend as rf
    from returnn.util.basic import BehaviorVersion

    rf.select_backend_torch()
    BehaviorVersion.set(24)
    rf.set_default_float_dtype("float64")
