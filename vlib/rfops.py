"""Random element-wise / layout ops on RF tensors with an independent oracle by named axes (numpy).

Runs in process (native module as built by RETURNN), or as a child process:
  python -m vlib.rfops <seed> <count> pure|native
"""
import sys


class Mismatch(Exception):
    pass


class Pool:
    """Dims with a logical name each. Equal dims (aliases) share the logical name."""

    def __init__(self, rng):
        from returnn.tensor import Dim, Tensor, batch_dim
        import returnn.frontend as rf
        import torch

        self.rng = rng
        self.size = {}
        self.objs = {}  # logical name -> list of equal Dim objects
        nb = rng.randint(1, 3)
        batch = Dim(Tensor("batch", [], dtype="int32", raw_tensor=torch.tensor(nb, dtype=torch.int32)), name="batch", kind=Dim.Types.Batch)
        self._add("B", nb, [batch])
        for i in range(rng.randint(1, 2)):
            lens = [rng.randint(0 if rng.random() < 0.1 else 1, 4) for _ in range(nb)]
            lens[rng.randrange(nb)] = max(max(lens), 1)
            t = Dim(Tensor("t%i_len" % i, [batch], dtype="int32", raw_tensor=torch.tensor(lens, dtype=torch.int32)), name="time%i" % i)
            self._add("T%i" % i, max(lens), [t])
        for i in range(rng.randint(1, 4)):
            n = rng.choice([1, 2, 3, 3, 4])
            d = Dim(n, name="f%i" % i, kind=rng.choice([Dim.Types.Feature, Dim.Types.Spatial]))
            objs = [d]
            if rng.random() < 0.3:
                e = Dim(n, name="f%i_alias" % i)
                e.declare_same_as(d)
                objs.append(e)
            self._add("F%i" % i, n, objs)
            if len(objs) == 1 and rng.random() < 0.25:  # square: the same dim twice, distinguished by match priority
                self.size["F%i'" % i] = n
                self.objs["F%i'" % i] = [d.copy(match_priority=1)]

    def _add(self, name, size, objs):
        self.size[name] = size
        self.objs[name] = objs

    def names(self, k=None, sup=None):
        """random order of a random subset of the logical names; a doubled dim always occurs with both or none"""
        rng = self.rng
        pool = [n for n in (sup or self.size) if not n.endswith("'")]
        k = rng.randint(0, min(4, len(pool))) if k is None else k
        sel = rng.sample(pool, min(k, len(pool)))
        for n in list(sel):
            if n + "'" in self.size and (sup is None or n + "'" in sup):
                sel.append(n + "'")
        rng.shuffle(sel)
        return sel

    def dim(self, name):
        return self.rng.choice(self.objs[name])

    def name_of(self, dim):
        """logical name of a dim of a result"""
        for n, objs in self.objs.items():
            if any(dim is o for o in objs):
                return n
        c = [n for n, objs in self.objs.items() if any(dim == o for o in objs)]
        if len(c) == 1:
            return c[0]
        c = [n for n in c if any(o.match_priority == dim.match_priority for o in self.objs[n])]
        if len(c) != 1:
            raise Mismatch("unknown dim %r in the result" % dim)
        return c[0]


def _values(rng, nprng, dtype, shape, nonzero=False):
    import numpy

    if dtype == "bool":
        return nprng.randint(0, 2, size=shape).astype("bool")
    if dtype.startswith("int"):
        v = nprng.randint(1 if nonzero else -5, 6, size=shape)
        return numpy.asarray(v).astype(dtype)
    v = nprng.normal(size=shape) * 3
    if nonzero:
        v = numpy.abs(v) + 0.25
    return numpy.asarray(v).astype(dtype)


def make_tensor(pool, nprng, names, dtype, nonzero=False, allow_v1=True, values=None):
    import torch
    from returnn.tensor import Tensor

    rng = pool.rng
    v = _values(rng, nprng, dtype, [pool.size[n] for n in names], nonzero) if values is None else values
    dims = [pool.dim(n) for n in names]
    kw = {}
    statics = [d for d, n in zip(dims, names) if n[0] == "F"]
    plain = [d for d, n in zip(dims, names) if n[0] == "F" and not n.endswith("'") and n + "'" not in names]
    ver = 2
    if allow_v1 and rng.random() < 0.15:
        ver = 1
        kw["version"] = 1
    if rng.random() < 0.4 and plain and dtype.startswith("float"):
        kw["feature_dim"] = rng.choice(plain)
    sparse = None
    t = Tensor("x%i" % rng.randrange(1000), dims=dims, dtype=dtype, **({"version": 1} if ver == 1 else {}))
    if kw.get("feature_dim"):
        t.feature_dim = kw["feature_dim"]
    raw = torch.tensor(v)
    if rng.random() < 0.3 and raw.dim() >= 2:  # not contiguous
        p = list(range(raw.dim()))
        rng.shuffle(p)
        inv = [p.index(i) for i in range(len(p))]
        raw = raw.permute(p).contiguous().permute(inv)
    t.raw_tensor = raw
    return t, (list(names), v)


def expand(la, all_names, size=None):
    """labelled array -> array with axes all_names (1 for missing)"""
    import numpy

    names, v = la
    assert len(names) == v.ndim
    perm = [names.index(n) for n in all_names if n in names]
    v = numpy.transpose(v, perm) if names else v
    return v.reshape([v.shape[[n for n in all_names if n in names].index(n)] if n in names else 1 for n in all_names])


BIN = {
    "add": ("+", "add"), "sub": ("-", "sub"), "mul": ("*", "mul"), "truediv": ("/", "truediv"), "floordiv": ("//", "floordiv"), "mod": ("%", "mod"),
    "pow": ("**", "pow"), "maximum": (None, "maximum"), "minimum": (None, "minimum"), "logical_and": ("&", "logical_and"), "logical_or": ("|", "logical_or"),
    "squared_difference": (None, "squared_difference"),
}
CMP = {"equal": "==", "not_equal": "!=", "less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">="}
FUNC = {
    "add": "add", "sub": "sub", "mul": "mul", "truediv": "true_divide", "floordiv": "floor_divide", "mod": "mod", "pow": "pow", "logical_and": "logical_and",
    "logical_or": "logical_or", "maximum": "maximum", "minimum": "minimum", "squared_difference": "squared_difference",
    "equal": "equal", "not_equal": "not_equal", "less": "less", "less_equal": "less_equal", "greater": "greater", "greater_equal": "greater_equal",
}


def np_op(kind, a, b):
    import numpy

    f = {
        "add": numpy.add, "sub": numpy.subtract, "mul": numpy.multiply, "truediv": numpy.true_divide, "floordiv": numpy.floor_divide, "mod": numpy.mod,
        "pow": numpy.power, "maximum": numpy.maximum, "minimum": numpy.minimum, "logical_and": numpy.logical_and, "logical_or": numpy.logical_or,
        "squared_difference": lambda x, y: (x - y) ** 2, "equal": numpy.equal, "not_equal": numpy.not_equal, "less": numpy.less, "less_equal": numpy.less_equal,
        "greater": numpy.greater, "greater_equal": numpy.greater_equal,
    }[kind]
    return f(a, b)


def check_result(pool, out, exp_names, exp, dtype, what, order=None):
    """exp: array in order exp_names"""
    import numpy

    names = [pool.name_of(d) for d in out.dims]
    if sorted(names) != sorted(exp_names):
        raise Mismatch("%s: result dims %r, expected %r" % (what, names, exp_names))
    if order is not None:
        listed = [n for n in names if n in order]
        if listed != [n for n in order if n in names] or names[: len(listed)] != listed:
            raise Mismatch("%s: result dims %r, requested order %r" % (what, names, order))
    if out.dtype != dtype:
        raise Mismatch("%s: dtype %r, expected %r" % (what, out.dtype, dtype))
    raw = out.raw_tensor
    if list(raw.shape) != [pool.size[n] for n in names]:
        raise Mismatch("%s: raw shape %r but dims %r with sizes %r" % (what, tuple(raw.shape), names, [pool.size[n] for n in names]))
    if str(raw.dtype).replace("torch.", "") != dtype:
        raise Mismatch("%s: raw dtype %r, expected %r" % (what, raw.dtype, dtype))
    got = raw.detach().cpu().numpy()
    exp_ = numpy.transpose(exp, [exp_names.index(n) for n in names]) if names else exp
    ok = numpy.allclose(got, exp_, rtol=1e-5, atol=1e-5) if dtype.startswith("float") else numpy.array_equal(got, exp_)
    if not ok:
        raise Mismatch("%s: wrong values for dims %r: got %r expected %r" % (what, names, got.tolist(), exp_.tolist()))


def run_one(rng, nprng, count, finding=None):
    """one random op with oracle"""
    import operator
    import math
    import numpy
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Tensor, Dim

    pool = Pool(rng)
    what = rng.choice(["bin"] * 8 + ["scalar"] * 3 + ["unary", "copy", "template", "perm", "compat", "compat", "setter", "eqobj", "reject", "reject"])
    count("op_" + what)
    if what in ("bin", "scalar"):
        kind = rng.choice(list(BIN) + list(CMP))
        is_cmp = kind in CMP
        if kind in ("logical_and", "logical_or"):
            dtype = "bool"
        elif kind in ("truediv",):
            dtype = rng.choice(["float32", "float64"])
        elif is_cmp:
            dtype = rng.choice(["float32", "int32", "int64", "float64"])
        else:
            dtype = rng.choice(["float32", "float32", "int32", "int64", "float64"])
        nz = kind in ("truediv", "floordiv", "mod", "pow")
        if kind == "floordiv" and not dtype.startswith("int"):
            dtype = rng.choice(["int32", "float32"])
        if kind == "mod" and dtype.startswith("float"):
            dtype = "int64"
        rel = rng.choice(["same", "perm", "sub", "sup", "indep", "indep"])
        an = pool.names()
        if what == "scalar":
            a, la = make_tensor(pool, nprng, an, dtype, nz)
            v = _values(rng, nprng, dtype, [], True).item()
            if rng.random() < 0.4 and dtype != "bool":  # neutral elements
                v = type(v)(rng.choice([0, 1, -1, 1]))
            rev = rng.random() < 0.5
            if v == 0 and nz or v == -1 and (kind == "pow" and dtype.startswith("int") or rev) or rev and kind == "pow" and v == 1:
                v = type(v)(3)  # (1 ** x needs not be a tensor; negative powers of ints are undefined)
            lb = ([], numpy.asarray(v, dtype=dtype))
            x, y = (v, a) if rev else (a, v)
            lx, ly = (lb, la) if rev else (la, lb)
            allow, order, all_names = None, None, an
        else:
            if rel == "same":
                bn = list(an)
            elif rel == "perm":
                bn = list(an)
                rng.shuffle(bn)
            elif rel == "sub":
                bn = pool.names(sup=an) if an else []
            elif rel == "sup":
                bn = list(an) + [n for n in pool.names(k=2) if n not in an]
                bn += [n + "'" for n in bn if n + "'" in pool.size and n + "'" not in bn]
                rng.shuffle(bn)
            else:
                bn = pool.names()
            a, la = make_tensor(pool, nprng, an, dtype, nz)
            b, lb = make_tensor(pool, nprng, bn, dtype, nz)
            all_names = an + [n for n in bn if n not in an]
            need_bc = set(all_names) != set(an) and set(all_names) != set(bn)
            allow = True if need_bc or rng.random() < 0.1 else None
            order = None
            # (tensors may be scalars as well; dim_order may list other dims)
            if rng.random() < 0.3:
                order = [n for n in pool.names(k=rng.randint(1, 5)) if not n.endswith("'") and n + "'" not in pool.size] or None
            x, y, lx, ly = a, b, la, lb
        exp = np_op(kind, expand(lx, all_names), expand(ly, all_names))
        exp = numpy.broadcast_to(exp, [pool.size[n] for n in all_names])
        out_dtype = "bool" if is_cmp else dtype
        if is_cmp or kind in ("logical_and", "logical_or"):
            exp = exp.astype(bool)
        ops = []
        if allow is None and order is None:
            py = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod, "**": operator.pow,
                  "&": operator.and_, "|": operator.or_, "==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
            sym = CMP[kind] if is_cmp else BIN[kind][0]
            if sym:
                ops.append(("operator " + sym, lambda: py[sym](x, y)))
            if what == "bin" or kind in ("maximum", "minimum", "add", "sub", "mul"):
                ops.append(("rf." + FUNC[kind], lambda: getattr(rf, FUNC[kind])(x, y)))
        kw = {}
        if allow is not None:
            kw["allow_broadcast_all_sources"] = allow
        if order is not None:
            kw["dim_order"] = [pool.dim(n) for n in order]
            if rng.random() < 0.5:
                kw["dim_order"] = tuple(kw["dim_order"])
        names = [kind, CMP[kind]] if is_cmp else [k for k in (kind, BIN[kind][0] if BIN[kind][0] not in (None, "&", "|") else None) if k]
        kk = rng.choice(names)
        if is_cmp:
            ops.append(("rf.compare %s" % kk, lambda: rf.compare(x, kk, y, **kw)))
            if allow and what == "bin":
                ops.append(("rf.compare_bc", lambda: rf.compare_bc(x, kk, y, **{k: v for k, v in kw.items() if k == "dim_order"})))
        else:
            ops.append(("rf.combine %s" % kk, lambda: rf.combine(x, kk, y, **kw)))
            if allow and what == "bin":
                ops.append(("rf.combine_bc", lambda: rf.combine_bc(x, kk, y, **{k: v for k, v in kw.items() if k == "dim_order"})))
        name, f = rng.choice(ops)
        desc = "%s(%s) %s a=%r b=%r allow=%r order=%r dtype=%s" % (name, kind, what, lx[0], ly[0], allow, order, dtype)
        out = f()
        if not isinstance(out, Tensor):
            raise Mismatch("%s: gave %r" % (desc, out))
        check_result(pool, out, all_names, exp, out_dtype, desc, order=order)
        # metadata, where both operands agree
        if what == "bin" and not is_cmp:
            if x.feature_dim is not None and y.feature_dim is not None and x.feature_dim == y.feature_dim:
                if out.feature_dim != x.feature_dim:
                    raise Mismatch("%s: feature dim %r, expected %r" % (desc, out.feature_dim, x.feature_dim))
        # operands are unchanged
        for t, l in ((x, lx), (y, ly)):
            if isinstance(t, Tensor):
                if [pool.name_of(d) for d in t.dims] != l[0] or not numpy.array_equal(t.raw_tensor.numpy(), l[1]):
                    raise Mismatch("%s: operand was changed" % desc)
        return desc
    names = pool.names()
    dtype = rng.choice(["float32", "int32", "bool", "float64", "int64"])
    if what == "unary":
        kind = rng.choice(["neg", "logical_not", "abs", "ceil", "floor"])
        dtype = {"logical_not": "bool", "ceil": "float32", "floor": "float64"}.get(kind, rng.choice(["float32", "int32", "int64"]))
        t, l = make_tensor(pool, nprng, names, dtype)
        f = {
            "neg": [lambda: -t, lambda: rf.neg(t)], "logical_not": [lambda: ~t, lambda: rf.logical_not(t)], "abs": [lambda: abs(t), lambda: rf.abs(t)],
            "ceil": [lambda: math.ceil(t), lambda: rf.ceil(t)], "floor": [lambda: math.floor(t), lambda: rf.floor(t)],
        }[kind]
        exp = {"neg": numpy.negative, "logical_not": numpy.logical_not, "abs": numpy.abs, "ceil": numpy.ceil, "floor": numpy.floor}[kind](l[1])
        out = rng.choice(f)()
        check_result(pool, out, names, exp, dtype, kind)
        if [pool.name_of(d) for d in out.dims] != names:
            raise Mismatch("%s: dims %r, expected %r" % (kind, out.dims, names))
        if out.feature_dim != t.feature_dim:
            raise Mismatch("%s: feature dim lost" % kind)
        return kind
    t, l = make_tensor(pool, nprng, names, dtype)
    if what in ("copy", "template"):
        name = rng.choice([None, "foo"])
        if what == "copy":
            out = t.copy(name=name) if name else t.copy()
            if out.raw_tensor is not t.raw_tensor:
                raise Mismatch("copy: other raw tensor")
        else:
            dt = rng.choice([None, "int32"])
            if rng.random() < 0.3:
                t2 = Tensor(t.name, dims=t.dims, dtype=t.dtype)
                if t.feature_dim:
                    t2.feature_dim = t.feature_dim
                t = t2
            out = t.copy_template(name, dtype=dt) if dt else (t.copy_template(name) if name else t.copy_template())
            if out.raw_tensor is not None or out.dtype != (dt or dtype):
                raise Mismatch("copy_template: raw %r dtype %r" % (out.raw_tensor, out.dtype))
        if out is t or out.dims != t.dims or (name or t.name) != out.name or out.feature_dim != t.feature_dim or out.version != t.version or out.sparse_dim != t.sparse_dim:
            raise Mismatch("%s: %r from %r" % (what, out, t))
        return what
    if what in ("perm", "compat"):
        target = names + [n for n in pool.names(k=3) if n not in names]
        target += [n + "'" for n in target if n + "'" in pool.size and n + "'" not in target]
        rng.shuffle(target)
        # a doubled dim in the target which occurs once in the tensor would be ambiguous
        tdims = [pool.dim(n) if n not in names or rng.random() < 0.3 else t.dims[names.index(n)] for n in target]
        tdims = rng.choice([list, tuple])(tdims)
        exp_perm = [names.index(n) if n in names else -1 for n in target]
        if what == "perm":
            p = t.get_out_permutation_to_dims(tdims)
            if list(p) != exp_perm:
                raise Mismatch("get_out_permutation_to_dims %r -> %r: %r" % (names, target, p))
            return what
        exp = expand(l, target)
        raw = t.copy_compatible_to_dims_raw(tdims)
        if not numpy.array_equal(raw.numpy(), exp):
            raise Mismatch("copy_compatible_to_dims_raw %r -> %r: got shape %r values %r, expected %r" % (names, target, tuple(raw.shape), raw.tolist(), exp.tolist()))
        out = t.copy_compatible_to_dims(tdims)
        if not numpy.array_equal(out.raw_tensor.numpy(), exp) or out.dtype != dtype:
            raise Mismatch("copy_compatible_to_dims %r -> %r: got shape %r values %r, expected %r" % (names, target, tuple(raw.shape), raw.tolist(), exp.tolist()))
        for n, d in zip(target, out.dims):
            if n in names and d not in pool.objs[n]:
                raise Mismatch("copy_compatible_to_dims %r -> %r: dims %r" % (names, target, out.dims))
            if n not in names and d.dimension != 1:
                raise Mismatch("copy_compatible_to_dims %r -> %r: broadcast dim %r" % (names, target, d))
        fd = t.feature_dim
        if fd is None and out.feature_dim is not None and t.version == 2 or fd is not None and out.feature_dim != fd:
            raise Mismatch("copy_compatible_to_dims %r -> %r: feature dim %r -> %r" % (names, target, fd, out.feature_dim))
        tmpl = t.copy_template()
        out2 = tmpl.copy_compatible_to_dims(tdims)
        if out2.raw_tensor is not None or len(out2.dims) != len(target):
            raise Mismatch("copy_compatible_to_dims of a template: %r" % (out2,))
        return what
    if what == "setter":
        out = t.copy_template()
        out.raw_tensor = t.raw_tensor
        if out.raw_tensor is not t.raw_tensor:
            raise Mismatch("raw_tensor setter")
        bad = rng.choice(["dtype", "ndim", "size"])
        r = t.raw_tensor
        if bad == "dtype":
            r = r.to(torch.uint8)
        elif bad == "ndim":
            r = r[None]
        else:
            st = [i for i, n in enumerate(names) if n[0] == "F"]
            if not st:
                return what
            i = rng.choice(st)
            r = torch.cat([r, r], dim=i)
        try:
            out.raw_tensor = r
        except Exception:
            pass
        else:
            raise Mismatch("raw_tensor setter: accepted %s %r for %r" % (bad, tuple(r.shape), t))
        return what
    if what == "eqobj":
        for o in (object(), [1], None, Dim(3, name="z")):
            r = t == o
            if isinstance(r, Tensor) or r:
                raise Mismatch("Tensor == %r gave %r" % (o, r))
        r = t.copy_template() == t
        if r is not False:
            raise Mismatch("template == tensor gave %r" % (r,))
        return what
    # invalid requests must be rejected, never give a result (and never crash)
    assert what == "reject"
    bad = rng.choice(["missing_dim", "kind", "broadcast", "types"])
    count("reject_" + bad)
    t, l = make_tensor(pool, nprng, names, "float32")
    if bad == "missing_dim":
        if not names:
            return what
        td = [d for d in t.dims]
        td.pop(rng.randrange(len(td)))
        f = rng.choice([t.copy_compatible_to_dims, t.copy_compatible_to_dims_raw, t.get_out_permutation_to_dims])
        try:
            r = f(td)
        except Exception:
            return what
        raise Mismatch("%r with dims %r for %r gave %r" % (f, td, t, r))
    if bad == "kind":
        f = rng.choice([lambda: rf.combine(t, "foo", t), lambda: rf.compare(t, "foo", t)])
        try:
            r = f()
        except Exception:
            return what
        raise Mismatch("invalid kind gave %r" % (r,))
    if bad == "types":
        for f in (lambda: t + "foo", lambda: t * object(), lambda: t.copy_compatible_to_dims(None), lambda: t.copy_compatible_to_dims_raw(5), lambda: rf.combine(t, "add", None)):
            try:
                r = f()
            except Exception:
                continue
            raise Mismatch("invalid operand gave %r" % (r,))
        return what
    if bad == "broadcast":
        stat = [n for n in pool.size if not n.endswith("'") and n + "'" not in pool.size]
        if len(stat) < 2:
            return what
        rng.shuffle(stat)
        k = rng.randint(1, len(stat) - 1)
        common = rng.choice([[], stat[:1]]) if len(stat) > 2 else []
        rest = [n for n in stat if n not in common]
        k = rng.randint(1, len(rest) - 1)
        a, _ = make_tensor(pool, nprng, common + rest[:k], "float32")
        b, _ = make_tensor(pool, nprng, rest[k:] + common, "float32")
        for f in (lambda: a + b, lambda: rf.combine(a, "mul", b), lambda: rf.compare(a, "<", b), lambda: rf.combine(a, "add", b, allow_broadcast_all_sources=False)):
            try:
                r = f()
            except Exception:
                continue
            msg = "neither operand has all dims, yet no error without allow_broadcast_all_sources: %r %r gave %r" % (a, b, r)
            if finding is not None:
                finding("native-broadcast-all-sources-not-enforced", msg)
                return what
            raise Mismatch(msg)
        return what


def main():
    seed, n, mode = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    import faulthandler

    faulthandler.enable()
    import json
    import random
    import numpy
    import torch

    torch.set_num_threads(1)
    import returnn.frontend as rf
    from returnn.util import basic as util

    util.BackendEngine.select_engine(engine=util.BackendEngine.Torch)
    rf.select_backend_torch()
    from returnn.tensor import Tensor

    native = not isinstance(Tensor.__dict__.get("copy", Tensor.copy), type(run_one))
    counts, findings = {}, {}

    def count(k):
        counts[k] = counts.get(k, 0) + 1

    def finding(k, m):
        findings[k] = m

    for i in range(n):
        rng = random.Random("%i/%i" % (seed, i))
        nprng = numpy.random.RandomState(rng.randrange(2**32))
        try:
            run_one(rng, nprng, count, finding if mode != "pure" else None)
        except Exception as exc:
            import traceback

            print("RESULT " + json.dumps({"error": "case %i: %s" % (i, traceback.format_exc()[-1800:]), "counts": counts, "native": native, "findings": findings}))
            sys.exit(0)
    print("RESULT " + json.dumps({"counts": counts, "native": native, "findings": findings}))


if __name__ == "__main__":
    main()
