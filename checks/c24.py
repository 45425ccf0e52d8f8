"""C24: RF tensor operators and layout functions follow named-dimension semantics; the native implementation agrees and is memory safe."""
import json
import os
import random
import subprocess
import sys
from vlib import core, eng, rfops

RULE = (
    "operation = random op (binary operators, rf.combine/compare with dim_order/broadcast, scalars on either side, unary, copy, copy_template, permutation, copy_compatible_to_dims, "
    "raw tensor setter, invalid requests) on random tensors (dims subset/superset/permuted/disjoint, equal dims as other objects, doubled dims, size 1, empty sequences, non-contiguous) "
    "against numpy by axis name; in process with the native module, in children without compiler (pure Python) and in children with an ASan+UBSan build of the native module and "
    "PYTHONMALLOC=malloc; leak cases repeat one op and count live objects."
)
ASSUMPTIONS = [
    "order of result dims only where dim_order asks for it (the native and the Python code differ there by design)",
    "feature dim of the result only where both operands agree",
]
MIN_COUNTS = {"op_bin": 4000, "op_compat": 800, "children_pure": 2, "children_asan": 2, "leak_ops": 20}
BUDGET = {"quick": 300, "thorough": 1500}
CASE_TIMEOUT = 600


def worker_init():
    eng.torch_init()


def ops(case):
    from returnn.tensor import Tensor

    n = 300 if case.tier == "quick" else 1000
    seen = {}

    def finding(k, m):
        seen.setdefault(k, m)

    for i in range(n):
        try:
            rfops.run_one(case.rng, case.np_rng(), case.count, finding)
        except rfops.Mismatch as exc:
            case.require(False, str(exc))
    if not isinstance(Tensor.copy, type(ops)):
        case.count("native_ops", n)
    case.require(True, "")
    for k, m in seen.items():
        case.finding(k, m)
    case.desc(n=n, seed=case.seed)


def _child(case, mode, n, env):
    tmp = case.tmpdir()
    e = dict(os.environ)
    e.update(env)
    e["RETURNN_CACHE_DIR"] = tmp + "/cache"
    os.makedirs(tmp + "/cache")
    p = subprocess.run([sys.executable, "-m", "vlib.rfops", str(case.seed % (2**31)), str(n), mode], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=550)
    out = p.stdout.decode("utf8", "replace")
    res = [l for l in out.splitlines() if l.startswith("RESULT ")]
    if "MemoryError" in out or "Cannot allocate memory" in out:
        raise core.Inconclusive("child: out of memory")
    case.require(p.returncode == 0 and res, "child process (%s) died with code %s" % (mode, p.returncode), output=out[-4000:] if "ERROR: AddressSanitizer" not in out else out[out.index("ERROR: AddressSanitizer"):][:4000])
    for pat in ("ERROR: AddressSanitizer", "runtime error:"):
        case.require(pat not in out, "sanitizer report", output=out[max(0, out.find(pat)):][:3000])
    res = json.loads(res[-1][len("RESULT "):])
    for k, v in res["counts"].items():
        case.count(k, v)
    case.require("error" not in res, "%s: %s" % (mode, res.get("error")))
    for k, m in res["findings"].items():
        case.finding(k, m)
    case.desc(mode=mode, n=n, seed=case.seed)
    return res


def pure(case):
    d = case.tmpdir() + "/nobin"
    os.makedirs(d)
    res = _child(case, "pure", 1500 if case.tier == "quick" else 6000, {"PATH": d})
    case.count("children_pure" if not res["native"] else "children_pure_native")


def asan(case):
    d = case.tmpdir() + "/shim"
    os.makedirs(d)
    for name in ("g++", "gcc", "c++"):
        real = subprocess.run(["which", name], stdout=subprocess.PIPE).stdout.decode().strip() or "/usr/bin/" + name
        with open(d + "/" + name, "w") as f:
            f.write('#!/bin/bash\nexec %s "$@" -fsanitize=address,undefined -fno-omit-frame-pointer -fno-sanitize-recover=undefined\n' % real)
        os.chmod(d + "/" + name, 0o755)
    libs = " ".join(subprocess.check_output(["gcc", "-print-file-name=" + l]).decode().strip() for l in ("libasan.so", "libubsan.so"))
    env = {
        "PATH": d + ":" + os.environ["PATH"], "LD_PRELOAD": libs, "PYTHONMALLOC": "malloc",
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1",
    }
    if case.index % 2:
        env["RETURNN_TEST"] = "1"  # asserts of the native code
    res = _child(case, "native", 1000 if case.tier == "quick" else 6000, env)
    case.count("children_asan" if res["native"] else "children_asan_without_native")


def leak(case):
    """the same op again and again: the number of live objects must not grow with it"""
    import gc
    import torch
    import numpy
    from returnn.tensor import Tensor, Dim

    def live():
        gc.collect()
        c = {"Tensor": 0, "Dim": 0, "torch": 0, "tuple": 0, "dict": 0, "list": 0}
        for o in gc.get_objects():
            if type(o) is Tensor:
                c["Tensor"] += 1
            elif type(o) is Dim:
                c["Dim"] += 1
            elif type(o) is torch.Tensor:
                c["torch"] += 1
        return c

    for _ in range(4 if case.tier == "quick" else 20):
        seed = case.rng.randrange(2**32)

        def rep(k):
            for _ in range(k):
                rng = random.Random(seed)
                rfops.run_one(rng, numpy.random.RandomState(seed), lambda *_a: None, lambda *_a: None)

        rep(5)
        c0 = live()
        rep(30)
        c1 = live()
        rep(30)
        c2 = live()
        for k in c0:
            case.require(not (c1[k] - c0[k] >= 30 and c2[k] - c1[k] >= 30), "live %s objects grow with every op" % k, counts=[c0, c1, c2], seed=seed)
        # references on long-lived objects
        case.count("leak_ops")
    _refs(case)
    case.desc(seed=case.seed)


def _refs(case):
    import sys
    import numpy
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Tensor, Dim

    rng = case.rng
    pool = rfops.Pool(rng)
    an = pool.names()
    bn = rng.choice([list(an), list(reversed(an)), pool.names()])
    nprng = case.np_rng()
    a, _ = rfops.make_tensor(pool, nprng, an, "float32")
    b, _ = rfops.make_tensor(pool, nprng, bn, "float32")
    big = an + [n for n in bn if n not in an]
    td = [pool.dim(n) for n in big]
    fns = {
        "add": lambda: rf.combine(a, "add", b, allow_broadcast_all_sources=True), "cmp": lambda: rf.compare(a, "<", b, allow_broadcast_all_sources=True),
        "order": lambda: rf.combine(a, "mul", b, allow_broadcast_all_sources=True, dim_order=td), "scalar": lambda: a * 2.5, "rscalar": lambda: 2.5 - a, "neg": lambda: -a, "abs": lambda: abs(b),
        "copy": lambda: a.copy(), "template": lambda: a.copy_template(), "template_dtype": lambda: a.copy_template("x", dtype="int32"), "compat": lambda: a.copy_compatible_to_dims(td), "raw": lambda: a.copy_compatible_to_dims_raw(td),
        "perm": lambda: a.get_out_permutation_to_dims(td), "eq": lambda: a == object(), "set": lambda: setattr(c, "raw_tensor", a.raw_tensor),
        "bad": lambda: a.copy_compatible_to_dims([]), "badkind": lambda: rf.combine(a, "nope", b), "badset": lambda: setattr(c, "raw_tensor", a.raw_tensor[None]),
    }
    c = a.copy_template()
    c.raw_tensor = a.raw_tensor
    objs = {"a": a, "b": b, "a.raw": a.raw_tensor, "b.raw": b.raw_tensor, "a.dims": a.dims, "b.dims": b.dims, "td": td, "torch.float32": torch.float32, "Tensor": Tensor, "Dim": Dim}
    for n, ds in pool.objs.items():
        for i, d in enumerate(ds):
            objs["dim %s%i" % (n, i)] = d
    for name, f in fns.items():

        def rep(k):
            for _ in range(k):
                try:
                    f()
                except Exception:
                    pass

        rep(3)
        r0 = {k: sys.getrefcount(o) for k, o in objs.items()}
        rep(40)
        r1 = {k: sys.getrefcount(o) for k, o in objs.items()}
        rep(40)
        r2 = {k: sys.getrefcount(o) for k, o in objs.items()}
        for k in objs:
            d1, d2 = r1[k] - r0[k], r2[k] - r1[k]
            case.require(not (abs(d1) >= 40 and abs(d2) >= 40), "every call of %s changes the reference count of %s" % (name, k), counts=[r0[k], r1[k], r2[k]], a=a, b=b)
        case.count("refcount_ops")


KINDS = {
    "ops": {"func": ops, "quick": 40, "thorough": 300},
    "asan": {"func": asan, "quick": 4, "thorough": 12},
    "pure": {"func": pure, "quick": 4, "thorough": 12},
    "leak": {"func": leak, "quick": 16, "thorough": 80},
}
