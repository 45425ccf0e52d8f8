"""C31: config: the value an option gets is the one written, in every format, by every accessor, after overrides, and in every process."""
import io
import json
import os
import pickle
import sys

RULE = (
    "formats: one random set of options written as Python, JSON (with comments), line-based text and command line, read by every accessor, against the written values; "
    "override: Python config with functions that use the options, several config files and command line overrides via init_config, against plain exec of the same source; "
    "pickle: random Python config (functions with all kinds of parameters, closures with shared state, lambdas, classes, arrays, shared and cyclic containers, dims), pickled and read in this "
    "and in a spawned process, results of random probe expressions against those of plain exec. Non-trivial: >=1 probe."
)
ASSUMPTIONS = [
    "option values have the type the accessor asks for", "line-based values without ',' at the start, '#' and line breaks", "command line values for typed options are Python expressions or the option is a str",
    "classes in pickled configs without classmethod, staticmethod, property, slots, metaclass, Enum; no closures which refer to themselves (these raise when pickled)",
]
MIN_COUNTS = {"accessor_reads": 5000, "overrides": 300, "probes": 1500, "child_probes": 60}
BUDGET = {"quick": 300, "thorough": 1500}
CASE_TIMEOUT = 300


def worker_init():
    from vlib import ds as D

    D.quiet_log()
    from returnn import config  # noqa
    import returnn.tensor  # noqa


def _scalar(rng, t):
    if t == "int":
        return rng.choice([0, 1, -1, 7, 10**12, rng.randint(-1000, 1000)])
    if t == "float":
        return rng.choice([0.0, 1.5, -2.25, 1e-7, 1e300, rng.random(), -rng.random() * 1e5])
    if t == "bool":
        return rng.random() < 0.5
    return rng.choice(["abc", "a b", "x/y.z", "ünï", "1", "true", "a=b", "file:///q", "A-B_c", "{x}", "//x", 'q"q', "b\\\\", "/*", "*/"])


def formats(case):
    from returnn.config import Config

    rng = case.rng
    opts = {}
    for i in range(rng.randint(1, 10)):
        t = rng.choice(["int", "float", "bool", "str", "ints", "floats", "strs"])
        k = rng.choice(["opt_", "X", "a.b" if 0 else "ab", "learning_rate", "batch_size"]) + str(i)
        if t.endswith("s"):
            opts[k] = (t, [_scalar(rng, t[:-1]) for _ in range(rng.randint(1, 4))])
        else:
            opts[k] = (t, _scalar(rng, t))
    tmp = case.tmpdir()

    def txt(t, v):
        if t == "bool":
            return rng.choice({True: ["1", "true", "True", "yes", "on", "TRUE"], False: ["0", "false", "no", "off", "False"]}[v])
        if t.endswith("s"):
            return ",".join(txt(t[:-1], x) for x in v)
        return repr(v) if t == "float" else str(v)

    def ok_txt(t, v):
        vs = v if t.endswith("s") else [v]
        return not t.startswith("str") or all("," not in x and "#" not in x and x.strip() == x and x for x in vs)

    # python
    c_py = Config()
    src = "#!rnn.py\n" + "".join("%s = %r\n" % (k, tuple(v) if isinstance(v, list) and rng.random() < 0.3 else v) for k, (t, v) in opts.items())
    if rng.random() < 0.5:
        fn = f"{tmp}/c{case.index}.py"
        with open(fn, "w") as f:
            f.write(src)
        c_py.load_file(fn)
    else:
        c_py.load_file(io.StringIO(src))
    # json with comments
    c_js = Config()
    items = [json.dumps(k) + rng.choice([":", " : ", ":\n"]) + json.dumps(v, ensure_ascii=rng.random() < 0.5) for k, (t, v) in opts.items()]
    cm = lambda: rng.choice(["", "", " ", "\n", "// c \"x\" {\n", "/* c, \" \n */", "\t"])
    js = "{" + cm() + ("," + cm()).join(x + cm() for x in items) + "}" + rng.choice(["", "\n", " /* end */"])
    if rng.random() < 0.5:
        fn = f"{tmp}/c{case.index}.json"
        with open(fn, "w") as f:
            f.write(js)
        c_js.load_file(fn)
    else:
        c_js.load_file(io.StringIO(js))
    # lines
    c_ln = Config()
    c_cl = Config()
    lines, args = [], []
    has_txt = {}
    for k, (t, v) in opts.items():
        if not ok_txt(t, v):
            continue
        has_txt[k] = txt(t, v)
        lines.append(rng.choice(["", " "]) + k + rng.choice([" ", "\t", "   "]) + has_txt[k] + rng.choice(["", " # comment", " ", "#c"]))
        if rng.random() < 0.2:
            lines.append(rng.choice(["", "# only comment", "   "]))
        val = has_txt[k]
        args += ["++" + k, "+" + val if val.startswith("-") else val]
    rng.shuffle(lines)
    c_ln.load_file(io.StringIO("\n".join(lines) + "\n") if lines else io.StringIO("# nothing\n"))
    c_cl.parse_cmd_args(args)
    case.desc(opts={k: repr(v)[:30] for k, v in opts.items()}, seed=case.seed)

    def chk(got, exp, what):
        case.count("accessor_reads")
        case.require(type(got) is type(exp) and got == exp, what, got=got, expected=exp)

    for name, c in (("python", c_py), ("json", c_js), ("lines", c_ln), ("cmdline", c_cl)):
        typed = name in ("python", "json")
        for k, (t, v) in opts.items():
            if not typed and k not in has_txt:
                continue
            w = f"{name}: {k}: "
            case.equal(c.has(k), True, w + "has")
            case.equal(c.is_typed(k), typed, w + "is_typed")
            if t == "int":
                chk(c.int(k, None), v, w + "int")
                chk(c.int_list(k), [v], w + "int_list")
                chk(float(c.float(k, None)), float(v), w + "float of int")
                chk(c.int_pair(k), (v, v), w + "int_pair")
                chk(c.value(k, None), str(v) if typed else has_txt[k], w + "value")
            elif t == "float":
                chk(c.float(k, None), v, w + "float")
                chk(c.float_list(k), [v], w + "float_list")
            elif t == "bool":
                chk(c.bool(k, None), v, w + "bool")
                chk(c.is_true(k), v, w + "is_true")
                chk(c.bool_or_other(k), v, w + "bool_or_other")
            elif t == "str":
                chk(c.value(k, None), v, w + "value")
                chk(c.list(k), [v], w + "list")
                chk(c.opt_typed_value(k), v, w + "opt_typed_value")
            elif t == "ints":
                chk(c.int_list(k), v, w + "int_list")
                i = rng.randrange(len(v))
                chk(c.int(k, None, index=i), v[i], w + f"int index {i}")
                chk(c.value(k, None), ",".join(map(str, v)), w + "value")
                if len(v) == 2 and typed:
                    chk(c.int_pair(k), tuple(v), w + "int_pair")
            elif t == "floats":
                chk([float(x) for x in c.float_list(k)], v, w + "float_list")
                i = rng.randrange(len(v))
                chk(c.float(k, None, index=i), v[i], w + f"float index {i}")
            elif t == "strs":
                chk(c.list(k), v, w + "list")
                chk(c.value(k, None, list_join_str="|"), "|".join(v), w + "value joined")
                i = rng.randrange(len(v))
                chk(c.value(k, None, index=i), v[i], w + f"value index {i}")
            if typed:
                got = c.typed_value(k)
                case.equal(list(got) if isinstance(got, tuple) else got, v, w + "typed_value")
                tp = {"int": int, "float": float, "bool": bool, "str": str}.get(t, (list, tuple))
                case.equal(c.is_of_type(k, tp), True, w + "is_of_type")
                case.equal(c.get_of_type(k, complex, 3j), 3j, w + "get_of_type of other type")
        d = object()
        for f in (c.int, c.bool, c.value, c.opt_typed_value, c.typed_value, c.bool_or_other):
            case.require(f("not_there", d) is d, f"{name}: default of {f.__name__}")
        case.equal(c.has("not_there"), False, "has(not_there)")
        case.equal((c.list("not_there", ["q"]), c.int_list("not_there", [3]), c.float("not_there", 0.5), c.float_list("not_there"), c.int_pair("not_there", (1, 2))), (["q"], [3], 0.5, [], (1, 2)), "defaults")
    # pairs a:b
    c = Config()
    a, b = rng.randint(0, 100), rng.randint(0, 100)
    c.load_file(io.StringIO(f"pair {a}:{b}\n"))
    case.equal(c.int_pair("pair"), (a, b), "int_pair a:b")


def override(case):
    """init_config with files, extra updates and command line, last one wins; functions see the final values"""
    from returnn import __main__ as rnn
    from returnn.config import set_global_config

    rng = case.rng
    tmp = case.tmpdir()
    names = [f"v{i}" for i in range(rng.randint(2, 6))]
    files = []
    vals = {}
    ns = {}
    n_files = rng.choice([1, 1, 2, 3])
    for fi in range(n_files):
        src = "#!rnn.py\n"
        for n in names:
            if n not in vals or rng.random() < 0.4:
                v = rng.choice([rng.randint(-50, 50), rng.random(), [1, 2, rng.randint(0, 9)], {"a": 1, "b": [rng.randint(0, 9)]}, "str%i" % rng.randint(0, 9), None, True, (1, "x")])
                vals[n] = v
                src += "%s = %r\n" % (n, v)
        src += "def get%i():\n    return [%s]\n" % (fi, ", ".join(names))
        fn = f"{tmp}/f{fi}" + rng.choice([".py", ".config"])
        with open(fn, "w") as f:
            f.write(src)
        files.append(fn)
    extra = {n: rng.choice([77, "extra", [5]]) for n in names if rng.random() < 0.2}
    vals.update(extra)
    args = []
    over = {}
    new = {}
    for n in names + ["fresh0", "fresh1"]:
        if rng.random() < 0.5:
            continue
        if n.startswith("fresh"):
            v = str(rng.randint(-9, 9))
            new[n] = v
        elif isinstance(vals[n], str):
            v = rng.choice(["other", "1", "[1", "a b"])
            over[n] = v
        else:
            o = rng.choice([rng.randint(-99, 99), -rng.random(), [3, "q"], {"z": (1, 2)}, False, "s"])
            over[n] = o
            v = repr(o)
        args += ["++" + n, "+" + v if v.startswith("-") else v]
    # if an extra update changes the type, the command line is applied to that type; keep the two disjoint then
    for n in list(over):
        if n in extra:
            extra.pop(n)
            over.pop(n)
            i = args.index("++" + n)
            del args[i : i + 2]
            extra_removed = True
    if extra != {k: v for k, v in extra.items()}:
        pass
    use_first = rng.random() < 0.5
    case.desc(names=len(names), files=n_files, over=sorted(over), new=sorted(new), extra=sorted(extra), use_first=use_first, seed=case.seed)
    # expected: plain exec of all files in order, then extra, then overrides
    exp_ns = {}
    for fn in files:
        with open(fn) as f:
            exec(f.read(), exp_ns)
    exp_ns.update(extra)
    exp_ns.update(over)
    try:
        rnn.init_config(
            config_filename=files[0] if use_first else None, command_line_options=(files[1:] if use_first else files) + args, extra_updates=dict(extra) or None)
        c = rnn.config
        for n in names:
            case.equal(c.typed_value(n), exp_ns[n], f"option {n}")
            case.count("overrides")
        for fi in range(n_files):
            case.equal(c.typed_value(f"get{fi}")(), [exp_ns[n] for n in names], f"options as seen by a function of file {fi}")
        for n, v in new.items():
            case.equal(c.int(n, None), int(v), f"new option {n}")
            case.count("overrides")
    finally:
        set_global_config(None)
        rnn.config = None


# ---------------------------------------------------------------- pickling


def _snippets(rng):
    """list of (source, probes); {p} is a unique prefix"""
    k = rng.randint(-9, 99)
    s = rng.choice(["'a'", "[1, 'b']", "{'x': (1, 2)}", "None", "2.5", "b'q'", "{1, 2}", "frozenset([3])", "range(4)", "1+2j", "10**30", "-0.0"])
    s = s.replace("{", "{{").replace("}", "}}")
    return [
        (f"def {{p}}f(*, a={k}, b={s}):\n    return a, b", [f"{{p}}f()", "{p}f(b='y')", "{p}f(a=3)"]),
        (f"def {{p}}f(a, b={s}, *args, c, d={k}, **kw):\n    return a, b, args, c, d, sorted(kw.items())", ["{p}f(1, c=3, e=5)", "{p}f(1, 2, 3, c=0, d=1)"]),
        (f"def {{p}}mk(n):\n    def inc(by=1):\n        nonlocal n\n        n += by\n        return n\n    def get():\n        return n\n    return inc, get\n{{p}}inc, {{p}}get = {{p}}mk({k})", ["({p}inc(), {p}inc(3), {p}get())", "{p}mk(1)[1]()"]),
        ("def {p}fac(n):\n    return 1 if n <= 1 else n * {p}fac(n - 1)", ["{p}fac(6)"]),
        (f"{{p}}l = [lambda x, i=i: (x, i, {{p}}k) for i in range(3)]\n{{p}}k = {k}", ["[g(1) for g in {p}l]"]),
        (f"import functools as {{p}}ft\ndef {{p}}g(a, b, c=1, *, d=2):\n    return a, b, c, d\n{{p}}h = {{p}}ft.partial({{p}}g, 1, c={k})", ["{p}h(2)", "{p}h(2, d=5)"]),
        (f"class {{p}}A:\n    z = {k}\n    def __init__(self, x, *, y={k}):\n        self.x = x\n        self.y = y\n    def m(self, q=2):\n        return self.x, self.y, self.z, q\n    def __eq__(self, o):\n        return self.x == o.x\n    def __hash__(self):\n        return hash(self.x)\n{{p}}a = {{p}}A({s!r})\n{{p}}bm = {{p}}a.m\n{{p}}d = {{{{{{p}}A(1): 'q'}}}}",
         ["{p}a.m()", "{p}A(1).m(q=3)", "type({p}a) is {p}A", "{p}bm()", "{p}bm.__self__ is {p}a", "{p}d[{p}A(1)]"]),
        (f"class {{p}}A:\n    def m(self):\n        return {k}\nclass {{p}}B({{p}}A):\n    def m(self):\n        return [super().m(), 'B']\n    class C:\n        v = {k}\n{{p}}b = {{p}}B()", ["({p}b.m(), isinstance({p}b, {p}A), {p}B.__mro__[1] is {p}A, {p}b.C.v)"]),
        (f"def {{p}}f():\n    'doc'\n    return {{p}}f.k\n{{p}}f.k = {k}", ["({p}f(), {p}f.__doc__, {p}f.__name__)"]),
        (f"import functools as {{p}}ft\ndef {{p}}dec(fn):\n    @{{p}}ft.wraps(fn)\n    def w(*a, **k):\n        return ('w', fn(*a, **k))\n    return w\n@{{p}}dec\ndef {{p}}f(x, *, y={k}):\n    return x, y", ["({p}f(1), {p}f(1, y=0), {p}f.__name__)"]),
        ("def {p}g(n):\n    for i in range(n):\n        yield i * i", ["list({p}g(4))"]),
        (f"import math as {{p}}m\ndef {{p}}f(x):\n    import numpy as np\n    return float(np.sum(np.array([x, {{p}}m.pi]))), {{p}}m.floor({k} + 0.5)", ["{p}f(2)"]),
        (f"import numpy as {{p}}np\n{{p}}x = {{p}}np.arange(6, dtype='{rng.choice(['float32', 'int8', 'float64', 'uint16'])}').reshape(2, 3)\n{{p}}y = {{p}}np.asfortranarray({{p}}x)\n{{p}}z = {{p}}np.array({k})\n{{p}}e = {{p}}np.zeros((0, 3), dtype='int8')\n{{p}}u = {{p}}np.array(['a', 'bcd'])\n{{p}}v = {{p}}x.T\n{{p}}s = {{p}}x[:, ::2]",
         ["[(k.tolist(), str(k.dtype), k.shape) for k in ({p}x, {p}y, {p}z, {p}e, {p}u, {p}v, {p}s)]", "{p}x.__setitem__((0, 0), 1)"]),
        (f"{{p}}a = [{k}]\n{{p}}b = {{{{'x': {{p}}a, 'y': {{p}}a}}}}\n{{p}}a.append({{p}}b)\n{{p}}t = ({{p}}a, [{{p}}b])", ["({p}b['x'] is {p}a, {p}b['y'] is {p}a, {p}a[1] is {p}b, {p}t[0] is {p}a, {p}t[1][0] is {p}b, {p}a[0])"]),
        ("from returnn.tensor import Dim, batch_dim\n{p}t = Dim(None, name='t')\n{p}f = Dim(4, name='f')\nextern_data{p} = {{'data': {{'dims': [batch_dim, {p}t, {p}f]}}, 'c': {{'dims': [batch_dim, {p}t], 'sparse_dim': {p}f}}}}\ndef {p}g(d={p}t):\n    return {p}t, d",
         ["(extern_data{p}['data']['dims'][1] is {p}t, extern_data{p}['c']['sparse_dim'] is {p}f, {p}g()[0] is {p}t, {p}g()[1] is {p}t, extern_data{p}['c']['dims'][0] is batch_dim, {p}t == {p}f, {p}t.dimension, {p}f.dimension, {p}t.name)",
          "__import__('returnn.tensor').tensor.batch_dim == extern_data{p}['data']['dims'][0]"]),
        (f"{{p}}q = {k}\ndef {{p}}f():\n    return config.typed_value('{{p}}q'), config.int('{{p}}q', 0), config.has('{{p}}nope')", ["{p}f()"]),
        ("{p}cnt = 0\ndef {p}f():\n    global {p}cnt\n    {p}cnt += 1\n    return {p}cnt", ["({p}f(), {p}f(), {p}cnt)"]),
        (f"{{p}}v = {s}\n{{p}}w = [{s}, {s}]\n{{p}}inf = float('inf')", ["({p}v, {p}w, {p}inf)"]),
        (f"import collections as {{p}}c\n{{p}}o = {{p}}c.OrderedDict(a={k}, b=2)\n{{p}}dd = {{p}}c.defaultdict(list, x=[1])\n{{p}}ty = [int, list, {{p}}c.Counter]\n{{p}}mod = {{p}}c", ["({p}o, {p}dd['x'], {p}dd['q'], {p}ty[0]('3'), {p}mod.__name__)"]),
        (f"def {{p}}mk(k):\n    def f(x, *, s=k, t={k}):\n        return x, s, t, k\n    return f\n{{p}}f = {{p}}mk({s})\n{{p}}g = {{p}}mk(0)", ["({p}f(1), {p}g(2, t=0))"]),
    ]


def _build(rng):
    src = "#!rnn.py\nfrom __future__ import annotations\n" if rng.random() < 0.3 else "#!rnn.py\n"
    probes = []
    parts = []
    for i in range(rng.randint(1, 6)):
        code, pr = rng.choice(_snippets(rng))
        p = f"s{i}_"
        parts.append(code.format(p=p))
        probes += [x.format(p=p) for x in pr]
        if i and rng.random() < 0.3:
            # use something of another part, defined later or earlier
            parts.append(f"x{i}_ref = lambda: sorted(k for k in globals() if k.startswith('s{rng.randint(0, i)}_'))")
            probes.append(f"x{i}_ref()")
    return src + "\n".join(parts) + "\n", probes


def _eval(ns, probes):
    res = []
    for p in probes:
        try:
            res.append(repr(eval(p, ns)))
        except Exception as exc:
            res.append("EXC %s: %s" % (type(exc).__name__, exc))
    return res


def _load(src, overrides=()):
    from returnn.config import Config

    c = Config()
    c.load_file(io.StringIO(src))
    for k, v in overrides:
        c.add_line(k, v)
    return c


def pickle_(case):
    rng = case.rng
    src, probes = _build(rng)
    case.desc(src=src, n=len(probes))
    exp = _eval(_load(src).typed_dict, probes)
    case.require(not any(e.startswith("EXC") for e in exp), "bad snippet", exp=exp)
    c = _load(src)
    for n in range(rng.choice([1, 1, 2])):  # also a second generation
        c = pickle.loads(pickle.dumps(c))
    got = _eval(c.typed_dict, probes)
    for p, g, e in zip(probes, got, exp):
        case.require(g == e, "after pickling: " + p, got=g, expected=e, src=src)
        case.count("probes")
    case.require(c.typed_dict["config"] is c, "'config' in the config is not the config itself")


def child(case):
    from returnn.config import global_config_ctx, SubProcCopyGlobalConfigPreInitFunc
    from returnn.util.multi_proc_non_daemonic_spawn import NonDaemonicSpawnContext
    from vlib import cfgchild

    rng = case.rng
    src, probes = _build(rng)
    src += "def zz_func(x, *, y=3):\n    return x, y, zz_val\nzz_val = 1\n"
    probes = probes + ["zz_func(0)"]
    val = rng.randint(2, 99)
    over = [("zz_val", str(val))] if rng.random() < 0.7 else []
    case.desc(src=src, n=len(probes), over=over)
    exp = _eval(_load(src, over).typed_dict, probes)
    c = _load(src, over)
    with global_config_ctx(c):
        ctx = NonDaemonicSpawnContext(process_pre_init_func=SubProcCopyGlobalConfigPreInitFunc())
        a, b = ctx.Pipe()
        proc = ctx.Process(target=cfgchild.run, args=(b, probes, c.typed_dict["zz_func"]))
        proc.start()
        b.close()
        try:
            res = a.recv()
        except EOFError:
            proc.join()
            case.require(False, "child died with code %s" % proc.exitcode, src=src)
        proc.join()
    case.equal(proc.exitcode, 0, "child exit code")
    for p, g, e in zip(probes, res["probes"], exp):
        case.require(g == e, "in the child: " + p, got=g, expected=e, src=src)
        case.count("child_probes")
    case.equal(res["func"], repr((5, 3, val if over else 1)), "function of the config as argument of the process")
    case.require(res["same"], "function of the config is another object in the child")


KINDS = {
    "formats": {"func": formats, "quick": 2000, "thorough": 30000},
    "override": {"func": override, "quick": 1500, "thorough": 15000},
    "pickle": {"func": pickle_, "quick": 3000, "thorough": 20000},
    "child": {"func": child, "quick": 60, "thorough": 300},
}
