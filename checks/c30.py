"""C30: literal_py_to_pickle.literal_eval reads Python literals exactly as ast.literal_eval, is memory safe and never hides a broken file."""
import ast
import os
import pickle
import subprocess
import sys
import warnings
from vlib import core

RULE = (
    "text = random Python literal (nested lists, dicts, sets, str with all escapes, int of any size, float in every notation, None; random white space, quotes, trailing commas), the same with "
    "unsupported parts (tuples, bytes, bools, triple quotes, implicit concatenation, comments, hex, complex), its prefixes, and random byte edits of it; judged against ast.literal_eval, "
    "in process and in children with an ASan+UBSan build of the parser and guarded buffers. Non-trivial: at least one text accepted by ast.literal_eval."
)
ASSUMPTIONS = [
    "texts which ast.literal_eval rejects: only no crash, no memory error and no hang, plus rejection of cut-off container literals and strings", "nesting depth up to 100", "input is UTF-8",
]
MIN_COUNTS = {"supported": 8000, "other_valid": 1000, "prefixes": 3000, "edited": 5000, "asan_texts": 2000}
BUDGET = {"quick": 300, "thorough": 1500}


def worker_init():
    warnings.simplefilter("ignore")
    from vlib import ds as D

    D.quiet_log()
    from returnn.util.literal_py_to_pickle import literal_eval

    literal_eval("[1]")


CHARS = ["a", "b", " ", "'", '"', "\\", "\n", "\r", "\t", "\0", "\x01", "\x7f", "\x80", "ü", "߿", "ࠀ", "€", "￿", "😀", "\U0010ffff", "{", "}", "[", "]", ",", ":", "#", "N", "1", "."]


def gen_str(rng):
    n = rng.choice([0, 1, 2, 3, 8, 8, 30, 254, 255, 256, 257, 3000] if rng.random() < 0.1 else [0, 1, 2, 3, 8])
    pool = rng.sample(CHARS, rng.randint(1, len(CHARS)))
    s = "".join(rng.choice(pool) for _ in range(n))
    if rng.random() < 0.4:
        return repr(s)
    q = rng.choice("'\"")
    out = q
    for c in s:
        o = ord(c)
        opts = []
        if c not in (q, "\\", "\n", "\r", "\0"):
            opts += ["raw"] * 4
        if o < 256:
            opts.append("x")
        if o < 0x10000:
            opts.append("u")
        opts.append("U")
        if c in "\n\r\t\\'\"":
            opts += ["esc"] * 3
        h = rng.choice(opts)
        out += {"raw": c, "x": "\\x%02x" % o, "u": "\\u%04x" % o, "U": "\\U%08x" % o, "esc": "\\" + {"\n": "n", "\r": "r", "\t": "t"}.get(c, c)}[h]
        if rng.random() < 0.02:
            out += "\\\n"  # line continuation
    return out + q


def gen_int(rng):
    k = rng.random()
    if k < 0.4:
        v = rng.randint(-5, 300)
    elif k < 0.9:
        v = rng.choice([1, -1]) * (2 ** rng.choice([7, 8, 15, 16, 24, 31, 32, 40, 48, 62, 63, 64, 65, 100]) + rng.randint(-2, 2))
    else:
        v = rng.randint(-(10**40), 10**40)
    return ("+" if v >= 0 and rng.random() < 0.1 else "") + str(v)


def gen_float(rng):
    k = rng.random()
    if k < 0.3:
        return repr(rng.choice([0.0, -0.0, 1.0, 0.1, -1.5, 12.25, 1e5, 3.14159]))
    if k < 0.6:
        import struct

        while True:
            v = struct.unpack("<d", rng.randbytes(8))[0]
            if v == v and abs(v) != float("inf"):
                return repr(v)
    if k < 0.7:
        return rng.choice(["1.", ".5", "-.25", "1e5", "1E+5", "1e-5", "0.0e0", "1.e3", "1e400", "1e-400", "-1e999", "0." + "0" * 330 + "1", "9" * 400 + ".0", "+1.5", "00.5", "00e1"])
    return "%.*f" % (rng.randint(1, 20), rng.choice([1, -1]) * rng.random() * 10 ** rng.randint(-10, 15))


def ws(rng, p=0.3):
    return "".join(rng.choice([" ", "\n", "\t", " ", "\r\n"]) for _ in range(rng.randint(1, 3))) if rng.random() < p else ""


def gen_scalar(rng, other):
    if other and rng.random() < 0.15:
        return rng.choice(
            ["True", "False", "b'ab'", "()", "(1,)", "(1, 'b')", "'''a'''", '"""x\ny"""', "'a' 'b'", "r'\\n'", "0x10", "0b1", "0o7", "1_000", "1+2j", "-1j", "- 1", "'\\101'", "'\\a\\b\\f\\v'", "'\\N{DIGIT ONE}'",
             "'\\xAB'", "'\\uABCD'", "'\\d'", "u'a'", "set()", "1 # x\n", "(3)", "'\\ud800'", "B'x'", "1.5j", "('a'\n'b')", "...", "-0", "+0.0", "1E5", "1_0.5"])
    return rng.choice([gen_str, gen_str, gen_int, gen_float, lambda r: "None"])(rng)


def gen(rng, depth, other, hashable=False):
    k = rng.random()
    if depth <= 0 or hashable or k < 0.25:
        return gen_scalar(rng, other)
    n = rng.choice([0, 0, 1, 1, 2, 3, 6])
    if rng.random() < 0.03:
        n = 300

    def seq(items, a, b):
        s = a + ws(rng)
        for i, it in enumerate(items):
            s += it + ws(rng)
            if i < len(items) - 1 or (items and rng.random() < 0.3):
                s += "," + ws(rng, 0.6)
        return s + b

    d = depth - 1 if n < 50 else 0
    if k < 0.6:
        if n >= 50 and rng.random() < 0.7:
            f = rng.choice([lambda: "1.", lambda: "-1", lambda: "0.5", lambda: "''", lambda: "[]", lambda: "{}", lambda: "{1}", lambda: "-129"])
            return seq([f() for _ in range(n * 3)], "[", "]")
        return seq([gen(rng, d, other) for _ in range(n)], "[", "]")
    if k < 0.9:
        return seq([gen(rng, d, other, hashable=True) + ws(rng) + ":" + ws(rng, 0.6) + gen(rng, d, other) for _ in range(n)], "{", "}")
    return seq([gen(rng, d, other, hashable=True) for _ in range(max(n, 1))], "{", "}")


def same(a, b):
    """equal incl types, order of dicts, sign of zero"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(same(x, y) and same(a[x], b[y]) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        return a == b and sorted(map(repr, a)) == sorted(map(repr, b))
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


def reference(t):
    try:
        return ("ok", ast.literal_eval(t))
    except Exception as exc:
        return ("exc", type(exc).__name__)


def texts_for(rng):
    """:return: list of (text, what)"""
    depth = rng.choice([0, 1, 2, 3, 5])
    t = gen(rng, depth, False)
    if rng.random() < 0.02:
        t = "[" * 90 + t + "]" * 90
    t = rng.choice(["", "", " ", "\n"]) + t + rng.choice(["", " ", "  \t", "\n", "\n\n", "\r\n"])
    if rng.random() < 0.1:
        t += rng.choice(["\n# comment", "# c [\n", " #"])
    res = [(t, "supported")]
    o = gen(rng, rng.choice([0, 1, 2]), True)
    res.append((o, "other"))
    core_t = t.strip()
    if core_t and core_t[0] in "[{'\"" and "#" not in t:
        for _ in range(3):
            res.append((core_t[: rng.randrange(len(core_t))], "prefix"))
    for _ in range(4):
        e = list(rng.choice([t, o]))
        for _ in range(rng.choice([1, 1, 2, 5])):
            p = rng.randint(0, len(e))
            what = rng.choice(["del", "ins", "rep", "dup"])
            c = rng.choice(CHARS + ["e", "-", "+", "0", "9", "x", "u", "U", "'", '"', ",", ":", "]", "}"])
            if what == "ins":
                e.insert(p, c)
            elif p < len(e):
                if what == "del":
                    del e[p]
                elif what == "rep":
                    e[p] = c
                else:
                    q = rng.randint(p, min(len(e), p + 20))
                    e[p:p] = e[p:q]
        res.append(("".join(e), "edited"))
    return res


def judge(case, t, what, got, *, raw=None):
    ref = reference(t)
    det = dict(text=t if len(t) < 300 else t[:300] + "...", length=len(t))
    if what == "supported":
        case.count("supported")
        case.require(ref[0] == "ok", "generator made an invalid literal", **det)
        case.require(got[0] == "ok", "valid literal refused: %s" % (got[1],), **det)
        case.require(same(got[1], ref[1]), "wrong value", got=core.short(repr(got[1])), expected=core.short(repr(ref[1])), **det)
        return
    if what == "prefix":
        case.count("prefixes")
        case.require(got[0] == "exc", "cut-off literal accepted", got=core.short(repr(got[1])), **det)
        return
    if ref[0] == "ok":
        case.count("other_valid")
        case.require(got[0] == "exc" or same(got[1], ref[1]), "wrong value", got=core.short(repr(got[1])), expected=core.short(repr(ref[1])), **det)
    else:
        case.count("edited")


def inproc(case):
    from returnn.util.literal_py_to_pickle import literal_eval

    rng = case.rng
    n = 60
    first = None
    for _ in range(n):
        for t, what in texts_for(rng):
            first = first or t
            arg = t
            if rng.random() < 0.5:
                try:
                    arg = t.encode("utf8")
                except UnicodeEncodeError:
                    continue
            try:
                got = ("ok", literal_eval(arg))
            except Exception as exc:
                got = ("exc", "%s: %s" % (type(exc).__name__, exc))
            judge(case, t, what, got)
    case.desc(n=n, first=first[:40], seed=case.seed)


def asan(case):
    rng = case.rng
    tmp = case.tmpdir()
    ts = []
    while len(ts) < (1500 if case.tier == "quick" else 8000):
        ts += texts_for(rng)
    with open(tmp + "/texts.pkl", "wb") as f:
        pickle.dump([t for t, _ in ts], f)
    d = tmp + "/shim"
    os.makedirs(d)
    os.makedirs(tmp + "/cache")
    for name in ("g++", "gcc", "c++"):
        real = subprocess.run(["which", name], stdout=subprocess.PIPE).stdout.decode().strip() or "/usr/bin/" + name
        with open(d + "/" + name, "w") as f:
            f.write('#!/bin/bash\nexec %s "$@" -fsanitize=address,undefined -fno-omit-frame-pointer -fno-sanitize-recover=undefined\n' % real)
        os.chmod(d + "/" + name, 0o755)
    libs = " ".join(subprocess.check_output(["gcc", "-print-file-name=" + l]).decode().strip() for l in ("libasan.so", "libubsan.so"))
    env = dict(os.environ)
    env.update({
        "PATH": d + ":" + os.environ["PATH"], "LD_PRELOAD": libs, "PYTHONMALLOC": "malloc", "RETURNN_CACHE_DIR": tmp + "/cache",
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1",
    })
    p = subprocess.run([sys.executable, "-m", "vlib.litchild", tmp + "/texts.pkl", tmp + "/res.pkl"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=500)
    out = p.stdout.decode("utf8", "replace")
    if "MemoryError" in out or "Cannot allocate memory" in out:
        raise core.Inconclusive("child: out of memory")
    for pat in ("ERROR: AddressSanitizer", "runtime error:"):
        case.require(pat not in out, "sanitizer report", output=out[max(0, out.find(pat)):][:3000])
    case.require(p.returncode == 0 and os.path.exists(tmp + "/res.pkl"), "child died with code %s" % p.returncode, output=out[-2000:])
    with open(tmp + "/res.pkl", "rb") as f:
        res = pickle.load(f)
    case.require(len(res) == len(ts), "child results")
    for (t, what), got in zip(ts, res):
        judge(case, t, what, got)
    case.count("asan_texts", len(ts))
    case.desc(n=len(ts), seed=case.seed)


KINDS = {
    "inproc": {"func": inproc, "quick": 240, "thorough": 6000},
    "asan": {"func": asan, "quick": 4, "thorough": 24},
}
