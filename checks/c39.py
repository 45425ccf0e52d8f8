"""C39: the on-demand native code compile cache is safe for concurrent, crashing and changing users."""
import json
import os
import stat
import subprocess
import sys
import time

RULE = (
    "case = source x macros x include dependency x number of processes compiling and loading at the same time x compiler speed (a shim around the "
    "real compiler that writes its output progressively) x crash point of an earlier process. Non-trivial: at least one library loaded and called."
)
ASSUMPTIONS = ["after a crash, the age of a left-over lock file is set beyond the documented timeout, to stand for time passing"]
MIN_COUNTS = {"libs_called": 60}
BUDGET = {"quick": 240, "thorough": 1200}
CASE_TIMEOUT = 240


def _shim(tmp, mode):
    """compiler on the PATH: the real one, but the output file appears progressively, as from a slow compiler"""
    d = tmp + "/bin"
    os.makedirs(d, exist_ok=True)
    for name in ("gcc", "g++"):
        fn = f"{d}/{name}"
        with open(fn, "w") as f:
            f.write(
                f"""#!{sys.executable} -S
import os, sys, time, subprocess
real = "/usr/bin/{name}"
args = sys.argv[1:]
if "-o" in args:
    i = args.index("-o") + 1
    out = args[i] if os.path.isabs(args[i]) else os.path.join(os.getcwd(), args[i])
    tmp = os.path.join({tmp!r}, "shim-%i.so" % os.getpid())
    args[i] = tmp
    rc = subprocess.call([real] + args)
    if rc == 0:
        data = open(tmp, "rb").read()
        with open(out, "wb") as f:
            k = len(data) // 3
            f.write(data[:k]); f.flush(); time.sleep({mode})
            f.write(data[k:])
    sys.exit(rc)
os.execv(real, [real] + args)
"""
            )
        os.chmod(fn, 0o755)
    return d


def _env(tmp, shim):
    env = dict(os.environ)
    env["RETURNN_CACHE_DIR"] = tmp + "/cache"
    if shim:
        env["PATH"] = shim + ":" + env["PATH"]
    return env


def _run(case, specs, env, check=True):
    tmp = case.tmpdir()
    go = f"{tmp}/go-{time.monotonic_ns()}"
    procs = []
    for j, s in enumerate(specs):
        s["go"], s["ready"] = go, f"{go}-ready-{j}"
        procs.append(subprocess.Popen([sys.executable, "-m", "vlib.natc", json.dumps(s)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp))
    while not all(os.path.exists(s["ready"]) or p.poll() is not None for s, p in zip(specs, procs)):
        time.sleep(0.005)
    open(go, "w").close()
    res = []
    for p in procs:
        out = p.communicate()[0].decode(errors="replace")
        res.append((p.returncode, out))
    return res


def _expect(case, res, expected, what):
    for rc, out in res:
        line = [x for x in out.splitlines() if x.startswith("RESULT ")]
        case.require(rc == 0 and line, f"{what}: a user of the compile cache failed (rc {rc})", out=out[-1500:])
        case.equal(line[0], "RESULT [%i]" % expected, f"{what}: wrong code loaded")
        case.count("libs_called", 2)


def _spec(case, tmp, code, *, cpp, defines=None, max_delay=0.0, **kw):
    return dict(base="lib%i" % case.index, code=code, cpp=cpp, defines=defines or {}, seed=case.rng.randrange(10**9), max_delay=max_delay, cache=tmp + "/cache", **kw)


def _code(cpp, val, pad):
    ext = 'extern "C" ' if cpp else ""
    return f"/* {pad} */\n#ifndef ADD\n#define ADD 0\n#endif\n{ext}int answer(void) {{ return {val} + ADD; }}\n"


def concurrent(case):
    rng = case.rng
    tmp = case.tmpdir()
    cpp = rng.random() < 0.5
    val = rng.randrange(1000)
    n = rng.choice([3, 4, 5])
    slow = rng.choice([0, 0.1, 0.4])
    delay = rng.choice([0.0, 0.6, 1.5])
    env = _env(tmp, _shim(tmp, slow) if slow else None)
    case.desc(n=n, cpp=cpp, slow=slow, delay=delay)
    code = _code(cpp, val, "x" * rng.randrange(3))
    # the same library for all, and sometimes another variant at the same time
    specs = [_spec(case, tmp, code, cpp=cpp, max_delay=delay, rounds=rng.choice([1, 10])) for _ in range(n)]
    exp = [val] * n
    if rng.random() < 0.5:
        specs += [_spec(case, tmp, code, cpp=cpp, max_delay=delay, defines={"ADD": 1000}) for _ in range(2)]
        exp += [val + 1000] * 2
    res = _run(case, specs, env)
    for r, e in zip(res, exp):
        _expect(case, [r], e, "concurrent")
    # later users
    _expect(case, _run(case, [_spec(case, tmp, code, cpp=cpp)], env), val, "later")


def crash(case):
    """a process dies at some point while compiling: later users still get the right code"""
    rng = case.rng
    tmp = case.tmpdir()
    cpp = False
    val = rng.randrange(1000)
    env = _env(tmp, None)
    code = _code(cpp, val, "")
    at = 1 + case.index % 12
    case.desc(at=at)
    res = _run(case, [_spec(case, tmp, code, cpp=cpp, crash_at=at)], env)
    if res[0][0] == 77:
        case.count("crashes")
    if rng.random() < 0.3:  # the crash lost the tail of what was not synced: truncated output file
        for root, _, fns in os.walk(tmp + "/cache"):
            for fn in fns:
                if ".tmp" in fn:
                    os.truncate(os.path.join(root, fn), 0)
    for root, _, fns in os.walk(tmp + "/cache"):
        for fn in fns:
            if fn == "lock_file":
                os.utime(os.path.join(root, fn), (time.time() - 100000,) * 2)
    n = rng.choice([1, 1, 3])
    _expect(case, _run(case, [_spec(case, tmp, code, cpp=cpp) for _ in range(n)], env), val, f"after a crash at event {at}")


def change(case):
    """changed code, macros or include dependencies are never served by a stale library"""
    rng = case.rng
    tmp = case.tmpdir()
    env = _env(tmp, None)
    cpp = rng.random() < 0.3
    inc = tmp + "/inc"
    os.makedirs(inc)
    hdrs = {k: f"{inc}/{k}.h" for k in rng.sample(["dep", "dep2"], 2)}  # in any order
    ext = 'extern "C" ' if cpp else ""
    state = {"val": 1, "ADD": 0, "dep": 0, "dep2": 0}
    t = time.time() - 1000
    seen = []

    def write_dep(k):
        with open(hdrs[k], "w") as f:
            f.write("#define %s %i\n" % (k.upper(), state[k]))

    for k in hdrs:
        write_dep(k)
        os.utime(hdrs[k], (t, t))
    for step in range(4):
        code = f'#include "dep.h"\n#include "dep2.h"\n{ext}int answer(void) {{ return {state["val"]} + ADD + DEP + DEP2; }}\n'
        spec = _spec(case, tmp, code, cpp=cpp, defines={"ADD": state["ADD"]}, include_paths=[inc], include_deps=list(hdrs.values()))
        _expect(case, _run(case, [spec], env), sum(state.values()), f"after changes {seen}")
        what = rng.choice(["val", "ADD", "dep", "dep2", "back"])
        seen.append(what)
        if what == "val":
            state["val"] += 1
        elif what == "ADD":
            state["ADD"] += 10
        elif what == "back":
            state["val"], state["ADD"] = 1, 0
        else:
            state[what] += 100 if what == "dep" else 10000
            write_dep(what)
            hdr = hdrs[what]
            f = time.time() + 2 + step
            os.utime(hdr, (f, f))
            # the dependency is newer than any library built so far; later builds must not look older than it
            now = time.time()
            for root, _, fns in os.walk(tmp + "/cache"):
                for fn in fns:
                    if fn.endswith(".so"):
                        os.utime(os.path.join(root, fn), (now - 100, now - 100))
            os.utime(hdr, (now - 50, now - 50))
    case.desc(cpp=cpp, changes=seen)


KINDS = {
    "concurrent": {"func": concurrent, "quick": 24, "thorough": 200},
    "crash": {"func": crash, "quick": 24, "thorough": 96},
    "change": {"func": change, "quick": 10, "thorough": 60},
}
