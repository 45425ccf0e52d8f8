"""C11: FileCache integrity under histories, concurrency, crashes and errors."""
import errno
import os
import random
import shutil
import signal
import subprocess
import sys
import time
from vlib import core
from vlib import eng

RULE = (
    "history: random get/release/modify/restart/age/cleanup sequences with simulated disk sizes and injected errors, against a content and retention model; crash: child dies at an audit event or in the middle "
    "of the copy, files are aged (as if the lock timeout had passed), then another process asks again; concurrent: processes ask for the same and other files with injected delays; hold: files in use "
    "while other files come and go, with a delayed touch thread."
)
ASSUMPTIONS = [
    "sources do not change while they are copied and get newer mtimes when they change", "shutil.disk_usage is simulated (total minus cached blocks), as the docs name it as the trusted source",
    "passing of time is simulated by setting mtimes back; a used file must be refreshed within 60 s (the documented interval is 1 s)",
]
MIN_COUNTS = {"gets": 1500, "crashes": 30, "concurrent_gets": 100, "injected_errors": 30, "evictions": 30, "held_refreshed": 5}
BUDGET = {"quick": 300, "thorough": 1500}
CASE_TIMEOUT = 250


def worker_init():
    from vlib import ds as D

    D.quiet_log()
    import returnn.util.file_cache  # noqa
    import tree  # noqa


class Disk:
    """simulated disk_usage"""

    def __init__(self, cache_dir):
        self.cache_dir = cache_dir
        self.total = 10**12
        self.other = 0

    def used(self):
        n = 0
        for root, _, files in os.walk(self.cache_dir):
            for f in files:
                try:
                    n += os.stat(root + "/" + f).st_blocks * 512
                except OSError:
                    pass
        return n

    def __call__(self, path):
        u = self.used() + self.other
        return shutil._ntuple_diskusage(self.total, u, max(self.total - u, 0))


class Patched:
    def __init__(self, disk):
        self.disk = disk
        self.fail = []  # errors to inject, consumed from the front

    def __enter__(self):
        self.old = shutil.disk_usage, os.posix_fallocate, time.sleep
        shutil.disk_usage = self.disk

        def fallocate(fd, offset, length):
            if self.fail:
                e = self.fail.pop(0)
                if e[0] == "fallocate":
                    raise OSError(e[1], os.strerror(e[1]))
                self.fail.insert(0, e)
            if length > self.disk(None).free + 4 * 4096:  # the simulated disk is full (slack for the info and lock files)
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            return self.old[1](fd, offset, length)

        self.old_copy = shutil.copyfileobj

        def copyfileobj(a, b, *args):
            if self.fail and self.fail[0][0] == "copy":
                e = self.fail.pop(0)
                b.write(a.read(e[2]))
                raise OSError(e[1], os.strerror(e[1]))
            return self.old_copy(a, b, *args)

        os.posix_fallocate = fallocate
        shutil.copyfileobj = copyfileobj
        time.sleep = lambda s: self.old[2](min(s, 0.01))
        return self

    def __exit__(self, *args):
        shutil.disk_usage, os.posix_fallocate, time.sleep = self.old
        shutil.copyfileobj = self.old_copy


def _age(path, secs):
    for root, dirs, files in os.walk(path):
        for f in files + dirs:
            try:
                st = os.stat(root + "/" + f)
                os.utime(root + "/" + f, (st.st_atime - secs, st.st_mtime - secs))
            except OSError:
                pass


def _content(rng, size):
    return rng.randbytes(size) if size < 10000 else (rng.randbytes(997) * (size // 997 + 1))[:size]


def history(case):
    from returnn.util.file_cache import FileCache, CachedFile

    rng = case.rng
    tmp = case.tmpdir()
    src_dir, cache_dir = tmp + "/src", tmp + "/cache"
    os.makedirs(src_dir + "/sub dir")
    names = [src_dir + "/" + n for n in rng.sample(["a", "b.hdf", "sub dir/c", "sub dir/d", "e.copy", "f", "g"], rng.randint(2, 6))]
    content = {}
    clock = [time.time_ns() - 10**9 * 86400 * 400]

    def write(fn, same_size=False):
        size = len(content[fn]) if same_size else rng.choice([0, 1, 10, 4096, 50000, 200000])
        content[fn] = _content(rng, size)
        with open(fn + ".new", "wb") as f:
            f.write(content[fn])
        clock[0] += rng.choice([1, 1000, 10**9])
        os.utime(fn + ".new", ns=(clock[0], clock[0]))
        os.rename(fn + ".new", fn)

    for n in names:
        write(n)
    disk = Disk(cache_dir)
    always, wanted, ratio = 31.0, 1.0, rng.choice([0.0, 0.2, 0.5])
    small = rng.random() < 0.6

    mult = rng.choice([1.0, 2.0])

    def new():
        return FileCache(
            cache_directory=cache_dir, cleanup_files_always_older_than_days=always, cleanup_files_wanted_older_than_days=wanted, cleanup_disk_usage_wanted_free_ratio=ratio,
            cleanup_disk_usage_wanted_multiplier=mult, num_tries=rng.choice([1, 2, 3]))

    fc = new()
    if small:
        disk.total = rng.choice([300000, 600000, 1500000])
    held = []  # (dst, content, fc)
    log = []
    ops = ["get"] * 6 + ["cfg", "release", "release", "modify", "modify", "restart", "age", "age", "cleanup", "error", "error"]
    if rng.random() < 0.5:  # mostly retention
        ops = ["get"] * 6 + ["release"] * 5 + ["age"] * 3 + ["cleanup"] * 3
        small = True
        disk.total = rng.choice([300000, 600000])
    with Patched(disk) as patch:
        for step in range(rng.randint(5, 25) if case.tier == "quick" else rng.randint(10, 60)):
            op = rng.choice(ops)
            if op == "modify":
                fn = rng.choice(names)
                if any(h[0] == cache_dir + fn for h in held):
                    continue
                write(fn, same_size=rng.random() < 0.4)
                log.append(("modify", fn))
                continue
            if op == "restart":
                if held:
                    continue
                fc = new()
                log.append(("restart",))
                continue
            if op == "release":
                if held:
                    h = held.pop(rng.randrange(len(held)))
                    fc.release_files(rng.choice([h[0], [h[0]]]))
                    log.append(("release", h[0]))
                continue
            if op == "age":
                # time passes for everything not in use (files in use are refreshed all the time)
                secs = rng.choice([60, 3600, 2 * 86400, 40 * 86400])
                _age(cache_dir, secs)
                for h in held:
                    for f in (h[0], h[0] + ".returnn-info"):
                        if os.path.exists(f):
                            os.utime(f, None)
                log.append(("age", secs))
                continue
            before = _state(cache_dir)
            used = {h[0] for h in held}
            if op == "cleanup":
                need = rng.choice([0, 0, 1000, 100000, 10**7])
                log.append(("cleanup", need))
                free0 = disk(cache_dir).free if os.path.exists(cache_dir) else disk.total
                want = max(int(mult * need), int(ratio * disk.total))
                try:
                    full = time.time() - os.stat(cache_dir + "/.recent_full_cleanup").st_mtime > 650
                except FileNotFoundError:
                    full = True
                full = full or want > free0
                try:
                    fc.cleanup(need_at_least_free_space_size=need)
                    raised = None
                except Exception as exc:
                    raised = exc
                if os.path.exists(cache_dir):
                    _check_cleanup(case, before, _state(cache_dir), used, need, disk, raised, free0, wanted, always, log, want, full)
                continue
            fn = rng.choice(names)
            errs = []
            if op == "error":
                k = rng.randint(1, 3)
                errs = [rng.choice([("fallocate", errno.ENOSPC), ("copy", errno.ENOSPC, 5), ("copy", errno.EIO, 7)])] * k
                patch.fail = list(errs)
            log.append((op, fn, errs))
            try:
                if op == "cfg":
                    cfg, files = fc.handle_cached_files_in_config({"x": [1, CachedFile(fn)], "y": "z"})
                    dst = cfg["x"][1]
                    case.require(files == [dst] and cfg["x"][0] == 1 and cfg["y"] == "z", "wrong config", cfg=cfg, files=files)
                else:
                    dst = fc.get_file(fn)
            except Exception as exc:
                left, patch.fail = len(patch.fail), []
                after = _state(cache_dir)
                case.require(used <= set(after) | {cache_dir + f for f in names if content[f] == b"" and 0}, "a used file vanished", used=used, after=after, log=log)
                if errs and isinstance(exc, OSError) and exc.errno == errs[0][1]:
                    case.count("injected_errors")
                    # the same call works once the problem is gone
                    try:
                        dst = fc.get_file(fn)
                    except Exception as exc2:
                        if "free enough space" in str(exc2):
                            continue
                        case.require(False, "get_file does not recover from %r: %r" % (exc, exc2), log=log)
                elif "free enough space" in str(exc):
                    # only legitimate if it really did not fit
                    need = len(content[fn]) + 1
                    evictable = sum(v[1] for f, v in before.items() if f not in used and not f.endswith(".returnn-info") and time.time() - v[0] > 10)
                    free = disk.total - sum(v[1] for v in before.values())
                    case.require(free + evictable < need + 2 * 4096 * (len(before) + 2), "get_file gave up although there was space", need=need, free=free, evictable=evictable, log=log)
                    case.count("no_space")
                    continue
                else:
                    case.require(False, "get_file raised %r" % exc, log=log)
            if errs:
                if not patch.fail:
                    case.count("injected_errors")
                patch.fail = []
            case.count("gets")
            with open(dst, "rb") as f:
                got = f.read()
            case.require(got == content[fn], "cached content differs from the source (%i vs %i bytes)" % (len(got), len(content[fn])), fn=fn, log=log)
            case.require(dst != fn and os.path.abspath(dst).startswith(cache_dir + "/"), "not in the cache directory", dst=dst)
            held.append((dst, content[fn], fc))
            after = _state(cache_dir)
            case.require(used <= set(after), "a used file was removed", used=used, after=after, log=log)
            gone = [f for f in before if f not in after and not f.endswith(".returnn-info") and f != dst]
            for f in gone:
                if not f.endswith(".copy") or f in [cache_dir + n for n in names]:
                    case.count("evictions")
            for h in held:
                with open(h[0], "rb") as f:
                    case.require(f.read() == h[1], "content of a used file changed", fn=h[0], log=log)
            if rng.random() < 0.5:
                h = held.pop()
                fc.release_files(h[0])
        for fn in names:
            with open(fn, "rb") as f:
                case.require(f.read() == content[fn], "source was changed", fn=fn, log=log)
        case.require(sorted(os.listdir(src_dir)) == sorted({n[len(src_dir) + 1:].split("/")[0] for n in names} | {"sub dir"}), "files appeared next to the sources", ls=os.listdir(src_dir))
        for h in held:
            fc.release_files(h[0])
        del fc
    case.desc(log=log[:12], n=len(names), small=small)


def _state(d):
    res = {}
    for root, _, files in os.walk(d):
        for f in files:
            try:
                st = os.stat(root + "/" + f)
            except OSError:
                continue
            if f == ".recent_full_cleanup":
                continue
            res[root + "/" + f] = (st.st_mtime, st.st_blocks * 512)
    return res


def _check_cleanup(case, before, after, used, need, disk, raised, free0, wanted, always, log, want, full):
    now = time.time()
    data = {f: v for f, v in before.items() if not f.endswith(".returnn-info")}
    gone = [f for f in data if f not in after]
    kept = [f for f in data if f in after]
    case.count("evictions", len(gone))
    for f in gone:
        case.require(f not in used and now - data[f][0] > 9, "cleanup removed a file in use", fn=f, used=used, log=log)
        case.require(f + ".returnn-info" not in after, "info file of a removed file left", fn=f)
    freed = sum(data[f][1] for f in gone)
    must = need > free0
    for f in gone:
        age = (now - data[f][0]) / 86400
        if age < wanted and not must:
            case.require(False, "cleanup removed a recent file without need", fn=f, age_days=age, need=need, free=free0, log=log)
    if gone and kept:
        newest_gone = max(data[f][0] for f in gone)
        for f in kept:
            case.require(data[f][0] >= newest_gone - 1e-6, "cleanup kept an older file than one it removed", kept=f, log=log)
    if gone:
        last = max(gone, key=lambda f: data[f][0])
        if sum(1 for f in gone if data[f][0] == data[last][0]) == 1:
            free = free0 + freed - data[last][1]  # when the last one was removed
            age = (now - data[last][0]) / 86400
            case.require(age > always - 0.01 or need > free or (want > free and age > wanted - 0.01), "cleanup removed more than needed", fn=last, age_days=age, need=need, want=want, free=free, log=log)
            case.count("minimality")
    if raised is None and full:
        for f in kept:
            age = (now - data[f][0]) / 86400
            case.require(age < always + 0.01, "cleanup kept a file older than the limit", fn=f, age_days=age, log=log)
            case.require(free0 + freed >= want or age < wanted + 0.01, "cleanup did not free the wanted space", fn=f, age_days=age, want=want, free=free0 + freed, log=log)
        case.count("full_cleanups")
    if raised is None:
        case.require(free0 + freed >= need, "cleanup did not free enough but raised no error", need=need, free=free0, freed=freed, log=log)
    else:
        case.require("free enough space" in str(raised), "cleanup raised %r" % raised, log=log)
        rest = sum(data[f][1] for f in kept if now - data[f][0] > 11)
        case.require(free0 + freed + rest < need + 8192 * (len(data) + 1), "cleanup gave up although there was space", need=need, free=free0, freed=freed, rest=rest, log=log)
    case.count("cleanups")


def crash(case):
    """a child dies somewhere in get_file (another file may be in the cache already, or an old version of the same); then another process asks"""
    rng = case.rng
    tmp = case.tmpdir()
    src_dir, cache_dir = tmp + "/src", tmp + "/cache"
    os.makedirs(src_dir)
    fn, other = src_dir + "/x", src_dir + "/y"
    size = rng.choice([0, 1, 5000, 300000])
    old = _content(rng, rng.choice([size, 17]))
    new = _content(rng, size)
    t0 = time.time_ns() - 10**12
    with open(other, "wb") as f:
        f.write(b"other")

    def put(c, k):
        with open(fn, "wb") as f:
            f.write(c)
        os.utime(fn, ns=(t0 + k, t0 + k))

    def get(hook=None):
        from returnn.util.file_cache import FileCache

        def run():
            fc = FileCache(cache_directory=cache_dir)
            if hook:
                hook()
            return open(fc.get_file(fn), "rb").read()

        return eng.in_child(run)

    had_old = rng.random() < 0.6
    if had_old:
        put(old, 0)
        r = get()
        case.require(r == ("ok", old), "initial copy failed", r=r)
    put(new, 10**6 if rng.random() < 0.5 else 1)
    events = [0]
    point = rng.randint(1, 14)
    where = rng.choice(["audit", "audit", "audit", "copy"])

    def hook():
        if where == "copy":
            orig = shutil.copyfileobj

            def partial(a, b, *args):
                b.write(a.read(rng.choice([0, 1, size // 2, size])))
                b.flush()
                os._exit(77)

            shutil.copyfileobj = partial
            return

        def audit(event, args):
            if event in ("open", "os.rename", "os.remove", "os.mkdir", "os.utime", "os.truncate", "shutil.copyfile", "os.link"):
                if not any(isinstance(a, str) and (a.startswith(cache_dir) or a.startswith(src_dir)) for a in args):
                    return
                events[0] += 1
                if events[0] == point:
                    os._exit(77)

        sys.addaudithook(audit)

    r = get(hook)
    crashed = r[0] == "crash"
    if crashed:
        case.count("crashes")
        case.count("crash_%s" % where)
    else:
        case.require(r == ("ok", new), "wrong content", r=r)
    _age(cache_dir, 60)
    for _ in range(2):
        r = get()
        case.require(r[0] == "ok", "get_file fails after an earlier crash at %s %i" % (where, point), r=r, ls=[x for x in _state(cache_dir)])
        case.require(r[1] == new, "wrong content after an earlier crash at %s %i" % (where, point), got_old=r[1] == old, got_len=len(r[1]), new_len=len(new), had_old=had_old)
        case.count("gets")
    case.desc(where=where, point=point, size=size, had_old=had_old, crashed=crashed)


def concurrent(case):
    rng = case.rng
    tmp = case.tmpdir()
    src_dir, cache_dir = tmp + "/src", tmp + "/cache"
    os.makedirs(src_dir + "/s")
    files = {}
    for n in ["a", "b", "s/c", "s/d"][: rng.randint(1, 4)]:
        fn = src_dir + "/" + n
        files[fn] = _content(rng, rng.choice([10, 100000, 3000000]))
        with open(fn, "wb") as f:
            f.write(files[fn])
    procs = rng.randint(2, 5)
    go = time.time() + 0.5
    seeds = [rng.randrange(2**32) for _ in range(procs)]
    outs = []
    pids = []
    for i in range(procs):
        out = tmp + "/out%i" % i
        outs.append(out)
        pid = os.fork()
        if pid == 0:
            try:
                from returnn.util.file_cache import FileCache

                r = random.Random(seeds[i])
                orig = shutil.copyfileobj

                def slow(a, b, *args):
                    while True:
                        x = a.read(r.choice([1000, 100000, 1000000]))
                        if not x:
                            break
                        b.write(x)
                        time.sleep(r.random() * 0.02)

                shutil.copyfileobj = slow

                def audit(event, args):
                    if event in ("open", "os.rename", "os.remove") and r.random() < 0.3 and any(isinstance(a, str) and a.startswith(cache_dir) for a in args):
                        time.sleep(r.random() * 0.03)

                sys.addaudithook(audit)
                fc = FileCache(cache_directory=cache_dir)
                time.sleep(max(0, go - time.time()) + r.random() * 0.05)
                msg = []
                n = 0
                for _ in range(2):
                    l = list(files)
                    r.shuffle(l)
                    for fn in l:
                        dst = fc.get_file(fn)
                        got = open(dst, "rb").read()
                        n += 1
                        if got != files[fn]:
                            msg.append("wrong content of %s: %i bytes instead of %i" % (dst, len(got), len(files[fn])))
                        if r.random() < 0.5:
                            fc.release_files(dst)
                res = "\n".join(msg) or "ok %i" % n
            except BaseException:
                import traceback

                res = traceback.format_exc()
            with open(out, "w") as f:
                f.write(res)
            os._exit(0)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)
    for i, o in enumerate(outs):
        s = open(o).read() if os.path.exists(o) else "died"
        case.require(s.startswith("ok "), "process %i of %i: %s" % (i, procs, s))
        case.count("concurrent_gets", int(s[3:]))
    left = [f for f in _state(cache_dir) if f.endswith(".copy") or f.endswith(".lock")]
    case.require(not left, "temporary files left", left=left)
    case.desc(procs=procs, files=len(files), seeds=seeds)


def hold(case):
    """files in use stay refreshed while other files come and go"""
    from returnn.util.file_cache import FileCache
    import threading

    rng = case.rng
    tmp = case.tmpdir()
    src_dir, cache_dir = tmp + "/src", tmp + "/cache"
    os.makedirs(src_dir)
    main = threading.get_ident()
    active = [True]

    def audit(event, args):
        # a slow touch thread: files may have gone when it gets to them
        if active[0] and event == "os.utime" and threading.get_ident() != main and str(args[0]).startswith(cache_dir):
            time.sleep(0.15 * arng.random())

    arng = random.Random(case.seed)
    sys.addaudithook(audit)
    orig_copy = shutil.copyfileobj

    def slow(a, b, *args):
        time.sleep(0.1)
        orig_copy(a, b, *args)

    shutil.copyfileobj = slow
    fc = FileCache(cache_directory=cache_dir)
    held = []
    t_end = time.time() + rng.uniform(3, 6)
    i = 0
    disk = Disk(cache_dir)
    old_du = shutil.disk_usage
    shutil.disk_usage = disk
    try:
        while time.time() < t_end:
            fn = src_dir + "/f%i" % i
            with open(fn, "wb") as f:
                f.write(b"x" * rng.choice([1, 1000, 100000]))
            i += 1
            dst = fc.get_file(fn)
            if rng.random() < 0.5 and len(held) < 5:
                held.append(dst)
            else:
                fc.release_files(dst)
                if rng.random() < 0.5:
                    os.remove(dst)  # e.g. cleaned up by another process
            time.sleep(rng.random() * 0.03)
        if not held:
            held.append(fc.get_file(src_dir + "/f0"))
        # time passes, for all files; those in use must be refreshed
        _age(cache_dir, 3600)
        aged = time.time() - 1800
        t0 = time.time()
        while time.time() - t0 < 60 and any(os.stat(h).st_mtime < aged for h in held):
            time.sleep(0.2)
        stale = [h for h in held if os.stat(h).st_mtime < aged]
        case.require(not stale, "used files are not refreshed any more", stale=stale, held=held, gets=i)
        case.count("held_refreshed", len(held))
        # another process needs the space
        def other():
            shutil.disk_usage = disk
            disk.total = disk.used() + 1000
            FileCache(cache_directory=cache_dir).cleanup(need_at_least_free_space_size=rng.choice([1500, 5000]))

        r = eng.in_child(other)
        for h in held:
            case.require(os.path.exists(h), "a used file was removed by another process", fn=h, r=r)
        case.count("gets", i)
        for h in held:
            fc.release_files(h)
    finally:
        active[0] = False
        shutil.disk_usage = old_du
        shutil.copyfileobj = orig_copy
    case.desc(held=len(held), gets=i)


KINDS = {
    "history": {"func": history, "quick": 2500, "thorough": 3000},
    "crash": {"func": crash, "quick": 90, "thorough": 800},
    "concurrent": {"func": concurrent, "quick": 16, "thorough": 120},
    "hold": {"func": hold, "quick": 8, "thorough": 60},
}
