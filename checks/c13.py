"""C13: a crash at any point leaves consistent files, from which the training continues to the same result."""
import errno
import os
from vlib import eng
from vlib.trainsc import Scenario

RULE = (
    "case = random training (model, optimizer, learning rate control, dev sets, save interval, model cleanup), run once to the end while every file system event "
    "below its output directory is counted; then re-run in fresh directories with the process ended at the n-th event, SIGKILLed while a file is being written, "
    "or with the disk running full; after each crash every file under a final name is read and compared to the uninterrupted run, then the training is resumed, "
    "maybe crashed again, and its final state compared bit by bit. Non-trivial: at least one crash happened after training began."
)
ASSUMPTIONS = ["CPU, one thread per process; process crash (not power loss): what was written to the OS stays"]
MIN_COUNTS = {"crashes": 60, "files_checked": 200}
BUDGET = {"quick": 420, "thorough": 2400}
CASE_TIMEOUT = 600


def worker_init():
    eng.torch_init()


def _small(case, **kw):
    rng = case.rng
    s = Scenario(case, epochs=rng.choice([3, 4]), n=rng.randint(5, 8), workers=False, **kw)
    if rng.random() < 0.3:
        s.cfg["apply_cleanup_old_models_to_optim_states"] = True
    return s


def _straight(case, s, **kw):
    st, res = s.run("straight", **kw)
    case.require(st == "ok", "uninterrupted training failed", status=st, res=res)
    return res


class Ref:
    """all checkpoints of the straight run: from a run which keeps everything"""

    def __init__(self, case, s):
        cleanup = s.cfg.pop("cleanup_old_models", None)
        keep = s.cfg.get("save_interval")
        s.cfg["save_interval"] = 1
        apply = s.cfg.get("apply_cleanup_old_models_to_optim_states")
        s.cfg["apply_cleanup_old_models_to_optim_states"] = True
        st, res = s.run("ref")
        case.require(st == "ok", "uninterrupted training failed", status=st, res=res)
        for k, v in [("cleanup_old_models", cleanup), ("save_interval", keep), ("apply_cleanup_old_models_to_optim_states", apply)]:
            s.cfg.pop(k, None)
            if v is not None:
                s.cfg[k] = v
        self.ck = {e: {k: eng.read_ckpt(fn) for k, fn in d.items()} for e, d in s.ckpts("ref").items()}
        self.scores = s.scores("ref")
        case.require(sorted(self.ck) == list(range(1, s.epochs + 1)), "checkpoints of the uninterrupted run", got=sorted(self.ck))
        for e in self.ck:
            case.require(set(self.ck[e]) == {"model", "opt"}, f"model and optimizer state of epoch {e} both kept", got=sorted(self.ck[e]))


def _check_files(case, s, name, ref, what):
    """everything under a final name is complete and is what the uninterrupted run wrote"""
    cks = s.ckpts(name)
    for e, d in cks.items():
        for kind, fn in d.items():
            case.count("files_checked")
            try:
                got = eng.read_ckpt(fn)
            except Exception as exc:
                case.require(False, f"{what}: {os.path.basename(fn)} is not readable", exc=repr(exc))
            dd = eng.diff(got, ref.ck[e][kind])
            case.require(dd is None, f"{what}: {os.path.basename(fn)} differs from the uninterrupted training", diff=dd)
    fn = s.dir(name) + "/lr/scores"
    if os.path.exists(fn):
        case.count("files_checked")
        try:
            sc = s.scores(name)
        except Exception as exc:
            case.require(False, f"{what}: score file not readable", exc=repr(exc))
        for e in range(1, max(cks, default=0) + 1):
            case.require(e in sc, f"{what}: score file lost epoch {e}", got=sorted(sc), models=sorted(cks))
            case.require(sc[e][1], f"{what}: score file has no scores for epoch {e}, although models up to epoch {max(cks)} exist")
        for e in sc:
            for k, v in sc[e][1].items():
                case.require(eng.diff(v, ref.scores[e][1].get(k)) is None, f"{what}: score {k} of epoch {e} differs", got=v, expected=ref.scores[e][1].get(k))
    else:
        case.require(not cks, f"{what}: models exist but the score file does not", models=sorted(cks))
    return max(cks, default=0)


def _resume_and_compare(case, s, name, ra, what, trace=True):
    st, rb = s.run(name)
    case.require(st == "ok", f"{what}: training could not be resumed", status=st, res=rb)
    s.same_result(case, "straight", name, ra, rb, what, trace=trace)
    # at least the files of the uninterrupted training; a crash might leave some more behind
    got, exp = _files(s, name), _files(s, "straight")
    for e in exp:
        case.require(set(exp[e]) <= set(got.get(e, [])), f"{what}: checkpoint of epoch {e} is missing at the end", got=got, expected=exp)


def _files(s, name):
    return {e: sorted(d) for e, d in s.ckpts(name).items()}


def events(case):
    rng = case.rng
    s = _small(case)
    ref = Ref(case, s)
    ra = _straight(case, s, count_events=True)
    log = ra["fs_events"]
    n = len(log)
    case.count("fs_events", n)
    k = min(n, 8 if case.tier == "quick" else 24)
    points = sorted(rng.sample(range(1, n + 1), k))
    case.desc(points=points, n_events=n)
    for at in points:
        name = f"crash{at}"
        what = f"crash at event {at}/{n} {log[at - 1]}"
        st, res = s.run(name, crash_at=at)
        case.require(st == "crash", f"{what}: unexpected end", status=st, res=res)
        case.count("crashes")
        last = _check_files(case, s, name, ref, what)
        if rng.random() < 0.3:  # crash again in the resumed run
            at2 = rng.randint(1, 12)
            st, res = s.run(name, crash_at=at2)
            case.require(st in ("crash", "ok"), f"{what}, then crash at {at2}: unexpected end", status=st, res=res)
            if st == "crash":
                case.count("crashes")
            what += f", then crash at event {at2}"
            last2 = _check_files(case, s, name, ref, what)
            case.require(last2 >= last, f"{what}: the last checkpoint was lost", got=last2, expected=last)
        _resume_and_compare(case, s, name, ra, what)


def disk_full(case):
    """the n-th file system event fails"""
    rng = case.rng
    s = _small(case)
    ref = Ref(case, s)
    ra = _straight(case, s, count_events=True)
    log = ra["fs_events"]
    n = len(log)
    cand = [i + 1 for i in range(n) if log[i][0] in ("open", "os.rename", "os.mkdir")]
    points = sorted(rng.sample(cand, min(len(cand), 6 if case.tier == "quick" else 20)))
    for at in points:
        name = f"err{at}"
        what = f"I/O error at event {at}/{n} {log[at - 1]}"
        st, res = s.run(name, crash_at=at, raise_exc=OSError(rng.choice([errno.ENOSPC, errno.EDQUOT, errno.EIO]), "injected"))
        if st != "ok":
            case.require(st == "exc", f"{what}: unexpected end", status=st, res=res)
            case.count("crashes")
        _check_files(case, s, name, ref, what)
        _resume_and_compare(case, s, name, ra, what)
    # a file size limit, such that writing stops in the middle of a checkpoint or the score file
    sizes = sorted({os.path.getsize(f"{root}/{fn}") for root, _, fns in os.walk(s.dir("ref")) for fn in fns})
    for i in range(2 if case.tier == "quick" else 6):
        lim = rng.choice(sizes) - rng.choice([1, 2, 50, 300])
        lim = max(lim, 1)
        name = f"full{i}"
        what = f"file size limit {lim}"
        st, res = s.run(name, fsize=lim)
        if st == "ok":
            continue
        case.require(st == "exc", f"{what}: unexpected end", status=st, res=res)
        case.count("crashes")
        _check_files(case, s, name, ref, what)
        _resume_and_compare(case, s, name, ra, what, trace=False)


def kill(case):
    """SIGKILL from outside, at the moment when some output file appears or grows"""
    rng = case.rng
    s = _small(case)
    ref = Ref(case, s)
    ra = _straight(case, s)
    for i in range(4 if case.tier == "quick" else 12):
        name = f"kill{i}"
        d = s.dir(name)
        state = {"n": 0, "last": None}
        target = rng.randint(1, 12)

        def when():
            cur = []
            for sub in ("net", "lr"):
                try:
                    with os.scandir(f"{d}/{sub}") as it:
                        for x in it:
                            try:
                                cur.append((x.name, x.stat().st_size))
                            except FileNotFoundError:
                                pass
                except FileNotFoundError:
                    pass
            cur.sort()
            if cur != state["last"]:
                state["last"] = cur
                state["n"] += 1
            return state["n"] > target

        st, res = s.run(name, kill_when=when)
        case.require(st in ("killed", "ok"), "unexpected end", status=st, res=res)
        what = f"SIGKILL at file change {target}"
        if st == "killed":
            case.count("crashes")
            case.count("kills")
        _check_files(case, s, name, ref, what)
        if st == "killed":
            _resume_and_compare(case, s, name, ra, what)


KINDS = {
    "events": {"func": events, "quick": 16, "thorough": 200},
    "disk_full": {"func": disk_full, "quick": 8, "thorough": 100},
    "kill": {"func": kill, "quick": 8, "thorough": 100},
}
