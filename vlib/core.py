"""Core of the monitoring harness: cases, verdicts, counters."""

from __future__ import annotations
import errno
import hashlib
import json
import os
import random
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF_DIR = os.environ.get("VERIF_DIR", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")


class Violation(Exception):
    """The monitored property was observed to be broken."""


class Inconclusive(Exception):
    """The monitor could not decide (checker timeout, missing observation, environment)."""


class Trivial(Exception):
    """The generated case turned out to be empty; it is not counted."""


def case_seed(base_seed: int, pid: str, kind: str, index: int) -> int:
    h = hashlib.sha256(f"{base_seed}/{pid}/{kind}/{index}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[: n // 3] + " ... " + s[-(n - n // 3 - 30) :] + "...(%i chars)" % len(s)


class Case:
    """Handed to each case function."""

    def __init__(self, pid, kind, index, seed, tier):
        self.pid, self.kind, self.index, self.seed, self.tier = pid, kind, index, seed, tier
        self.rng = random.Random(seed)
        self.counts = {}
        self._desc = None
        self._nontrivial = True
        self.findings = []
        self._tmp = None

    # -- description / evidence --
    def desc(self, **kw):
        """what the case is, for the evidence and for distinctness"""
        if self._desc is None:
            self._desc = {}
        self._desc.update(kw)

    def trivial(self):
        self._nontrivial = False

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    # -- oracle --
    def require(self, cond, msg, /, **details):
        self.count("oracle_evaluations")
        if not cond:
            s = msg + "".join("\n    %s = %s" % (k, short(v)) for k, v in details.items())
            raise Violation(s)

    def equal(self, a, b, msg, /, **details):
        self.require(a == b, msg, got=a, expected=b, **details)

    def finding(self, key, msg):
        """A violation which might be listed in known_findings.json under this key."""
        self.findings.append({"key": key, "msg": short(msg, 1000)})

    # -- scratch --
    def tmpdir(self):
        if self._tmp is None:
            import tempfile

            self._tmp = tempfile.mkdtemp(prefix="case-", dir=os.environ.get("TMPDIR", SCRATCH))
        return self._tmp

    def np_rng(self):
        import numpy

        return numpy.random.RandomState(self.rng.randrange(2**32))


class Runaway(BaseException):
    """the case uses CPU time or memory without end"""


class CpuWatch:
    """Deterministic hang detector: CPU time (not wall-clock) and memory of this process, far above what any case needs."""

    def __init__(self, limit, mem=8 << 30):
        self.limit, self.mem = limit, mem

    def __enter__(self):
        import signal
        import threading

        self.active = bool(self.limit) and threading.current_thread() is threading.main_thread()
        self.pid = os.getpid()
        self.used = 0
        if self.active:
            self.old = signal.signal(signal.SIGPROF, self._tick)
            signal.setitimer(signal.ITIMER_PROF, 2.0, 2.0)
        return self

    def _tick(self, *_):
        if os.getpid() != self.pid:
            return
        self.used += 2
        if self.used >= self.limit:
            raise Runaway("no end: the case used %i s of CPU time" % self.used)
        with open("/proc/self/statm") as f:
            rss = int(f.read().split()[1]) * 4096
        if rss > self.mem:
            raise Runaway("no end: the case uses %.1f GB of memory" % (rss / 2**30))

    def __exit__(self, *_):
        import signal

        if self.active:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_IGN)


def run_case(mod, pid, kind, index, base_seed, tier, seed=None):
    """:return: result dict"""
    seed = case_seed(base_seed, pid, kind, index) if seed is None else seed
    case = Case(pid, kind, index, seed, tier)
    func = mod.KINDS[kind]["func"]
    res = {"kind": kind, "index": index, "seed": seed, "status": "ok", "msg": ""}
    try:
        with CpuWatch(getattr(mod, "CPU_LIMIT", 60)):
            func(case)
    except Runaway as exc:
        res.update(status="violation", msg="%s: %s" % (exc, traceback.format_exc()[-3000:]))
    except Violation as exc:
        res.update(status="violation", msg=str(exc))
    except Inconclusive as exc:
        res.update(status="inconclusive", msg=str(exc))
    except Trivial as exc:
        res.update(status="trivial", msg=str(exc))
    except (MemoryError,) as exc:
        res.update(status="inconclusive", msg="MemoryError %s" % exc)
    except OSError as exc:
        if exc.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EAGAIN):
            res.update(status="inconclusive", msg="environment: %r" % exc)
        else:
            res.update(status="violation", msg="unexpected exception on a valid input: %s" % traceback.format_exc()[-3000:])
    except Exception:
        res.update(status="violation", msg="unexpected exception on a valid input: %s" % traceback.format_exc()[-3000:])
    finally:
        if case._tmp:
            import shutil

            shutil.rmtree(case._tmp, ignore_errors=True)
    res["desc"] = case._desc
    res["nontrivial"] = case._nontrivial
    res["counts"] = case.counts
    res["findings"] = case.findings
    return res


def json_default(o):
    try:
        import numpy

        if isinstance(o, numpy.generic):
            return o.item()
        if isinstance(o, numpy.ndarray):
            return o.tolist()
    except ImportError:
        pass
    return repr(o)


def to_json(o):
    return json.dumps(o, default=json_default, sort_keys=True)
