"""Run the PyTorch engine in forked children, with crash points, and record what it did."""

from __future__ import annotations
import os
import pickle
import signal
import sys
import time
import traceback

CRASH_RC = 77
FS_EVENTS = {"os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink", "shutil.move", "shutil.copyfile"}


def torch_init():
    """in the worker process, before any fork"""
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    from vlib import ds as D

    D.quiet_log()
    import torch

    torch.set_num_threads(1)
    torch.set_num_interop_threads(1)
    import returnn.torch.engine  # noqa
    import returnn.frontend as rf
    from returnn.util import basic as util

    util.BackendEngine.select_engine(engine=util.BackendEngine.Torch)
    util.BehaviorVersion.set(21)
    rf.select_backend_torch()
    # warm lazily imported things
    import torch._dynamo  # noqa
    import multiprocessing.managers  # noqa
    import h5py  # noqa
    import returnn.torch.frontend  # noqa

    p = torch.nn.Parameter(torch.zeros(2))
    opt = torch.optim.Adam([p])
    p.sum().backward()
    opt.step()
    from returnn.util.basic import describe_returnn_version, describe_torch_version, get_cpu_model_name

    describe_returnn_version(), describe_torch_version(), get_cpu_model_name()


class Hook:
    """counts file system events below a dir; exits at the n-th"""

    def __init__(self, prefix, at=None, raise_exc=None):
        self.prefix, self.at, self.n = prefix, at, 0
        self.log = []
        self.raise_exc = raise_exc
        self.pid = os.getpid()

    def __call__(self, event, args):
        if event == "open":
            path, mode, flags = args
            if not isinstance(path, str) or not path.startswith(self.prefix):
                return
            w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (
                isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
            )
            if not w:
                return
        elif event in FS_EVENTS:
            path = args[0]
            if isinstance(path, bytes):
                path = path.decode(errors="replace")
            if not isinstance(path, str) or not path.startswith(self.prefix):
                return
        else:
            return
        if os.getpid() != self.pid:
            return
        self.n += 1
        self.log.append((event, os.path.basename(path)))
        if self.at is not None and self.n == self.at:
            if self.raise_exc:
                raise self.raise_exc
            os._exit(CRASH_RC)


def in_child(func, *, timeout=240, fsize=None, kill_when=None):
    """
    :param func: () -> picklable
    :param kill_when: () -> bool, polled by the parent; SIGKILLs the child when true
    :return: (status, result): status "ok"|"crash"|"exc"|"killed"|"died"
    """
    import tempfile

    fd, res_fn = tempfile.mkstemp(prefix="eng-", dir=os.environ.get("TMPDIR"))
    os.close(fd)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.setpgid(0, 0)
            if fsize is not None:
                import resource

                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, resource.RLIM_INFINITY))
            try:
                res = ("ok", func())
            except BaseException:
                res = ("exc", traceback.format_exc()[-4000:])
            if fsize is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            with open(res_fn, "wb") as f:
                f.write(pickle.dumps(res))
            rc = 0
        finally:
            os._exit(rc)
    end = time.time() + timeout
    killed = timed_out = False
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if kill_when and not killed and kill_when():
            killed = True
            os.kill(pid, signal.SIGKILL)
        if time.time() > end:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
        time.sleep(0.0003 if kill_when else 0.005)
    # helper processes of the child (mp manager, data workers)
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    with open(res_fn, "rb") as f:
        buf = f.read()
    os.remove(res_fn)
    if timed_out:
        from vlib.core import Inconclusive

        raise Inconclusive("engine child did not finish within %i s" % timeout)
    if killed:
        return "killed", None
    rc = os.waitstatus_to_exitcode(st)
    if rc == CRASH_RC:
        return "crash", None
    if rc != 0 or not buf:
        return "died", "exit code %r" % rc
    return pickle.loads(buf)


def run_engine(cfg, make_data, *, hook=None):
    """in the child. :return: dict with what is left in the engine at the end"""
    import torch
    from returnn.config import Config, global_config_ctx
    from returnn.torch.engine import Engine

    config = Config(dict(cfg))
    train, dev = make_data()
    if hook:
        hook.pid = os.getpid()
        sys.addaudithook(hook)
    with global_config_ctx(config):
        engine = Engine(config=config)
        engine.init_train_from_config(train_data=train, **dev)
        engine.train()
        return {
            "params": {k: v.detach().cpu().numpy().copy() for k, v in engine.get_pt_model().state_dict().items()},
            "opt": opt_state(engine.get_pt_optimizer().state_dict()),
            "step": engine.global_train_step,
            "epoch": engine.epoch,
            "fs_events": list(hook.log) if hook else None,
        }


def opt_state(sd):
    import torch

    def conv(x):
        if isinstance(x, torch.Tensor):
            return x.detach().cpu().numpy().copy()
        if isinstance(x, dict):
            return {k: conv(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [conv(v) for v in x]
        return x

    return conv(sd)


def diff(a, b, path=""):
    """:return: first difference of nested structures with arrays, or None. exact"""
    import numpy

    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "%s: keys %r vs %r" % (path, sorted(map(str, set(a) - set(b))), sorted(map(str, set(b) - set(a))))
        for k in a:
            d = diff(a[k], b[k], "%s/%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %i vs %i" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%i]" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        a, b = numpy.asarray(a), numpy.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return "%s: %s %s vs %s %s" % (path, a.dtype, a.shape, b.dtype, b.shape)
        if not numpy.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
            if a.dtype.kind == "f":
                return "%s: max abs diff %r" % (path, float(numpy.max(numpy.abs(a - b))))
            return "%s: %r vs %r" % (path, a.ravel()[:5], b.ravel()[:5])
        return None
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return None
    if a != b:
        return "%s: %r vs %r" % (path, a, b)
    return None


def read_lr_file(fn):
    """:return: {epoch: (lr, error dict, meta dict)} via the real loader"""
    from returnn.learning_rate_control import ConstantLearningRate

    c = ConstantLearningRate(default_learning_rate=1.0, filename=fn)
    return {e: (d.learning_rate, dict(d.error), dict(d.meta)) for e, d in c.epoch_data.items()}


def read_ckpt(fn):
    import torch

    sd = torch.load(fn, map_location="cpu")
    return opt_state(sd)
