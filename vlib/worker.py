"""Worker process: reads tasks as JSON lines on stdin, writes results as JSON lines on a private fd."""

import sys
import os


def main():
    pid, tier, log_fn = sys.argv[1:4]
    proto_out = os.fdopen(os.dup(1), "w", buffering=1)
    log_fd = os.open(log_fn, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(log_fd, 1)
    os.dup2(log_fd, 2)
    proto_in = os.fdopen(os.dup(0), "r")
    devnull = os.open(os.devnull, os.O_RDONLY)
    os.dup2(devnull, 0)
    import faulthandler

    faulthandler.enable()
    import importlib
    from vlib import core

    cov = None
    if os.environ.get("VERIF_COV"):  # only used by tools/mutate.py, to know which lines a check executes
        cov = start_cov()
    mod = importlib.import_module("checks." + pid.lower())
    if hasattr(mod, "worker_init"):
        mod.worker_init()
    proto_out.write(core.to_json({"ready": True}) + "\n")
    for line in proto_in:
        import json

        task = json.loads(line)
        if task.get("exit"):
            break
        os.truncate(log_fn, 0)
        res = core.run_case(mod, pid, task["kind"], task["index"], task["base_seed"], tier, seed=task.get("seed"))
        proto_out.write(core.to_json(res) + "\n")
    if hasattr(mod, "worker_exit"):
        mod.worker_exit()
    if cov is not None:
        with open("%s/%i.txt" % (os.environ["VERIF_COV"], os.getpid()), "w") as f:
            f.write("\n".join("%s:%i" % x for x in sorted(cov)))
    proto_out.flush()
    sys.stdout.flush()
    os._exit(0)


def start_cov():
    lines = set()
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "verif")
    prefix = os.environ["VERIF_REPO"] + "/returnn/"

    def on_line(code, line):
        fn = code.co_filename
        if fn.startswith(prefix):
            lines.add((fn[len(prefix) - 8 :], line))
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return lines


if __name__ == "__main__":
    main()
