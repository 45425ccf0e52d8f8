"""Run cases of a check in this process and group the failures (development tool).

usage: /opt/venv/bin/python tools/triage.py PID KIND NUM [SEED]    (VERIF_REPO as for the checks)
"""
import importlib
import os
import re
import sys
import collections

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa

sys.path.insert(0, core.REPO)
os.environ.setdefault("PYTHONHASHSEED", "0")


def main():
    pid, kinds, num = sys.argv[1], sys.argv[2], int(sys.argv[3])
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    mod = importlib.import_module("checks." + pid.lower())
    if hasattr(mod, "worker_init"):
        mod.worker_init()
    for kind in mod.KINDS if kinds == "all" else kinds.split(","):
        groups = collections.OrderedDict()
        st = collections.Counter()
        for i in range(num):
            if os.environ.get("TRACE"):
                print("case", kind, i, flush=True)
            r = core.run_case(mod, pid, kind, i, seed, "quick")
            st[r["status"]] += 1
            if r["status"] in ("violation", "inconclusive"):
                m = r["msg"]
                line = m.strip().split("\n")[-1] if "Traceback" in m else m.split("\n")[0]
                loc = re.findall(r'File "([^"]+)", line (\d+)', m)
                key = re.sub(r"\d+", "#", line)[:100] + (" @%s:%s" % (os.path.basename(loc[-1][0]), loc[-1][1]) if loc else "")
                g = groups.setdefault(key, [0, r])
                g[0] += 1
        print("==", kind, dict(st))
        for k, (n, r) in groups.items():
            print("  --", n, "x", k, "\n     desc", r["desc"], "index", r["index"])
            print("     " + core.short(r["msg"], 900).replace("\n", "\n     ") if os.environ.get("V") else "")


main()
