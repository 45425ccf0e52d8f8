"""Parent: schedules the cases of one check over worker processes, decides the verdict, writes the evidence."""

from __future__ import annotations
import argparse
import collections
import hashlib
import importlib
import json
import os
import selectors
import signal
import subprocess
import sys
import time

from vlib import core

EXIT_OK, EXIT_VIOLATION, EXIT_INCONCLUSIVE = 0, 1, 2


class Worker:
    def __init__(self, pid, tier, idx, threads_env):
        self.idx = idx
        self.log_fn = f"{core.SCRATCH}/worker-{pid}-{idx}-{time.monotonic_ns()}.log"
        env = dict(os.environ)
        env.update(threads_env)
        env["VERIF_WORKER"] = str(idx)
        tmp = f"{core.SCRATCH}/tmp/w{idx}"
        os.makedirs(tmp, exist_ok=True)
        env["TMPDIR"] = tmp
        mod = sys.modules.get("checks." + pid.lower())
        if hasattr(mod, "worker_env"):
            env.update(mod.worker_env(env))
        self.proc = subprocess.Popen(
            [sys.executable, "-m", "vlib.worker", pid, tier, self.log_fn],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            env=env,
            start_new_session=True,
            cwd=tmp,
        )
        self.task = None
        self.task_start = time.monotonic()
        self.ready = False
        self.buf = b""

    def send(self, obj):
        self.proc.stdin.write((core.to_json(obj) + "\n").encode())
        self.proc.stdin.flush()

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def log_tail(self, n=3000):
        try:
            with open(self.log_fn, errors="replace") as f:
                return f.read()[-n:]
        except OSError:
            return ""


def load_known():
    fn = core.VERIF_DIR + "/known_findings.json"
    if not os.path.exists(fn):
        return []
    return json.load(open(fn))["findings"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--kind", help="only this kind (debugging)")
    ap.add_argument("--num", type=int, help="cases per kind (debugging)")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    pid, tier = args.pid, args.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    start = time.monotonic()
    mod = importlib.import_module("checks." + pid.lower())
    budget = getattr(mod, "BUDGET", {}).get(tier, 300 if tier == "quick" else 1800)
    case_timeout = getattr(mod, "CASE_TIMEOUT", 240)
    hang_is_violation = getattr(mod, "HANG_IS_VIOLATION", False)
    jobs = args.jobs or getattr(mod, "JOBS", 8)
    jobs = max(1, min(jobs, (os.cpu_count() or 8) if not getattr(mod, "OVERSUBSCRIBE", False) else jobs))

    tasks = collections.deque()
    if args.replay:
        rep = json.load(open(args.replay))
        tasks.append({"kind": rep["kind"], "index": rep["index"], "base_seed": 0, "seed": rep["seed"]})
    else:
        per_kind = []
        for kind, opts in mod.KINDS.items():
            if args.kind and kind != args.kind:
                continue
            n = args.num if args.num is not None else opts.get(tier, opts["quick"])
            per_kind.append((kind, n))
        # interleave proportionally, so that a truncated run covers all kinds
        order = []
        for kind, n in per_kind:
            for i in range(n):
                order.append(((i + 0.5) / n, kind, i))
        for _, kind, i in sorted(order):
            tasks.append({"kind": kind, "index": i, "base_seed": args.seed})
    num_tasks = len(tasks)
    jobs = max(1, min(jobs, num_tasks))

    results, violations, inconclusive = [], [], []
    finding_hits = {}
    attempts = collections.Counter()
    workers = {}
    sel = selectors.DefaultSelector()
    next_idx = 0
    startup_fail = None

    def spawn():
        nonlocal next_idx
        w = Worker(pid, tier, next_idx, {})
        next_idx += 1
        workers[w.idx] = w
        os.set_blocking(w.proc.stdout.fileno(), False)
        sel.register(w.proc.stdout, selectors.EVENT_READ, w)
        return w

    def drop(w):
        sel.unregister(w.proc.stdout)
        w.kill()
        workers.pop(w.idx, None)

    def assign(w):
        over = time.monotonic() - start > budget
        if not tasks or over or len(violations) >= 3:
            try:
                w.send({"exit": True})
            except OSError:
                pass
            w.task = None
            w.finished = True
            return
        w.task = tasks.popleft()
        w.task_start = time.monotonic()
        w.send(w.task)

    def handle(res):
        if res["status"] == "violation":
            violations.append(res)
        elif res["status"] == "inconclusive":
            inconclusive.append(res)
        results.append(res)
        for f in res.get("findings", []):
            finding_hits.setdefault(f["key"], (f, res))
        if args.v:
            print("case", res["kind"], res["index"], res["status"], core.short(res["msg"], 1500), res.get("counts"), flush=True)

    for _ in range(jobs):
        spawn()
    while workers:
        for key, _ in sel.select(timeout=1.0):
            w = key.data
            try:
                chunk = os.read(w.proc.stdout.fileno(), 1 << 20)
            except BlockingIOError:
                continue
            if chunk:
                w.buf += chunk
                while b"\n" in w.buf:
                    line, w.buf = w.buf.split(b"\n", 1)
                    obj = json.loads(line)
                    if obj.get("ready"):
                        w.ready = True
                    else:
                        w.task = None
                        obj["worker_time"] = time.monotonic() - w.task_start
                        if obj["status"] == "violation":
                            tail = w.log_tail(6000).strip()
                            if tail:
                                obj["msg"] += "\n--- output of the case ---\n" + tail
                        handle(obj)
                    try:
                        assign(w)
                    except OSError:
                        pass
                continue
            # EOF: worker ended
            rc = w.proc.wait()
            task = w.task
            tail = w.log_tail()
            drop(w)
            if getattr(w, "finished", False):
                continue
            if not w.ready:
                startup_fail = f"worker failed at startup (rc {rc}): {tail}"
                continue
            if task:
                k = (task["kind"], task["index"])
                attempts[k] += 1
                crash = rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)
                seed = task.get("seed") or core.case_seed(task["base_seed"], pid, task["kind"], task["index"])
                base = {**task, "seed": seed, "desc": None, "nontrivial": True, "counts": {}, "findings": []}
                if crash:
                    if attempts[k] >= 2:
                        handle({**base, "status": "violation", "msg": f"process crashed with signal {-rc} (twice) on this case\n{tail}"})
                    else:
                        tasks.appendleft(task)
                else:
                    if attempts[k] >= 2:
                        handle({**base, "status": "inconclusive", "msg": f"worker died rc {rc}\n{tail}"})
                    else:
                        tasks.appendleft(task)
            if tasks and time.monotonic() - start < budget:
                spawn()
        now = time.monotonic()
        for w in list(workers.values()):
            if w.task and now - w.task_start > case_timeout:
                task = w.task
                tail = w.log_tail()
                drop(w)
                k = (task["kind"], task["index"])
                attempts[k] += 1
                seed = task.get("seed") or core.case_seed(task["base_seed"], pid, task["kind"], task["index"])
                base = {**task, "seed": seed, "desc": None, "nontrivial": True, "counts": {}, "findings": []}
                if attempts[k] < 2 and (now - start) < budget:
                    tasks.appendleft(task)
                elif hang_is_violation and attempts[k] >= 2:
                    handle({**base, "status": "violation", "msg": f"no progress: case did not finish within {case_timeout}s, twice (normally < {case_timeout / 20:.0f}s)\n{tail}"})
                else:
                    handle({**base, "status": "inconclusive", "msg": f"case timeout {case_timeout}s\n{tail}"})
                if tasks:
                    spawn()
            elif not w.ready and now - w.task_start > 300:
                startup_fail = "worker startup timeout"
                drop(w)

    # ---- verdict ----
    known = load_known()
    known_keys = {f["key"]: f for f in known if f["property"] == pid and f["status"] == "known"}
    known_lines = []
    for key, (f, res) in sorted(finding_hits.items()):
        if key in known_keys:
            known_lines.append(f"KNOWN-FINDING: property={pid} {known_keys[key]['what']}")
        else:
            violations.append({**res, "status": "violation", "msg": f"[{key}] " + f["msg"]})

    counts = collections.Counter()
    for r in results:
        counts.update(r.get("counts") or {})
    ok = [r for r in results if r["status"] in ("ok", "violation")]
    distinct = set()
    for r in ok:
        if r.get("nontrivial"):
            distinct.add(hashlib.sha256(core.to_json([r["kind"], r["desc"] if r["desc"] else r["seed"]]).encode()).hexdigest())
    kinds = collections.Counter(r["kind"] for r in ok)
    samples = []
    seen = set()
    for r in ok:
        if r["kind"] not in seen and r.get("desc"):
            seen.add(r["kind"])
            samples.append({"kind": r["kind"], "seed": r["seed"], "case": r["desc"]})
    cov = {
        "evaluations": len(ok),
        "distinct_nontrivial": len(distinct),
        "rule": mod.RULE,
        "samples": samples[:12] or [{"note": "no case described"}],
        "cases_by_kind": dict(kinds),
        "observed": dict(counts),
        "planned_cases": num_tasks,
        "inconclusive_cases": len(inconclusive),
        "trivial_cases": sum(r["status"] == "trivial" for r in results),
        "known_findings_reproduced": sorted(k for k in finding_hits if k in known_keys),
    }
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": args.seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - start, 2),
        "violations": len(violations),
    }
    os.makedirs(core.VERIF_DIR + "/evidence", exist_ok=True)
    if not args.replay and not args.kind:
        with open(f"{core.VERIF_DIR}/evidence/{pid}.json", "w") as f:
            f.write(json.dumps(json.loads(core.to_json(evidence)), indent=1))
    print(
        f"{pid} {tier}: {len(ok)}/{num_tasks} cases, {len(distinct)} distinct, observed {dict(counts)}, "
        f"{len(inconclusive)} inconclusive, {time.monotonic() - start:.1f}s"
    )
    if args.v:
        slow = sorted(results, key=lambda r: -r.get("worker_time", 0))[:5]
        print("slowest:", [(r["kind"], r["index"], round(r.get("worker_time", 0), 1)) for r in slow])
    for line in known_lines:
        print(line)
    if violations:
        rep_dir = core.VERIF_DIR + "/evidence/replay"
        os.makedirs(rep_dir, exist_ok=True)
        for v in violations[:5]:
            fn = f"{rep_dir}/{pid}-{v['kind']}-{v['seed']}.json"
            with open(fn, "w") as f:
                f.write(core.to_json({"property": pid, "kind": v["kind"], "index": v["index"], "seed": v["seed"], "tier": tier, "msg": v["msg"], "desc": v.get("desc")}))
            print("violation detail:", v["kind"], core.short(v["msg"], 4000))
            print(f"VIOLATION property={pid} replay={fn}")
        return EXIT_VIOLATION
    if startup_fail and not ok:
        print("INCONCLUSIVE:", startup_fail)
        return EXIT_INCONCLUSIVE
    if not args.kind and not args.replay and args.num is None:
        missing = [k for k in mod.KINDS if mod.KINDS[k].get(tier, 1) and not kinds.get(k)]
        if missing:
            print("INCONCLUSIVE: no case of kind(s)", missing, [core.short(r["msg"], 1500) for r in inconclusive[:3]])
            return EXIT_INCONCLUSIVE
        low = {k: (counts.get(k, 0), n) for k, n in getattr(mod, "MIN_COUNTS", {}).items() if counts.get(k, 0) < n}
        if low:
            print("INCONCLUSIVE: monitor observed too little (observed, needed):", low)
            return EXIT_INCONCLUSIVE
        if len(inconclusive) > max(2, 0.2 * len(results)):
            print("INCONCLUSIVE: too many inconclusive cases", [core.short(r["msg"], 1500) for r in inconclusive[:3]])
            return EXIT_INCONCLUSIVE
    if not ok:
        print("INCONCLUSIVE: nothing observed", [core.short(r["msg"], 3000) for r in inconclusive[:3]])
        return EXIT_INCONCLUSIVE
    return EXIT_OK


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
