"""C12: resumed training equals uninterrupted training."""
from vlib import eng
from vlib.trainsc import Scenario

RULE = (
    "case = random model (torch or RF; dropout, noise, batch norm, embedding), optimizer, learning rate control, gradient accumulation/clipping/noise, data "
    "ordering, batching and dev sets; trained once without and once with interruptions (end of run after some epochs, or process death in any train step); "
    "all parameters, optimizer state, batches per step, scores and learning rates compared bit by bit. Non-trivial: at least one resume."
)
ASSUMPTIONS = ["CPU, one thread per process, so that float results are reproducible; user code draws random numbers from the Torch/RF generator only"]
MIN_COUNTS = {"resumes": 30, "train_steps": 500}
BUDGET = {"quick": 400, "thorough": 2400}
CASE_TIMEOUT = 400


def worker_init():
    eng.torch_init()


def _straight(case, s):
    st, res = s.run("straight")
    case.require(st == "ok", "uninterrupted training failed", status=st, res=res)
    return res


def boundary(case):
    rng = case.rng
    s = Scenario(case)
    ra = _straight(case, s)
    stops = sorted(rng.sample(range(1, s.epochs), rng.randint(1, s.epochs - 1)))
    case.desc(stops=stops)
    for e in stops + [s.epochs]:
        st, rb = s.run("parts", num_epochs=e)
        case.require(st == "ok", f"resumed training up to epoch {e} failed", status=st, res=rb)
        case.count("resumes")
    s.same_result(case, "straight", "parts", ra, rb, f"stopped after epochs {stops}")
    # once more: nothing to do
    st, rc = s.run("parts")
    case.require(st == "ok", "restart of a finished training failed", status=st, res=rc)
    for k in ("params", "opt", "step"):
        d = eng.diff(rc[k], ra[k])
        case.require(d is None, f"restart of a finished training changed {k}", diff=d)


def midepoch(case):
    rng = case.rng
    s = Scenario(case)
    ra = _straight(case, s)
    per_epoch, _ = s.trace("straight")
    points = [(e, k + 1) for e in per_epoch for k in range(len(per_epoch[e]))]
    deaths = sorted(rng.sample(points, min(len(points), rng.randint(1, 2))))
    case.desc(deaths=deaths)
    for at in deaths:
        st, rb = s.run("parts", exit_at=tuple(at))
        case.require(st == "crash", f"training up to {at} failed", status=st, res=rb)
        case.count("resumes")
    st, rb = s.run("parts")
    case.require(st == "ok", "resumed training failed", status=st, res=rb)
    case.count("resumes")
    s.same_result(case, "straight", "parts", ra, rb, f"died at {deaths}")


KINDS = {
    "boundary": {"func": boundary, "quick": 44, "thorough": 800},
    "midepoch": {"func": midepoch, "quick": 32, "thorough": 800},
}
