"""C14: cleanup_old_models never deletes a model it has to keep, and only deletes models."""
import os
from vlib import eng

RULE = (
    "case = random set of existing checkpoint files (gaps, high epochs, with/without optimizer state), random score file (several keys, keys missing in some "
    "epochs, ties, constant keys, inf) and random cleanup options; the real Engine.cleanup_old_models runs on the directory; the files left are compared with "
    "what the options promise. Non-trivial: at least one model could be deleted."
)
ASSUMPTIONS = ["every existing checkpoint has an entry in the score file"]
MIN_COUNTS = {"deleted": 200, "kept": 500}
BUDGET = {"quick": 240, "thorough": 900}


def worker_init():
    eng.torch_init()


def _score(rng, mode):
    if mode == "few":
        return rng.choice([0.5, 1.0, 2.0])
    if mode == "const":
        return 1.5
    v = rng.choice([rng.random(), rng.random() * 100, -rng.random()])
    return rng.choice([v, v, v, v, v, float("inf")]) if mode == "inf" else v


def retention(case):
    from returnn.config import Config, global_config_ctx
    from returnn.torch.engine import Engine
    from returnn.learning_rate_control import ConstantLearningRate

    rng = case.rng
    d = case.tmpdir()
    max_ep = rng.choice([5, 9, 10, 11, 30, 50, 51, 100, 120, 300])
    density = rng.choice([1.0, 0.5, 0.2])
    eps = [e for e in range(1, max_ep + 1) if e == max_ep or rng.random() < density]
    keys = rng.sample(["dev_loss_ce", "dev_loss_fer", "train_loss_ce", "devtrain_loss_x", "dev_score_output", "eval_error"], rng.randint(1, 4))
    modes = {k: rng.choice(["rand", "rand", "rand", "few", "const", "inf"]) for k in keys}
    missing = {k: rng.choice([0.0, 0.0, 0.4]) for k in keys}
    lrc = ConstantLearningRate(default_learning_rate=0.1, filename=f"{d}/scores")
    scores = {}
    for e in range(1, max_ep + 1):
        lrc.get_learning_rate_for_epoch(e)
        err = {k: _score(rng, modes[k]) for k in keys if rng.random() >= missing[k]}
        scores[e] = err
        if err:
            lrc.set_epoch_error(e, err)
    if not any(scores.values()):
        lrc.set_epoch_error(1, {keys[0]: 1.0})
        scores[1] = {keys[0]: 1.0}
    lrc.save()
    os.makedirs(f"{d}/net")
    other = {"other.txt", "ckpt.best.pt.bak", "foo.003.pt"}
    names = set()
    for e in eps:
        names.add("ckpt.%03d.pt" % e)
        if rng.random() < 0.3:
            names.add("ckpt.%03d.opt.pt" % e)
    for n in names | other:
        with open(f"{d}/net/{n}", "w") as f:
            f.write("x" * rng.randint(1, 20))
    opts = {}
    if rng.random() < 0.7:
        opts["keep_last_n"] = rng.choice([1, 1, 2, 3, 5])
    if rng.random() < 0.7:
        opts["keep_best_n"] = rng.choice([0, 1, 1, 2, 3])
    explicit = rng.random() < 0.7
    if explicit:
        opts["keep"] = rng.choice([[], rng.sample(range(1, max_ep + 5), rng.randint(1, 4))])
    val = opts if opts else rng.choice([True, {}])
    final = max_ep + rng.choice([0, 0, 3])
    config = Config(dict(task="train", model=f"{d}/net/ckpt", learning_rate_file=f"{d}/scores", num_epochs=final, cleanup_old_models=val))
    case.desc(eps=eps, opts=val, keys=keys, modes=modes, max_ep=max_ep)
    via_loaded = rng.random() < 0.5
    with global_config_ctx(config):
        engine = Engine(config=config)
        if via_loaded:
            engine.learning_rate_control = lrc
        dry = rng.random() < 0.1
        if dry:
            config.set("dry_run", True)
        engine.cleanup_old_models()
    left = set(os.listdir(f"{d}/net"))
    case.equal(left & other, other, "files which are not checkpoints were deleted")
    case.require(left <= names | other, "files appeared")
    if dry:
        case.equal(left, names | other, "dry run deleted files")
        return
    kept = {e for e in eps if "ckpt.%03d.pt" % e in left}
    gone = set(eps) - kept
    case.count("kept", len(kept))
    case.count("deleted", len(gone))
    for e in eps:
        o = "ckpt.%03d.opt.pt" % e
        if o in names:
            case.equal(o in left, e in kept, f"optimizer state of epoch {e} is kept iff the model is")
    last_n, best_n = opts.get("keep_last_n", 2), opts.get("keep_best_n", 4)
    case.require(set(eps[-last_n:]) <= kept, f"the last {last_n} models must be kept", kept=sorted(kept), eps=eps)
    if explicit:
        case.require(set(opts["keep"]) & set(eps) <= kept, "epochs in `keep` must be kept", kept=sorted(kept), keep=opts["keep"])
    may = set(eps[-last_n:]) | set(opts.get("keep", []))
    for k in keys:
        vals = {e: scores[e][k] for e in eps if k in scores[e]}
        if not vals or best_n == 0:
            continue
        uniq = len(set(vals.values()))
        order = sorted(vals.values())
        thr = order[min(best_n, len(order)) - 1]
        must = {e for e, v in vals.items() if v < thr}
        tied = {e for e, v in vals.items() if v == thr}
        if uniq > 1:
            case.require(must <= kept, f"better than the {best_n}-best model by {k}, but deleted", missing=sorted(must - kept), scores=vals)
            need = min(best_n, len(order)) - len(must)
            if thr < order[-1]:  # at the worst value, epochs without this score are ties as well
                case.require(len(tied & kept) >= need, f"less than the best {best_n} models by {k} kept", kept=sorted(kept), scores=vals)
        may |= {e for e, v in vals.items() if v <= thr}
        if len(order) < best_n or thr == order[-1]:
            may |= set(eps)
    if explicit and gone:
        case.require(kept <= may, "kept models which neither of the options explains", extra=sorted(kept - may), opts=opts)
    if explicit and not gone and max(last_n, best_n) < len(eps):
        case.require(kept <= may, "nothing deleted, although the options do not cover all models", extra=sorted(kept - may), opts=opts)


KINDS = {"retention": {"func": retention, "quick": 600, "thorough": 20000}}
