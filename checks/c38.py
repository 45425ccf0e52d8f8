"""C38: native ops (edit distance, Baum-Welch, Viterbi, CTC, chunking, LSTM): their definition, and memory safe."""
import os
import subprocess
import itertools
import numpy

RULE = (
    "The real native ops, generated and compiled from the current tree with AddressSanitizer and UndefinedBehaviorSanitizer and loaded into TensorFlow with the ASan runtime preloaded: every kernel call of the workload is watched for invalid memory accesses and undefined behaviour (a report aborts the worker, which is a violation). "
    "Results are compared with independent float64 / integer references: edit distance tables, optimal completion (minimum over all prefixes of b), forward-backward and best path over random automata, counting of accepting paths of every label string for the CTC automata (native and Python), CTC loss and its gradient, chunking and unchunking with gradient, LSTM forward and backpropagation through time. "
    "Random batch sizes, lengths (including 0), padding garbage, label repetitions, parallel edges, loops, directions and steps. Distinct by op and shape."
)
ASSUMPTIONS = ["CPU kernels, float32 tolerance", "lengths within the tensor, valid label indices, at least one path through the automaton within the sequence length"]
MIN_COUNTS = {"runs": 300, "sequences": 600, "empty_seqs": 20, "strings": 2000, "grads": 40, "lstm": 20}
BUDGET = {"quick": 400, "thorough": 1500}
CASE_TIMEOUT = 400
CPU_LIMIT = 0


def worker_env(env):
    from vlib import core

    libs = [subprocess.run(["/usr/bin/g++", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip() for n in ("libasan.so", "libstdc++.so.6")]
    tmp = core.SCRATCH + "/natops"
    os.makedirs(tmp, exist_ok=True)
    return {
        "LD_PRELOAD": " ".join(libs),  # libstdc++ as well: otherwise the ASan runtime does not find __cxa_throw
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_odr_violation=0",
        "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=1",
        "PATH": os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/vlib/asanbin:" + env.get("PATH", "/usr/bin:/bin"),
        "TMPDIR": tmp,
    }


S = None  # state of this worker


def worker_init():
    global S
    os.environ["TF_USE_LEGACY_KERAS"] = "1"
    os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"
    import tensorflow as tf
    from returnn.util import BehaviorVersion
    from returnn.tf import native_op as N

    S = {"tf": tf, "N": N, "nets": {}}
    S["graph"] = tf.Graph()
    S["sess"] = tf.compat.v1.Session(graph=S["graph"], config=tf.compat.v1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1))


def run(key, build, feed):
    """:param build: func(placeholder func) -> outputs. :param dict feed: name -> value"""
    tf = S["tf"]
    if key not in S["nets"]:
        with S["graph"].as_default():
            phs = {}

            def ph(name, dtype, shape):
                phs[name] = tf.compat.v1.placeholder(dtype, shape, name=name)
                return phs[name]

            with tf.compat.v1.variable_scope("net%i" % len(S["nets"])):
                outs = build(ph)
            S["nets"][key] = (phs, outs)
    phs, outs = S["nets"][key]
    return S["sess"].run(outs, feed_dict={phs[k]: v for k, v in feed.items()})


# ---- edit distance ----


def ed_table(a, b):
    rows = [list(range(len(b) + 1))]
    for i, x in enumerate(a):
        r = [i + 1]
        for j, y in enumerate(b):
            r.append(min(rows[-1][j + 1] + 1, r[-1] + 1, rows[-1][j] + (x != y)))
        rows.append(r)
    return rows


def gen_seqs(case, lo=0):
    rng, nprng = case.rng, case.np_rng()
    B = rng.choice([1, 1, 2, 3, 5])
    A, Bt = rng.choice([lo or 1, 1, 2, 4, 7]), rng.choice([1, 2, 4, 7, 9])
    n = rng.choice([1, 2, 3, 20])
    al, bl = [rng.randint(0, A) for _ in range(B)], [rng.randint(0, Bt) for _ in range(B)]
    al[rng.randrange(B)] = A
    bl[rng.randrange(B)] = Bt
    a, b = nprng.randint(0, n, (B, A)), nprng.randint(0, n, (B, Bt))
    for i in range(B):
        if rng.random() < 0.4:  # similar
            m = min(al[i], bl[i])
            b[i, :m] = a[i, :m]
        if rng.random() < 0.5:
            a[i, al[i] :], b[i, bl[i] :] = 1 << 29, -(1 << 29)
    case.desc(B=B, A=A, Bt=Bt, n=n, al=al, bl=bl)
    case.count("sequences", B)
    case.count("empty_seqs", al.count(0) + bl.count(0))
    f = lambda x: numpy.array(x, dtype="int32")
    return f(a), f(al), f(b), f(bl), n


def _int(ph, name, nd):
    return ph(name, "int32", [None] * nd)


def ed(case):
    a, al, b, bl, n = gen_seqs(case)
    opt = case.index % 2
    build = lambda ph: (S["N"].optimal_completion_edit_distance if opt else S["N"].edit_distance)(_int(ph, "a", 2), _int(ph, "al", 1), _int(ph, "b", 2), _int(ph, "bl", 1))
    got = run(("ed", opt), build, dict(a=a, al=al, b=b, bl=bl))
    case.count("runs")
    for i in range(len(a)):
        row = ed_table(a[i, : al[i]].tolist(), b[i, : bl[i]].tolist())[-1]
        case.equal(int(got[i]), min(row) if opt else row[-1], "optimal completion edit distance" if opt else "edit distance", a=a[i, : al[i]].tolist(), b=b[i, : bl[i]].tolist())


def ed_succ(case):
    a, al, b, bl, n = gen_seqs(case)
    succ = numpy.array([case.rng.randrange(n + 1) for _ in range(case.rng.randint(1, 5))], dtype="int32")
    build = lambda ph: S["N"].optimal_completion_edit_distance_per_successor(_int(ph, "a", 2), _int(ph, "al", 1), _int(ph, "b", 2), _int(ph, "bl", 1), _int(ph, "succ", 1))
    got = run("ed_succ", build, dict(a=a, al=al, b=b, bl=bl, succ=succ))
    case.count("runs")
    case.equal(got.shape, (len(a), len(succ)), "shape")
    for i in range(len(a)):
        for k, s in enumerate(succ.tolist()):
            exp = min(ed_table(a[i, : al[i]].tolist() + [s], b[i, : bl[i]].tolist())[-1])
            case.equal(int(got[i, k]), exp, "optimal completion edit distance per successor", a=a[i, : al[i]].tolist(), b=b[i, : bl[i]].tolist(), successor=s)


def ed_step(case):
    """step by step (row op), then reduce over possible next labels"""
    rng = case.rng
    a, al, b, bl, n = gen_seqs(case)
    B, Bt = b.shape
    f = lambda x: numpy.array(x, dtype="int32")
    row = numpy.tile(numpy.arange(Bt + 1, dtype="int32")[None], (B, 1))
    build = lambda ph: S["N"].next_edit_distance_row(_int(ph, "row", 2), _int(ph, "a", 1), _int(ph, "n", 1), ph("ended", "bool", [None]), _int(ph, "b", 2), _int(ph, "bl", 1))
    tabs = [ed_table(a[i, : al[i]].tolist(), b[i, : bl[i]].tolist()) for i in range(B)]
    T = a.shape[1]
    for t in range(T):
        row = run("row", build, dict(row=row, a=a[:, t], n=f([t] * B), ended=t >= al, b=b, bl=bl))
        case.count("runs")
        for i in range(B):
            exp = tabs[i][min(t + 1, al[i])]
            case.equal(row[i].tolist(), exp + [exp[-1]] * (Bt - bl[i]), "row of the edit distance table, and its last entry repeated for the padding", t=t, b=i, ended=bool(t >= al[i]))
    opt = rng.random() < 0.5
    blank = rng.choice([None, 0, n - 1])
    bc = rng.random() < 0.5
    K = rng.randint(1, 4)
    lab = f([[rng.randrange(n + 1) for _ in range(K)] for _ in range(1 if bc else B)])
    ended = [rng.random() < 0.3 for _ in range(B)]
    build = lambda ph: S["N"].next_edit_distance_reduce(_int(ph, "row", 2), _int(ph, "a", 2), _int(ph, "n", 1), ph("ended", "bool", [None]), _int(ph, "b", 2), _int(ph, "bl", 1), optimal_completion=ph("opt", "bool", []), a_blank_idx=ph("blank", "int32", []))
    got = run("reduce", build, dict(row=row, a=lab, n=al, ended=ended, b=b, bl=bl, opt=opt, blank=-1 if blank is None else blank))
    case.count("runs")
    for i in range(B):
        for k in range(K):
            s = int(lab[0 if bc else i, k])
            pre = a[i, : al[i]].tolist()
            r = ed_table(pre if ended[i] or s == blank else pre + [s], b[i, : bl[i]].tolist())[-1]
            case.equal(int(got[i, k]), min(r) if opt else r[-1], "reduced next edit distance", b=i, label=s, blank=blank, ended=ended[i], opt=opt)


# ---- automata ----


def logsumexp(x):
    m = numpy.max(x) if len(x) else -numpy.inf
    return m if not numpy.isfinite(m) else m + numpy.log(numpy.sum(numpy.exp(numpy.array(x) - m)))


def ref_fb(scores, edges, weights, start, end, best=False):
    """scores (T,dim) +log, edges (n,3) from,to,emission, weights +log. :return: total, posteriors (T,dim), best score"""
    T, dim = scores.shape
    op = max if best else logsumexp
    ninf = -numpy.inf
    fwd = [{start: 0.0}]
    for t in range(T):
        acc = {}
        for (u, v, e), w in zip(edges, weights):
            if u in fwd[-1]:
                acc.setdefault(v, []).append(fwd[-1][u] + w + scores[t, e])
        fwd.append({v: op(x) for v, x in acc.items()})
    bwd = [{end: 0.0}]
    for t in reversed(range(T)):
        acc = {}
        for (u, v, e), w in zip(edges, weights):
            if v in bwd[0]:
                acc.setdefault(u, []).append(bwd[0][v] + w + scores[t, e])
        bwd.insert(0, {v: op(x) for v, x in acc.items()})
    total = fwd[T].get(end, ninf)
    post = numpy.full((T, dim), ninf)
    if total > ninf:
        for t in range(T):
            acc = {}
            for (u, v, e), w in zip(edges, weights):
                if u in fwd[t] and v in bwd[t + 1]:
                    acc.setdefault(e, []).append(fwd[t][u] + w + scores[t, e] + bwd[t + 1][v])
            for e, x in acc.items():
                post[t, e] = op(x) - total
    return total, post


def gen_fsa(case, T_list, dim):
    """random automata, each with at least one path of the given length; :return: edges (4,n), weights, start_end"""
    rng = case.rng
    edges, ses, off = [], [], 0
    for b, T in enumerate(T_list):
        n = rng.randint(2, 6)
        kind = rng.choice(["lr", "any"])
        es = []
        for _ in range(rng.randint(1, 14)):
            u, v = rng.randrange(n), rng.randrange(n)
            if kind == "lr":
                u, v = min(u, v), max(u, v)
            es.append((u, v, rng.randrange(dim)))
        # a path
        cur = 0
        for t in range(T):
            nxt = n - 1 if t == T - 1 else rng.randrange(cur, n)
            if (cur, nxt) not in [(u, v) for u, v, _ in es]:
                es.append((cur, nxt, rng.randrange(dim)))
            cur = nxt
        rng.shuffle(es)
        edges += [(u + off, v + off, e, b) for u, v, e in es]
        ses.append((off, off + n - 1))
        off += n
    if rng.random() < 0.5:
        rng.shuffle(edges)
    e = numpy.array(edges, dtype="int32").T
    w = numpy.array([rng.choice([0.0, round(rng.uniform(-1, 2), 3)]) for _ in edges], dtype="float32")
    return e, w, numpy.array(ses, dtype="int32").T


def gen_scores(case):
    rng, nprng = case.rng, case.np_rng()
    B, T, dim = rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 5, 9]), rng.choice([1, 2, 3, 6])
    lens = [rng.randint(1, T) for _ in range(B)]
    lens[rng.randrange(B)] = T
    x = (nprng.randn(T, B, dim) * rng.choice([0.5, 2.0, 8.0])).astype("float32")
    case.desc(B=B, T=T, dim=dim, lens=lens)
    case.count("sequences", B)
    return x, lens


def seq_edges(edges, weights, b):
    idx = [i for i in range(edges.shape[1]) if edges[3, i] == b]
    return [tuple(int(q) for q in edges[:3, i]) for i in idx], [float(weights[i]) for i in idx]


def poison(case, x, lens):
    if case.rng.random() < 0.5:
        for b, n in enumerate(lens):
            x[n:, b] = case.rng.choice([1e20, -1e20, 17.0])


def bw(case):
    x, lens = gen_scores(case)
    T, B, dim = x.shape
    e, w, se = gen_fsa(case, lens, dim)
    poison(case, x, lens)
    mask = numpy.array([[t < n for n in lens] for t in range(T)], dtype="float32")
    build = lambda ph: S["N"].fast_baum_welch(ph("x", "float32", [None] * 3), _int(ph, "e", 2), ph("w", "float32", [None]), _int(ph, "se", 2), ph("m", "float32", [None, None]))
    fb, obs = run("bw", build, dict(x=x, e=e, w=w, se=se, m=mask))
    case.count("runs")
    for b in range(B):
        es, ws = seq_edges(e, w, b)
        tot, post = ref_fb(-x[: lens[b], b].astype("float64"), es, [-v for v in ws], int(se[0, b]), int(se[1, b]))
        for t in range(lens[b]):
            case.require(abs(obs[t, b] - -tot) <= 1e-3 * (1 + abs(tot)), "Baum-Welch score of the sequence", t=t, b=b, got=float(obs[t, b]), expected=-tot)
            g, p = numpy.exp(-fb[t, b].astype("float64")), numpy.exp(post[t])
            case.require(numpy.allclose(g, p, atol=2e-3), "Baum-Welch soft alignment", t=t, b=b, got=g.tolist(), expected=p.tolist())
            case.require(abs(g.sum() - 1) < 5e-3, "soft alignment is normalised", t=t, b=b, got=g.tolist())


def viterbi(case):
    x, lens = gen_scores(case)
    T, B, dim = x.shape
    e, w, se = gen_fsa(case, lens, dim)
    poison(case, x, lens)
    build = lambda ph: S["N"].fast_viterbi(ph("x", "float32", [None] * 3), _int(ph, "l", 1), _int(ph, "e", 2), ph("w", "float32", [None]), _int(ph, "se", 2))
    al, sc = run("viterbi", build, dict(x=x, l=numpy.array(lens, dtype="int32"), e=e, w=w, se=se))
    case.count("runs")
    for b in range(B):
        es, ws = seq_edges(e, w, b)
        s64 = x[: lens[b], b].astype("float64")
        tot, _ = ref_fb(s64, es, ws, int(se[0, b]), int(se[1, b]), best=True)
        case.require(abs(sc[b] - tot) <= 1e-3 * (1 + abs(tot)), "score of the best path", b=b, got=float(sc[b]), expected=tot)
        a = al[: lens[b], b].tolist()
        case.require(all(0 <= q < dim for q in a), "emissions of the best path", got=a)
        only = numpy.full_like(s64, -numpy.inf)
        for t, q in enumerate(a):
            only[t, q] = s64[t, q]
        tot2, _ = ref_fb(only, es, ws, int(se[0, b]), int(se[1, b]), best=True)
        case.require(abs(tot2 - tot) <= 1e-3 * (1 + abs(tot)), "the alignment is the best path", b=b, got=tot2, expected=tot, alignment=a)


def collapse(s, blank, loop):
    out, prev = [], None
    for q in s:
        if q != blank and not (loop and q == prev):
            out.append(q)
        prev = q
    return out


def gen_targets(case, dim, blank):
    rng = case.rng
    B = rng.choice([1, 2, 3])
    L = rng.choice([1, 1, 2, 3, 4])
    tl = [rng.randint(0, L) for _ in range(B)]
    tl[rng.randrange(B)] = L
    labels = [i for i in range(dim) if i != blank]
    tg = [[rng.choice(labels) for _ in range(L)] for _ in range(B)]
    for i in range(B):
        if rng.random() < 0.4 and L > 1:
            tg[i][1] = tg[i][0]
    case.count("sequences", B)
    case.count("empty_seqs", tl.count(0))
    return numpy.array(tg, dtype="int32"), numpy.array(tl, dtype="int32")


def ctc_fsa(case):
    rng = case.rng
    dim = rng.choice([2, 3, 3, 4])
    blank = rng.choice([0, dim - 1])
    tg, tl = gen_targets(case, dim, blank)
    py = case.index % 3 == 2
    loop = py or rng.random() < 0.6
    case.desc(dim=dim, blank=blank, targets=tg.tolist(), lens=tl.tolist(), loop=loop, py=py)
    if py:
        from returnn.util.fsa import get_ctc_fsa_fast_bw

        fsa = get_ctc_fsa_fast_bw(tg, tl, blank)
        e, w, se = fsa.edges, fsa.weights, fsa.start_end_states
    else:
        build = lambda ph: S["N"].get_ctc_fsa_fast_bw(_int(ph, "t", 2), _int(ph, "l", 1), ph("blank", "int32", []), ph("loop", "bool", []))
        build = lambda ph: S["N"].get_ctc_fsa_fast_bw(_int(ph, "t", 2), _int(ph, "l", 1), blank, loop)
        e, w, se = run(("fsa", blank, loop), build, dict(t=tg, l=tl))
    case.count("runs")
    case.require((w == 0).all() and e.shape == (4, len(w)), "weights")
    for b in range(len(tl)):
        es, _ = seq_edges(e, w, b)
        start, end = int(se[0, b]), int(se[1, b])
        target = tg[b, : tl[b]].tolist()
        maxT = {2: 7, 3: 6, 4: 5}[dim]
        frontier = {(): {start: 1}}
        for T in range(1, maxT + 1):
            new = {}
            for s, st in frontier.items():
                for q in range(dim):
                    acc = {}
                    for u, v, em in es:
                        if em == q and u in st:
                            acc[v] = acc.get(v, 0) + st[u]
                    new[s + (q,)] = acc
            frontier = new
            for s, st in frontier.items():
                exp = 1 if collapse(s, blank, loop) == target else 0
                case.equal(st.get(end, 0), exp, "number of accepting paths of the label string", string=s, target=target, blank=blank, loop=loop)
                case.count("strings")
    # sequences do not share states
    for i, j in itertools.combinations(range(len(tl)), 2):
        st = [set(x for u, v, _ in seq_edges(e, w, k)[0] for x in (u, v)) for k in (i, j)]
        case.require(not (st[0] & st[1]), "automata of different sequences are disjoint")


def ref_ctc(logp, target, blank, loop, best=False):
    """own automaton: position in the extended label sequence"""
    ext = [blank]
    for q in target:
        ext += [q, blank]
    n = len(ext)
    op = max if best else logsumexp
    cur = {0: logp[0, ext[0]]}
    if n > 1:
        cur[1] = logp[0, ext[1]]
    for t in range(1, len(logp)):
        acc = {}
        for s, v in cur.items():
            nxt = []
            if ext[s] == blank or loop:
                nxt.append(s)
            if s + 1 < n:
                nxt.append(s + 1)
            if s + 2 < n and ext[s] != blank and (not loop or ext[s] != ext[s + 2]):
                nxt.append(s + 2)
            for k in nxt:
                acc.setdefault(k, []).append(v + logp[t, ext[k]])
        cur = {k: op(v) for k, v in acc.items()}
    fin = [cur[k] for k in (n - 1, n - 2) if k in cur]
    return op(fin) if fin else -numpy.inf


def log_softmax(x):
    m = x.max(-1, keepdims=True)
    return x - m - numpy.log(numpy.exp(x - m).sum(-1, keepdims=True))


def ctc_loss(case):
    rng, nprng = case.rng, case.np_rng()
    dim = rng.choice([2, 3, 5])
    blank = rng.choice([0, -1, dim - 1])
    rblank = blank % dim
    tg, tl = gen_targets(case, dim, rblank)
    vit = case.index % 3 == 2
    loop = vit or rng.random() < 0.6
    B = len(tl)
    need = [int(tl[b]) + (sum(tg[b, i] == tg[b, i - 1] for i in range(1, tl[b])) if loop else 0) for b in range(B)]
    lens = numpy.array([max(1, n + rng.randint(0, 3)) for n in need], dtype="int32")
    T = max(lens)
    tm = rng.random() < 0.5
    norm = True if vit else rng.random() < 0.7
    x = nprng.randn(T, B, dim).astype("float32") * 2
    if not norm:
        x = log_softmax(x.astype("float64")).astype("float32")
    case.desc(dim=dim, blank=blank, targets=tg.tolist(), tl=tl.tolist(), lens=lens.tolist(), tm=tm, norm=norm, loop=loop, vit=vit)
    co = nprng.randn(B).astype("float32")

    def build(ph):
        tf = S["tf"]
        xx = ph("x", "float32", [None, None, dim])
        kw = dict(logits=xx, logits_seq_lens=_int(ph, "xl", 1), logits_time_major=tm, targets=_int(ph, "t", 2), targets_seq_lens=_int(ph, "tl", 1), blank_index=blank)
        if vit:
            loss = S["N"].ctc_loss_viterbi(**kw)
        else:
            loss = S["N"].ctc_loss(**kw, ctc_merge_repeated=loop, logits_normalize=norm, grad_wrt_softmax_in=norm)
        return loss, tf.gradients(tf.reduce_sum(loss * ph("co", "float32", [None])), [xx])[0]

    loss, grad = run(("ctc", vit, loop, norm, blank, dim, tm), build, dict(x=x if tm else x.transpose(1, 0, 2), xl=lens, t=tg, tl=tl, co=co))
    if not tm:
        grad = grad.transpose(1, 0, 2)
    case.count("runs")
    x64 = x.astype("float64")
    for b in range(B):
        n, target = lens[b], tg[b, : tl[b]].tolist()
        f = lambda v: -ref_ctc(log_softmax(v) if norm else v, target, rblank, loop, best=vit)
        xs = x64[:n, b]
        exp = f(xs)
        case.require(abs(loss[b] - exp) <= 1e-3 * (1 + abs(exp)), "CTC loss", b=b, got=float(loss[b]), expected=exp)
        num = numpy.zeros_like(xs)
        eps = 1e-5
        for i in numpy.ndindex(xs.shape):
            u, v = xs.copy(), xs.copy()
            u[i] += eps
            v[i] -= eps
            num[i] = (f(u) - f(v)) / (2 * eps)
        case.require(numpy.allclose(grad[:n, b], num * co[b], atol=5e-3), "gradient of the CTC loss", b=b, got=grad[:n, b].tolist(), expected=(num * co[b]).tolist())
        case.require((grad[n:, b] == 0).all(), "no gradient for the padding", b=b)
        case.count("grads")


# ---- chunking ----


def chunk(case):
    rng, nprng = case.rng, case.np_rng()
    T, B, D = rng.choice([1, 2, 5, 11]), rng.randint(1, 3), rng.randint(1, 3)
    size = rng.randint(1, 6)
    step = rng.randint(1, size)
    lens = [rng.randint(0, T) for _ in range(B)]
    lens[rng.randrange(B)] = T
    case.desc(T=T, B=B, D=D, size=size, step=step, lens=lens)
    case.count("sequences", B)
    case.count("empty_seqs", lens.count(0))
    x = nprng.randn(T, B, D).astype("float32")
    idx = numpy.array([[t < n for n in lens] for t in range(T)], dtype="float32")
    nc = max(T - size + step - 1, 0) // step + 1
    co = nprng.randn(size, B * nc, D).astype("float32")
    tf = S["tf"]

    def build(ph):
        xx, ii = ph("x", "float32", [None] * 3), ph("i", "float32", [None] * 2)
        s, st = ph("size", "int32", []), ph("step", "int32", [])
        out, oi = S["N"].chunk(xx, ii, s, st)
        g = tf.gradients(tf.reduce_sum(out * ph("co", "float32", [None] * 3)), [xx])[0]
        return out, oi, g

    out, oi, g = run("chunk", build, dict(x=x, i=idx, size=size, step=step, co=co))
    case.count("runs")
    case.equal(out.shape, (size, B * nc, D), "shape of the chunks")
    eo, ei, eg = numpy.zeros_like(out), numpy.zeros_like(oi), numpy.zeros_like(x)
    for b in range(B):
        for c in range(nc):
            for j in range(size):
                t = c * step + j
                if t < lens[b]:
                    eo[j, b * nc + c] = x[t, b]
                    ei[j, b * nc + c] = 1
                    eg[t, b] += co[j, b * nc + c]
    case.require(numpy.array_equal(out, eo) and numpy.array_equal(oi, ei), "chunks", got=out.tolist(), expected=eo.tolist())
    m = idx.astype(bool)
    case.require(numpy.allclose(g[m], eg[m], atol=1e-4), "gradient of chunking", got=g.tolist(), expected=eg.tolist())
    case.count("grads")
    z = nprng.randn(size, B * nc, D).astype("float32")
    co2 = nprng.randn(T, B, D).astype("float32")

    def build2(ph):
        xx, ii = ph("x", "float32", [None] * 3), ph("i", "float32", [None] * 2)
        out, oi, f = S["N"].unchunk(xx, ii, ph("size", "int32", []), ph("step", "int32", []), ph("t", "int32", []), ph("b", "int32", []))
        g = tf.gradients(tf.reduce_sum(out * ph("co", "float32", [None] * 3)), [xx])[0]
        return out, oi, f, g

    out, oi2, f, g = run("unchunk", build2, dict(x=z, i=oi, size=size, step=step, t=T, b=B, co=co2))
    case.count("runs")
    for b in range(B):
        for t in range(T):
            pos = [(t - c * step, b * nc + c) for c in range(nc) if 0 <= t - c * step < size]
            if t < lens[b]:
                exp = numpy.mean([z[p] for p in pos], axis=0)
                case.require(numpy.allclose(out[t, b], exp, atol=1e-5), "unchunking: mean over the chunks", t=t, b=b, got=out[t, b].tolist(), expected=exp.tolist())
                case.equal(float(oi2[t, b]), 1.0, "unchunked index")
                case.require(abs(f[t, b] - 1.0 / len(pos)) < 1e-6, "unchunking factor", got=float(f[t, b]))
                for p in pos:
                    case.require(numpy.allclose(g[p], co2[t, b] / len(pos), atol=1e-5), "gradient of unchunking", got=g[p].tolist(), expected=(co2[t, b] / len(pos)).tolist())
            else:
                case.equal((float(oi2[t, b]), float(abs(out[t, b]).max())), (0.0, 0.0), "unchunking of the padding")
    case.count("grads")


# ---- LSTM ----


def sig(x):
    return 1 / (1 + numpy.exp(-x))


def lstm_ref(z, R, h0, c0, mask, order, dY, dh, dc):
    """:return: Y, final h, c, grads of (z, R, h0, c0)"""
    T, B, H4 = z.shape
    H = H4 // 4
    h, c = h0.copy(), c0.copy()
    Y = numpy.zeros((T, B, H))
    saved = []
    for t in order:
        a = z[t] + h @ R
        i, ig, f, o = numpy.tanh(a[:, :H]), sig(a[:, H : 2 * H]), sig(a[:, 2 * H : 3 * H]), sig(a[:, 3 * H :])
        cn = f * c + i * ig
        hn = o * numpy.tanh(cn)
        m = mask[t][:, None]
        saved.append((t, h, c, i, ig, f, o, cn, m))
        c = numpy.where(m, cn, c)
        h = numpy.where(m, hn, h)
        Y[t] = h * m
    fh, fc = h, c
    gz, gR = numpy.zeros_like(z), numpy.zeros_like(R)
    gh, gc = dh.copy(), dc.copy()
    for t, hp, cp, i, ig, f, o, cn, m in reversed(saved):
        ghn = (gh + dY[t]) * m
        gcn = gc * m + ghn * o * (1 - numpy.tanh(cn) ** 2)
        da = numpy.concatenate([gcn * ig * (1 - i**2), gcn * i * ig * (1 - ig), gcn * cp * f * (1 - f), ghn * numpy.tanh(cn) * o * (1 - o)], axis=1)
        gz[t] = da
        gR += hp.T @ da
        gh = gh * (~m) + da @ R.T
        gc = gc * (~m) + gcn * f
    return Y, fh, fc, gz, gR, gh, gc


def lstm(case):
    rng, nprng = case.rng, case.np_rng()
    kind = ["lstm2", "lowmem", "generic"][case.index % 3]
    T, B, H, D = rng.choice([1, 2, 5, 8]), rng.randint(1, 4), rng.choice([1, 2, 5]), rng.choice([1, 3])
    step = 1 if kind == "generic" else rng.choice([1, -1, 1, 2, -2])
    lens = [rng.randint(0 if kind == "lstm2" else 1, T) for _ in range(B)]
    lens[rng.randrange(B)] = T
    init = rng.choice([None, "c", "hc"] if kind == "lstm2" else [None, "c"])
    case.desc(kind=kind, T=T, B=B, H=H, D=D, step=step, lens=lens, init=init)
    f32 = lambda *sh: (nprng.randn(*sh) * 0.7).astype("float32")
    proj = kind == "lowmem"
    x = f32(T, B, D if proj else 4 * H)
    R, W, bias = f32(H, 4 * H), f32(D, 4 * H), f32(4 * H)
    c0 = f32(B, H) if init else numpy.zeros((B, H), "float32")
    h0 = f32(B, H) if init == "hc" else numpy.zeros((B, H), "float32")
    mask = numpy.array([[t < n for n in lens] for t in range(T)])
    dY, dh, dc = f32(T, B, H) * mask[:, :, None], f32(B, H), f32(B, H)
    if kind != "lstm2":
        dh = dh * 0
    tf = S["tf"]
    from tensorflow.compat.v1.nn import rnn_cell  # noqa

    def build(ph):
        xx = ph("x", "float32", [None, None, D if proj else 4 * H])
        ii = ph("i", "bool", [None, None])
        cc, hh = ph("c0", "float32", [None, H]), ph("h0", "float32", [None, H])
        N = S["N"]
        cls = {"lstm2": N.NativeLstm2, "lowmem": N.NativeLstmLowMemCell, "generic": N.NativeLstmCell}[kind]
        cell = cls(n_hidden=H, n_input_dim=D if proj else 4 * H, step=step)
        state = {None: None, "c": cc, "hc": {"c": cc, "h": hh}}[init]
        with tf.compat.v1.variable_scope("cell") as vs:
            out, fin = cell(xx, ii, initial_state=state)
            vs_name = vs.name
        vars_ = {v.op.name.split("/")[-1]: v for v in tf.compat.v1.get_collection(tf.compat.v1.GraphKeys.GLOBAL_VARIABLES, scope=vs_name + "/")}
        S["vars", kind, H, D, step, init] = vars_
        if kind == "lstm2":
            fh, fc = fin.h, fin.c
        else:
            fh, fc = tf.zeros_like(cc), fin
        loss = tf.reduce_sum(out * ph("dY", "float32", [None] * 3)) + tf.reduce_sum(fh * ph("dh", "float32", [None] * 2)) + tf.reduce_sum(fc * ph("dc", "float32", [None] * 2))
        names = sorted(vars_)
        wrt = [xx] + [vars_[n] for n in names] + ([cc] if init else []) + ([hh] if init == "hc" else [])
        return out, fh, fc, tf.gradients(loss, wrt)

    key = ("lstm", kind, H, D if proj else 0, step, init)
    feed = dict(x=x, i=mask, c0=c0, h0=h0, dY=dY, dh=dh, dc=dc)
    if key not in S["nets"]:
        try:
            run(key, build, feed)
        except S["tf"].errors.FailedPreconditionError:
            pass  # variables not yet set
    vars_ = S["vars", kind, H, D, step, init] if ("vars", kind, H, D, step, init) in S else S["vars", key]
    S["vars", key] = vars_
    with S["graph"].as_default():
        vals = {"W_re": R, "W": numpy.concatenate([W, R], 0), "b": bias}
        for n, v in vars_.items():
            S["sess"].run(v.initializer, feed_dict={v.initializer.inputs[1]: vals[n]})
    out, fh, fc, grads = run(key, build, feed)
    case.count("runs")
    case.count("lstm")
    case.count("sequences", B)
    z = x.astype("float64") if not proj else x.astype("float64") @ W + bias
    order = list(range(0, T, step)) if step > 0 else list(range(T - 1, -1, step))
    dY_ = numpy.zeros_like(dY)
    dY_[order] = dY[order]
    Y, eh, ec, gz, gR, gh, gc = lstm_ref(z, R.astype("float64"), h0.astype("float64"), c0.astype("float64"), mask, order, dY_, dh, dc)
    ok = lambda a, b: numpy.allclose(a, b, atol=2e-3, rtol=1e-3)
    m = numpy.zeros_like(mask)
    m[order] = mask[order]
    case.require(ok(out[m], Y[m]), "LSTM output", kind=kind, got=out.tolist(), expected=Y.tolist())
    case.require(ok(fc, ec), "LSTM final cell state", kind=kind, got=fc.tolist(), expected=ec.tolist())
    if kind == "lstm2":
        case.require(ok(fh, eh), "LSTM final output", kind=kind, got=fh.tolist(), expected=eh.tolist())
    if abs(step) == 1:
        exp = {"x": gz if not proj else gz @ W.T.astype("float64"), "W_re": gR, "W": numpy.concatenate([numpy.einsum("tbi,tbj->ij", x, gz), gR], 0), "b": gz.sum((0, 1)), "c0": gc, "h0": gh}
        names = ["x"] + sorted(vars_) + (["c0"] if init else []) + (["h0"] if init == "hc" else [])
        for n, g in zip(names, grads):
            e = exp[n]
            if n == "x":
                g, e = g[mask], e[mask]
            case.require(ok(g, e), "gradient of the LSTM", kind=kind, wrt=n, got=g.tolist(), expected=e.tolist())
        case.count("grads")


KINDS = {
    "ed": {"func": ed, "quick": 80, "thorough": 3000},
    "ed_succ": {"func": ed_succ, "quick": 60, "thorough": 2000},
    "ed_step": {"func": ed_step, "quick": 50, "thorough": 2000},
    "bw": {"func": bw, "quick": 70, "thorough": 3000},
    "viterbi": {"func": viterbi, "quick": 65, "thorough": 3000},
    "ctc_fsa": {"func": ctc_fsa, "quick": 55, "thorough": 1000},
    "ctc_loss": {"func": ctc_loss, "quick": 45, "thorough": 1000},
    "chunk": {"func": chunk, "quick": 40, "thorough": 1000},
    "lstm": {"func": lstm, "quick": 75, "thorough": 1500},
}
