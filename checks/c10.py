"""C10: vocabularies: text to labels and back (files, unknown, special symbols, BPE, sampling BPE, SentencePieces, characters, bytes)."""
import gzip
import itertools
import os
import pickle

RULE = (
    "case = one random vocabulary (label inventory, file format, special symbols, postfix), for BPE also random merge operations learned from a random "
    "corpus, and a set of random sentences (known and unknown words, unusual whitespace, non-ASCII, empty); every resulting label sequence is compared with "
    "an independent reference (dictionary lookup; naive BPE merging on the symbol list; all segmentations by dynamic programming; UTF-8) and mapped back."
)
ASSUMPTIONS = [
    "vocab files contain every index from 0 on; labels without line-break characters in line-based files",
    "BPE input words do not start with '$' (category mark-up) and contain no '</w>', labels of the sampling BPE do not contain the merge symbol except at the end",
]
MIN_COUNTS = {"sentences": 1500, "labels": 5000, "unknowns": 100, "segmentations": 400}
BUDGET = {"quick": 300, "thorough": 1500}

ALPH = "abcdeü"
UNUSUAL_WS = [" ", "  ", "\t", " \t ", "\n"]


def worker_init():
    from vlib import ds as D

    D.quiet_log()


def _word(rng, alphabet=ALPH, lo=1, hi=6):
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(lo, hi)))


def _join(rng, words):
    s = rng.choice(["", "", " "])
    for i, w in enumerate(words):
        s += (rng.choice(UNUSUAL_WS) if rng.random() < 0.2 else " ") * bool(i) + w
    return s + rng.choice(["", "", " ", "\n"])


def _write_vocab(case, labels, *, fmt=None, extra_dups=False, name="vocab"):
    """:return: filename, dict"""
    rng = case.rng
    tmp = case.tmpdir()
    d = {lb: i for i, lb in enumerate(labels)}
    fmt = fmt or rng.choice(["pkl", "dict", "lines", "dict.gz", "lines.gz"])
    items = list(d.items())
    rng.shuffle(items)
    sd = dict(items)
    # same base names in different directories
    os.makedirs(f"{tmp}/d{case.index}", exist_ok=True)
    fn = f"{tmp}/d{case.index}/{name}.{fmt.replace('dict', 'dict.txt').replace('lines', 'txt')}"
    if fmt == "pkl":
        with open(fn, "wb") as f:
            pickle.dump(sd, f)
    else:
        txt = (repr(sd) if rng.random() < 0.5 else "{\n" + "".join("%r: %i,\n" % kv for kv in items) + "}\n") if fmt.startswith("dict") else "\n".join(labels) + rng.choice(["\n", ""])
        data = txt.encode("utf8")
        if fmt.endswith(".gz"):
            data = gzip.compress(data)
        with open(fn, "wb") as f:
            f.write(data)
    return fn, fmt


def _labels(rng, n, extra=()):
    out = list(extra)
    while len(out) < n + len(extra):
        w = _word(rng)
        if w not in out:
            out.append(w)
    rng.shuffle(out)
    return out


def _maybe_idx(rng, labels, lb):
    """special symbols can be given by label or by index"""
    return lb if rng.random() < 0.6 else labels.index(lb)


# ---------------------------------------------------------------- plain vocabulary


def k_vocab(case):
    from returnn.datasets.util.vocabulary import Vocabulary

    rng = case.rng
    specials = ["<s>", "</s>", "<pad>", "[UNK]", "UNK", "<sep>", "<c1>"]
    specials = specials[: rng.randint(0, len(specials))]
    labels = _labels(rng, rng.choice([1, 2, 5, 30, 200]), specials)
    via = rng.choice(["file", "file", "labels", "callable"])
    opts = {}
    fmt = None
    if via == "file":
        opts["vocab_file"], fmt = _write_vocab(case, labels)
    else:
        opts.update(vocab_file=None, labels=(lambda: list(labels)) if via == "callable" else list(labels))
    unk = rng.choice(["none", "default", "given"])
    if unk == "default" and "UNK" not in labels:
        unk = "none"
    given = {}
    if unk == "given":
        given["unknown_label"] = rng.choice(labels)
    for k in ("bos_label", "eos_label", "pad_label"):
        if rng.random() < 0.5:
            given[k] = rng.choice(labels)
    for k in ("control_symbols", "user_defined_symbols"):
        if rng.random() < 0.3:
            given[k] = {f"n{i}": rng.choice(labels) for i in range(rng.randint(0, 3))}
    # some via file, some directly, some in both: direct ones win
    direct, infile = {}, {}
    use_file = rng.random() < 0.5
    for k, v in given.items():
        isd = isinstance(v, dict)
        how = rng.choice(["direct", "file", "both"]) if use_file else "direct"
        conv = lambda x: {a: _maybe_idx(rng, labels, b) for a, b in x.items()} if isd else _maybe_idx(rng, labels, x)
        other = {a: rng.choice(labels) for a in v} if isd else rng.choice(labels)
        if how == "direct":
            direct[k] = conv(v)
        elif how == "file":
            infile[k] = conv(v)
        else:
            direct[k] = conv(v)
            infile[k] = conv(other)
            if isd:
                infile[k]["only_file"] = conv({"x": labels[0]})["x"]
                v["only_file"] = labels[0]
    if unk == "none":
        if "unknown_label" in infile or not use_file or rng.random() < 0.5:
            direct["unknown_label"] = None
        else:
            infile["unknown_label"] = None
    if use_file:
        fn = f"{case.tmpdir()}/d{case.index}/special.txt"
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, "w") as f:
            f.write(repr(infile))
        opts["special_symbols_via_file"] = fn
    postfix = [rng.randrange(len(labels)) for _ in range(rng.choice([0, 0, 1, 2]))]
    if postfix or rng.random() < 0.3:
        opts["seq_postfix"] = list(postfix)
    if rng.random() < 0.3:
        opts["num_labels"] = len(labels)
    opts.update(direct)
    explicit_cls = rng.random() < 0.3
    case.desc(n=len(labels), via=via, fmt=fmt, unk=unk, given=sorted(given), use_file=use_file, post=len(postfix), sum=hash(tuple(labels)) % 10**6 if False else sum(map(len, labels)))
    objs = []
    for _ in range(rng.choice([1, 2])):  # second one from the cache
        objs.append(Vocabulary.create_vocab(**({"class": "Vocabulary"} if explicit_cls else {}), **opts))
    unk_label = {"none": None, "default": "UNK", "given": given.get("unknown_label")}[unk]
    for v in objs:
        case.equal(list(v.labels), labels, "labels")
        case.equal(v.num_labels, len(labels), "num_labels")
        case.equal(v.unknown_label_id, None if unk_label is None else labels.index(unk_label), "unknown_label_id")
        for k in ("bos_label", "eos_label", "pad_label"):
            case.equal(getattr(v, k + "_id"), labels.index(given[k]) if k in given else None, k)
        for k, a in (("control_symbols", "control_symbol_ids"), ("user_defined_symbols", "user_defined_symbol_ids")):
            case.equal(getattr(v, a), {n: labels.index(x) for n, x in given.get(k, {}).items()}, k)
        for i in rng.sample(range(len(labels)), min(5, len(labels))):
            case.equal(v.id_to_label(i), labels[i], "id_to_label")
            case.equal(v.label_to_id(labels[i]), i, "label_to_id")
            case.equal(v.to_id(labels[i]), i, "to_id(str)")
            case.equal(v.to_id(i), i, "to_id(int)")
        for bad in (-1, len(labels), len(labels) + 7):
            case.require(not v.is_id_valid(bad), f"id {bad} valid")
            case.equal(v.id_to_label(bad, default="dflt"), "dflt", "default of id_to_label")
            try:
                v.id_to_label(bad)
                case.require(False, f"id_to_label({bad}) gave a label")
            except KeyError:
                pass
        case.equal(v.label_to_id("not in there", default=None), None, "default of label_to_id")
        for _ in range(6):
            words = [rng.choice(labels) if rng.random() < 0.8 else _word(rng, ALPH + "XYZ", 1, 4) for _ in range(rng.choice([0, 1, 3, 8]))]
            sent = _join(rng, words)
            case.count("sentences")
            unknown = [w for w in words if w not in labels]
            if unknown and unk_label is None:
                try:
                    v.get_seq(sent)
                    case.require(False, "unknown word accepted without unknown label")
                except KeyError:
                    case.count("unknowns")
                continue
            exp = [labels.index(w) if w in labels else labels.index(unk_label) for w in words]
            case.count("labels", len(exp))
            case.count("unknowns", len(unknown))
            case.equal(list(v.get_seq(sent)), exp + postfix, f"get_seq({sent!r})")
            case.equal(list(v.get_seq_indices(words)), exp, "get_seq_indices")
            if not postfix:
                case.equal(list(v.get_seq(v.get_seq_labels(exp))), exp, "get_seq(get_seq_labels(seq))")
            import numpy

            case.equal(v.get_seq_labels(numpy.array(exp, dtype="int32")).split(), [labels[i] for i in exp], "get_seq_labels")


# ---------------------------------------------------------------- characters, bytes


def k_chars(case):
    import numpy
    from returnn.datasets.util.vocabulary import Vocabulary, CharacterTargets, Utf8ByteTargets

    rng = case.rng
    which = rng.choice(["chars", "chars", "utf8", "from_labels", "from_labels256"])
    pool = [chr(c) for c in rng.sample(list(range(33, 127)) + list(range(0xC0, 0x180)) + list(range(0x4E00, 0x4E80)), rng.randint(3, 60))] + [" "]
    if "@" not in pool:
        pool.append("@")
    rng.shuffle(pool)
    postfix = [rng.randrange(len(pool)) for _ in range(rng.choice([0, 0, 1, 2]))]
    case.desc(which=which, n=len(pool), first=ord(pool[0]), post=len(postfix))

    def sentence(extra):
        return "".join(rng.choice(pool) if rng.random() < 0.85 else rng.choice(extra) for _ in range(rng.choice([0, 1, 5, 30])))

    if which == "utf8":
        v = Vocabulary.create_vocab(**{"class": "Utf8ByteTargets"}, **({"seq_postfix": list(postfix)} if postfix else {}))
        case.equal(v.num_labels, 256, "num labels")
        case.require(isinstance(v, Utf8ByteTargets), "class")
        for _ in range(6):
            s = sentence(["\n", "\t", "€", "😀", "\x00", "\u2028", "é", "\x7f", "\u0800", "\uffff"])
            case.count("sentences")
            got = list(v.get_seq(s))
            case.equal(got, list(s.encode("utf8")) + postfix, "utf8 bytes")
            case.count("labels", len(got))
            if not postfix:
                case.equal(v.get_seq_labels(got), s, "utf8 round trip")
                for dt in ("uint8", "int32", "int64"):
                    case.equal(v.get_seq_labels(numpy.array(got, dtype=dt)), s, f"utf8 round trip from {dt}")
        return
    if which.startswith("from_labels"):
        if which == "from_labels256":
            labels = [chr(i) for i in range(256)]
            if rng.random() < 0.5:
                i, j = rng.sample(range(256), 2)
                labels[i], labels[j] = labels[j], labels[i]
                exp_cls = CharacterTargets
            else:
                exp_cls = Utf8ByteTargets
        elif rng.random() < 0.5:
            labels, exp_cls = list(pool), CharacterTargets
        else:
            labels, exp_cls = _labels(rng, 20, ["ab", "ba"]), Vocabulary
        v = Vocabulary.create_vocab_from_labels(labels)
        case.equal(type(v).__name__, exp_cls.__name__, "class by labels")
        case.equal(list(v.labels), labels, "labels")
        for _ in range(4):
            idx = [rng.randrange(len(labels)) for _ in range(rng.choice([1, 4, 10]))]
            if exp_cls is Utf8ByteTargets:
                idx = [i % 128 for i in idx]
            case.count("sentences")
            case.count("labels", len(idx))
            case.equal(list(v.get_seq(v.get_seq_labels(idx))), idx, "get_seq(get_seq_labels(seq))")
        return
    unk = rng.choice(["default", "none", "given"])
    opts = {}
    if unk == "none":
        opts["unknown_label"] = None
    unk_label = {"default": "@", "none": None, "given": rng.choice(pool)}[unk]
    if unk == "given":
        opts["unknown_label"] = _maybe_idx(rng, pool, unk_label)
    if rng.random() < 0.5:
        opts["vocab_file"], _ = _write_vocab(case, pool, fmt=rng.choice(["pkl", "dict", "lines", "dict.gz"]))
    else:
        opts.update(vocab_file=None, labels=list(pool))
    if postfix:
        opts["seq_postfix"] = list(postfix)
    v = Vocabulary.create_vocab(**{"class": "CharacterTargets"}, **opts)
    case.equal(list(v.labels), pool, "labels")
    for _ in range(6):
        s = sentence(["\u05d0", "\u05d1"] if rng.random() < 0.5 else pool)
        case.count("sentences")
        unknown = [c for c in s if c not in pool]
        if unknown and unk_label is None:
            try:
                v.get_seq(s)
                case.require(False, "unknown char accepted without unknown label")
            except KeyError:
                case.count("unknowns")
            continue
        case.count("unknowns", len(unknown))
        exp = [pool.index(c) if c in pool else pool.index(unk_label) for c in s]
        case.count("labels", len(exp))
        case.equal(list(v.get_seq(s)), exp + postfix, f"get_seq({s!r})")
        case.equal(v.get_seq_labels(exp), "".join(pool[i] for i in exp), "get_seq_labels")


# ---------------------------------------------------------------- BPE


def _learn_bpe(words, num, version):
    """:return: list of merges"""
    if version == (0, 1):
        words = [list(w) + ["</w>"] for w in words]
    else:
        words = [list(w[:-1]) + [w[-1] + "</w>"] for w in words]
    merges = []
    for _ in range(num):
        cnt = {}
        for w in words:
            for a, b in zip(w, w[1:]):
                cnt[(a, b)] = cnt.get((a, b), 0) + 1
        if not cnt:
            break
        best = max(sorted(cnt), key=lambda p: cnt[p])
        merges.append(best)
        words = [_merge(w, best) for w in words]
    return merges


def _merge(w, pair):
    out, i = [], 0
    while i < len(w):
        if i + 1 < len(w) and (w[i], w[i + 1]) == pair:
            out.append(w[i] + w[i + 1])
            i += 2
        else:
            out.append(w[i])
            i += 1
    return out


def _ref_bpe(word, merges, version, vocab):
    """naive: apply always the merge with the lowest rank which occurs"""
    ranks = {}
    for i, m in enumerate(merges):
        ranks.setdefault(m, i)
    syms = list(word) + ["</w>"] if version == (0, 1) else list(word[:-1]) + [word[-1] + "</w>"]
    while True:
        cand = [(ranks[p], p) for p in zip(syms, syms[1:]) if p in ranks]
        if not cand:
            break
        syms = _merge(syms, min(cand)[1])
    if syms[-1] == "</w>":
        syms = syms[:-1]
    elif syms[-1].endswith("</w>"):
        syms[-1] = syms[-1][:-4]
    # out-of-vocab segments are split again by undoing merges
    undo = {}
    for m in merges:
        undo.setdefault(m[0] + m[1], m)

    def split(seg, final):
        if (seg if final else seg + "@@") in vocab:
            return [seg]
        m = undo.get(seg + "</w>" if final else seg)
        if m is None:
            return [seg]
        left, right = m
        if final:
            right = right[:-4]
        return split(left, False) + split(right, final)

    out = []
    for i, s in enumerate(syms):
        out += split(s, i == len(syms) - 1)
    return out


def k_bpe(case):
    from returnn.datasets.util.vocabulary import Vocabulary

    rng = case.rng
    version = rng.choice([(0, 1), (0, 2)])
    header = version == (0, 2) or rng.random() < 0.3
    alph = ALPH[: rng.randint(2, 6)]
    corpus = [_word(rng, alph, 1, 8) for _ in range(rng.choice([3, 10, 30]))]
    merges = _learn_bpe(corpus, rng.choice([0, 3, 10, 30]), version)
    # merges which make a final segment end in a bare "</w>" are undone with an empty right part (v0.1); keep those in the vocab
    file_merges = list(merges)
    if merges and rng.random() < 0.2:
        file_merges.insert(rng.randint(1, len(merges)), rng.choice(merges))  # duplicate: the first one counts
        merges = list(dict.fromkeys(file_merges))
    fn = f"{case.tmpdir()}/d{case.index}/codes"
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    with open(fn, "wb") as f:
        if header:
            f.write(b"#version: %i.%i\n" % version)
        f.write("".join("%s %s\n" % m for m in file_merges).encode("utf8"))
    # labels: all which can occur, minus some
    segs = set()
    for c in alph:
        segs.update([c, c + "@@"])
    for a, b in merges:
        s = a + b
        if s.endswith("</w>"):
            segs.add(s[:-4])
        else:
            segs.update([s + "@@", s])
    segs.discard("")
    drop = rng.choice([0, 0, 0.2, 0.6])
    protect_single = rng.random() < 0.7
    keep = [s for s in sorted(segs) if rng.random() >= drop or (protect_single and len(s.replace("@@", "")) == 1)]
    if version == (0, 1):
        # undoing (x, "</w>") yields an empty segment: not meaningful, keep these in the vocab
        for a, b in merges:
            if b == "</w>" and a not in keep:
                keep.append(a)
    unk = rng.random() < 0.7
    labels = _labels(rng, 0, keep + (["UNK"] if unk else []))
    rng.shuffle(labels)
    if not labels:
        labels = ["UNK"]
        unk = True
    postfix = [rng.randrange(len(labels)) for _ in range(rng.choice([0, 0, 1]))]
    vf, fmt = _write_vocab(case, labels)
    opts = {"vocab_file": vf, "bpe_file": fn, "unknown_label": "UNK" if unk else None}
    if postfix:
        opts["seq_postfix"] = list(postfix)
    if rng.random() < 0.5:
        opts["class"] = "BytePairEncoding"
    case.desc(version=version, merges=len(merges), alph=alph, n=len(labels), drop=drop, unk=unk, fmt=fmt, corpus=corpus[:3])
    for _ in range(rng.choice([1, 2])):
        v = Vocabulary.create_vocab(**opts)
    for _ in range(8):
        words = [rng.choice(corpus) if rng.random() < 0.5 else _word(rng, alph + ("xy" if rng.random() < 0.2 else ""), 1, 9) for _ in range(rng.choice([0, 1, 4]))]
        sent = _join(rng, words)
        case.count("sentences")
        segs_exp = []
        for w in words:
            s = _ref_bpe(w, merges, version, labels)
            case.require("".join(s) == w, "reference is not a segmentation")
            segs_exp += [x + "@@" for x in s[:-1]] + s[-1:]
        unknown = [s for s in segs_exp if s not in labels]
        if unknown and not unk:
            try:
                v.get_seq(sent)
                case.require(False, "unknown subword accepted without unknown label")
            except KeyError:
                case.count("unknowns")
            continue
        case.count("unknowns", len(unknown))
        case.count("labels", len(segs_exp))
        case.count("segmentations", len(words))
        exp = [labels.index(s) if s in labels else labels.index("UNK") for s in segs_exp]
        got = list(v.get_seq(sent))
        case.equal(got, exp + postfix, f"BPE of {sent!r}: got {[labels[i] for i in got]}, expected {segs_exp}")
        if not unknown:
            case.equal(v.get_seq_labels(got[: len(exp)]).replace("@@ ", "").split(), words, "BPE merged again")


# ---------------------------------------------------------------- sampling BPE


def _all_segmentations(word, labels, merge_sym, prefix_sym):
    """all label sequences which spell the word"""
    lab = set(labels)
    out = []

    def rec(pos, acc):
        if pos == len(word):
            return
        for end in range(pos + 1, len(word) + 1):
            piece = word[pos:end]
            if prefix_sym is not None:
                p = prefix_sym + piece if not acc else piece
                nxt = [p] if p in lab else []
            elif end == len(word):
                nxt = [piece] if piece in lab else []
            else:
                nxt = [piece + merge_sym] if merge_sym and piece + merge_sym in lab else []
            for p in nxt:
                if end == len(word):
                    out.append(acc + [p])
                else:
                    rec(end, acc + [p])
        if prefix_sym is not None and pos == 0 and not acc and prefix_sym in lab:
            rec(0, [prefix_sym])

    rec(0, [])
    return out


def k_sampling_bpe(case):
    from returnn.datasets.util.vocabulary import Vocabulary
    from returnn.util.bpe import CharSyncSearch, PrefixTree, BpeOpts

    rng = case.rng
    mode = rng.choice(["default", "default", "prefix", "other_sym"])
    merge_sym = {"default": "@@", "prefix": None, "other_sym": rng.choice(["+", "##", "@"])}[mode]
    prefix_sym = rng.choice(["▁", "_", "<w>"]) if mode == "prefix" else None
    alph = ALPH[: rng.randint(2, 4)]
    labels = []
    for c in alph:
        if rng.random() < 0.9:
            labels.append(c)
        if rng.random() < 0.9:
            labels.append((c + merge_sym) if merge_sym else prefix_sym + c)
    for _ in range(rng.choice([2, 8, 25])):
        w = _word(rng, alph, 2, 5)
        labels.append(rng.choice([w, w + merge_sym if merge_sym else prefix_sym + w]))
    if prefix_sym:
        labels.append(rng.choice([prefix_sym, prefix_sym + alph[0]]))
    unk = rng.random() < 0.6
    if unk:
        labels.append("UNK")
    labels = list(dict.fromkeys(labels))
    rng.shuffle(labels)
    breadth = rng.choice([0.0, 0.0, 1.0, 0.5, 0.1])
    postfix = [rng.randrange(len(labels)) for _ in range(rng.choice([0, 0, 1]))]
    vf, fmt = _write_vocab(case, labels)
    opts = {"class": "SamplingBytePairEncoding", "vocab_file": vf, "breadth_prob": breadth, "unknown_label": "UNK" if unk else None}
    if mode == "prefix":
        opts["word_prefix_symbol"] = prefix_sym
    elif mode == "other_sym":
        opts["label_postfix_merge_symbol"] = merge_sym
    if postfix:
        opts["seq_postfix"] = list(postfix)
    case.desc(mode=mode, alph=alph, n=len(labels), breadth=breadth, unk=unk, fmt=fmt, labels=labels[:4])
    v = Vocabulary.create_vocab(**opts)
    v2 = Vocabulary.create_vocab(**opts)
    tree = PrefixTree(opts=BpeOpts(label_postfix_merge_symbol=merge_sym, word_prefix_symbol=prefix_sym))
    for lb in labels:
        tree.add(lb)
    words_pool = [_word(rng, alph + ("x" if rng.random() < 0.1 else ""), 1, 7) for _ in range(8)]
    segs = {w: _all_segmentations(w, labels, merge_sym, prefix_sym) for w in words_pool}
    for w in words_pool:
        got = [tuple(s) for s in CharSyncSearch(bpe=tree, word=w).search()]
        case.require(len(got) == len(set(got)), f"duplicate segmentations of {w!r}")
        case.equal(sorted(got), sorted(map(tuple, segs[w])), f"all segmentations of {w!r}")
        case.count("segmentations")
    hist = []
    for rep in range(8):
        words = [rng.choice(words_pool) for _ in range(rng.choice([0, 1, 3]))]
        sent = _join(rng, words)
        seed = rng.randrange(1000)
        v.set_random_seed(seed)
        case.count("sentences")
        if not unk and any(not segs[w] for w in words):
            try:
                v.get_seq(sent)
                case.require(False, "word without segmentation accepted without unknown label")
            except AssertionError:
                raise
            except Exception:  # noqa
                case.count("unknowns")
            continue
        got = list(v.get_seq(sent))
        v2.set_random_seed(seed)
        case.equal(list(v2.get_seq(sent)), got, "same seed, same segmentation")
        case.equal(got[len(got) - len(postfix) :], postfix, "postfix")
        seq = [labels[i] for i in (got[: len(got) - len(postfix)])]
        case.count("labels", len(seq))
        # parse: the delivered sequence must be the concatenation of one segmentation per word
        pos = {0}
        for w in words:
            nxt = set()
            options = segs[w] or [["UNK"]]
            if not segs[w]:
                case.count("unknowns")
            if breadth in (0.0, 1.0) and segs[w]:
                # deterministic: longest first resp. shortest first
                def key(s):
                    lens = [len(x) - (len(merge_sym) if merge_sym and i < len(s) - 1 else 0) - (len(prefix_sym) if prefix_sym and i == 0 else 0) for i, x in enumerate(s)]
                    return lens

                srt = sorted(segs[w], key=key)
                options = [srt[-1] if breadth == 0.0 else srt[0]]
            for p in pos:
                for s in options:
                    if seq[p : p + len(s)] == s:
                        nxt.add(p + len(s))
            pos = nxt
            case.count("segmentations")
        case.require(len(seq) in pos, f"not a segmentation of {words}: {seq}", breadth=breadth)
        hist.append(seq)


# ---------------------------------------------------------------- sentence pieces


_SP = {}


def k_sentencepiece(case):
    import io
    import random
    import sentencepiece as spm
    from returnn.datasets.util.vocabulary import Vocabulary, SentencePieces

    rng = case.rng
    mkey = rng.randrange(4)
    if mkey not in _SP:
        mr = random.Random(mkey)
        words = [_word(mr, ALPH, 1, 6) for _ in range(60)]
        model = io.BytesIO()
        kw = dict(model_type=["unigram", "bpe", "unigram", "char"][mkey])
        if mkey == 2:
            kw.update(pad_id=3, control_symbols=["<c>"], user_defined_symbols=["<sep>"])
        spm.SentencePieceTrainer.train(
            sentence_iterator=iter([" ".join(mr.choice(words) for _ in range(6)) for _ in range(200)]), model_writer=model, vocab_size=40 if mkey != 3 else 12, hard_vocab_limit=False, minloglevel=2, **kw
        )
        _SP[mkey] = (model.getvalue(), words)
    model, words = _SP[mkey]
    fn = f"{case.tmpdir()}/d{case.index}/spm.model"
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    with open(fn, "wb") as f:
        f.write(model)
    opts = {"class": "SentencePieces"}
    use_file = rng.random() < 0.6
    opts["model_file" if use_file else "model_proto"] = fn if use_file else model
    add_bos, add_eos, rev = rng.random() < 0.3, rng.random() < 0.3, rng.random() < 0.15
    if add_bos:
        opts["add_bos"] = True
    if add_eos:
        opts["add_eos"] = True
    if rev:
        opts["reverse"] = True
    if mkey == 2 and rng.random() < 0.7:
        opts.update(control_symbols={"c": "<c>"}, user_defined_symbols={"sep": "<sep>"})
    case.desc(mkey=mkey, use_file=use_file, bos=add_bos, eos=add_eos, rev=rev)
    ref = spm.SentencePieceProcessor(model_proto=model)
    v = Vocabulary.create_vocab(**dict(opts))
    n = ref.vocab_size()
    pieces = [ref.id_to_piece(i) for i in range(n)]
    case.require(isinstance(v, SentencePieces), "class")
    case.equal(v.num_labels, n, "num labels")
    case.equal(list(v.labels), pieces, "labels")
    for name, i in (("unknown", ref.unk_id()), ("bos", ref.bos_id()), ("eos", ref.eos_id()), ("pad", ref.pad_id())):
        case.equal(getattr(v, name + "_label_id"), i if i >= 0 else None, name)
    if "control_symbols" in opts:
        case.equal(v.control_symbol_ids, {"c": ref.piece_to_id("<c>")}, "control symbols")
        case.equal(v.user_defined_symbol_ids, {"sep": ref.piece_to_id("<sep>")}, "user defined symbols")
    for i in range(n):
        case.equal(v.id_to_label(i), pieces[i], "id_to_label")
        case.equal(v.label_to_id(pieces[i]), i, f"label_to_id({pieces[i]!r})")
    case.equal(v.label_to_id("nopenope", default=None), None, "unknown piece default")
    try:
        v.label_to_id("nopenope")
        case.require(False, "unknown piece accepted")
    except KeyError:
        pass
    for _ in range(6):
        ws = [rng.choice(words) if rng.random() < 0.8 else _word(rng, ALPH, 1, 6) for _ in range(rng.choice([0, 1, 5]))]
        sent = _join(rng, ws)
        case.count("sentences")
        got = list(v.get_seq(sent))
        exp = list(ref.encode(sent, out_type=int))
        if rev:
            exp = exp[::-1]
        exp = ([ref.bos_id()] if add_bos else []) + exp + ([ref.eos_id()] if add_eos else [])
        case.equal(got, exp, "SentencePieces get_seq")
        case.count("labels", len(got))
        core = got[len([1] * add_bos) : len(got) - int(add_eos)]
        if rev:
            core = core[::-1]
        if ref.unk_id() not in core:
            case.equal("".join(pieces[i] for i in core).replace("▁", " ").split(), ws, "pieces spell the text")


KINDS = {
    "vocab": {"func": k_vocab, "quick": 500, "thorough": 6000},
    "chars": {"func": k_chars, "quick": 300, "thorough": 5000},
    "bpe": {"func": k_bpe, "quick": 900, "thorough": 20000},
    "sampling_bpe": {"func": k_sampling_bpe, "quick": 900, "thorough": 20000},
    "sentencepiece": {"func": k_sentencepiece, "quick": 100, "thorough": 2000},
}
