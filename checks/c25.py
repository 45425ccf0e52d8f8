"""C25: text corpora (LmDataset, TranslationDataset, TranslationFactorsDataset, ConfusionNetworkDataset) deliver exactly the lines of the files as labels."""
import gzip
import json
import pickle
from xml.sax.saxutils import escape
from vlib import ds as D

RULE = (
    "case = random text corpora written as line files / gzip / Bliss XML (with or without final newline, empty lines, non-ASCII, several files), random symbol tables or "
    "vocabularies in all file formats, random options; every delivered sequence of several epochs (and of given orders) is compared with an independent "
    "line-by-line reference; readers are delayed at random (slow file reads, delays after thread start) for the translation datasets. Non-trivial: at least two sequences."
)
ASSUMPTIONS = [
    "no whitespace-only lines, no line-break characters inside lines, no nested square brackets",
    "LmDataset with auto_replace_unknown_symbol: the unknown symbol is in the symbol table",
    "source_postfix of ConfusionNetworkDataset without leading space",
]
MIN_COUNTS = {"seqs_checked": 2000, "labels": 8000, "skipped_seqs": 10, "unknowns": 50, "slow_reads": 20}
BUDGET = {"quick": 300, "thorough": 1500}
CASE_TIMEOUT = 240
HANG_IS_VIOLATION = True


def worker_init():
    D.quiet_log()


WORDS = ["haus", "baum", "Über", "der", "die", "x", "é", "a", "das", "straße", "l'eau", "1.5", "co-op"]


# ---------------------------------------------------------------- corpus files


def _write_lines(rng, fn, lines, final_newline=True):
    data = "".join(line + "\n" for line in lines)
    if not final_newline and data:
        data = data[:-1]
    data = data.encode("utf8")
    with open(fn, "wb") as f:
        f.write(gzip.compress(data) if fn.endswith(".gz") else data)


def _write_bliss(rng, fn, segs):
    out = ['<?xml version="1.0" encoding="utf-8" ?>', '<corpus name="c">']
    i = 0
    while i < len(segs):
        n = rng.randint(1, 3)
        out.append('<recording audio="/nowhere/%i.wav" name="rec%i">' % (i, i))
        for s in segs[i : i + n]:
            pad = rng.choice(["", " ", "\n    "])
            out.append('<segment start="0" end="1.0" name="seg%i"><orth>%s%s%s</orth></segment>' % (i, pad, escape(s), pad))
        out.append("</recording>")
        i += n
    out.append("</corpus>\n")
    data = "\n".join(out).encode("utf8")
    with open(fn, "wb") as f:
        f.write(gzip.compress(data) if fn.endswith(".gz") else data)


def _corpus(case, gen_line):
    """:return: filenames, list of lines per file (what has to be delivered), skip_empty_lines"""
    rng = case.rng
    tmp = case.tmpdir()
    skip_empty = rng.random() < 0.6
    fns, exp = [], []
    for fi in range(rng.choice([1, 1, 2, 3])):
        fmt = rng.choice(["txt", "txt", "txt", "txt.gz", "xml", "xml.gz"])
        lines = [gen_line() for _ in range(rng.choice([1, 2, 7, 20]))]
        if fmt.startswith("txt"):
            for _ in range(rng.choice([0, 0, 1, 3])):
                lines.insert(rng.randint(0, len(lines)), "")
            final = rng.random() < 0.6
            if not final and not lines[-1]:
                final = True  # a file ending with two newlines resp. one: not the subject here
            fn = f"{tmp}/corpus{fi}.{fmt}"
            _write_lines(rng, fn, [(rng.choice(["", " "]) + x + rng.choice(["", "  "])) if x and rng.random() < 0.1 else x for x in lines], final_newline=final)
            if skip_empty:
                lines = [x for x in lines if x]
        else:
            fn = f"{tmp}/corpus{fi}.{fmt}"
            _write_bliss(rng, fn, lines)
            lines = [" ".join(x.split()) for x in lines]
        fns.append(fn)
        exp.append(lines)
    return fns, exp, skip_empty


# ---------------------------------------------------------------- LmDataset: reference for the symbols


def _parse(line, word_based, remove_chars="(){}"):
    for c in remove_chars:
        line = line.replace(c, "")
    line = " ".join(line.split())
    return _symbols(line, word_based)


def _symbols(s, word_based):
    if word_based:
        return [w.upper() if w.startswith("[") else w for w in s.split()]
    out = []
    i = 0
    while i < len(s):
        if s[i] == "[":
            j = s.index("]", i)
            out.append(s[i : j + 1].upper())
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return out


def k_lm(case):
    import numpy

    rng = case.rng
    tmp = case.tmpdir()
    mode = rng.choice(["vocab", "symbols", "symbols", "map", "map"])
    word_based = rng.random() < 0.5
    specials = ["[NOISE]", "[hes]"]
    oov = ["zyx", "QQ", "ñandú"]

    def gen_line():
        ws = []
        for _ in range(rng.choice([1, 2, 5, 9])):
            r = rng.random()
            ws.append(rng.choice(specials) if r < 0.08 and mode != "vocab" else rng.choice(oov) if r < oov_prob else rng.choice(WORDS))
        line = ""
        for i, w in enumerate(ws):
            line += ("  " if rng.random() < 0.05 else " ") * bool(i) + w
        if rng.random() < 0.1 and mode != "vocab":
            line += rng.choice([" (", "{}", ")"])
        return line

    oov_prob = rng.choice([0.0, 0.15, 0.3])
    fns, exp_lines, skip_empty = _corpus(case, gen_line)
    lines = [x for xs in exp_lines for x in xs]
    opts = {"class": "LmDataset"}
    corpus = fns if len(fns) > 1 or rng.random() < 0.5 else fns[0]
    opts["corpus_file"] = (lambda: corpus) if rng.random() < 0.2 else corpus
    if not skip_empty or rng.random() < 0.3:
        opts["skip_empty_lines"] = skip_empty
    # tags
    tags = ["line-%i" % i for i in range(len(lines))]
    tag_mode = rng.choice(["no", "no", "one", "list"])
    if tag_mode != "no":
        ids = rng.sample(range(10**5), len(lines))
        tags = ["corpus/ü-%i" % i for i in ids]

        def write_tags(name, ts):
            fmt = rng.choice(["txt", "txt.gz", "pkl", "pkl.gz"])
            fn = f"{tmp}/{name}.{fmt}"
            data = pickle.dumps(ts) if fmt.startswith("pkl") else ("".join(t + "\n" for t in ts)).encode("utf8")
            with open(fn, "wb") as f:
                f.write(gzip.compress(data) if fmt.endswith(".gz") else data)
            return fn

        if tag_mode == "one":
            opts["seq_list_file"] = write_tags("tags", tags)
        else:
            o = 0
            opts["seq_list_file"] = []
            for fi, xs in enumerate(exp_lines):
                opts["seq_list_file"].append(write_tags(f"tags{fi}", tags[o : o + len(xs)]))
                o += len(xs)
    # labels
    error_on_invalid, delayed, start_sym = True, False, "[START]"
    if mode == "vocab":
        which = rng.choice(["word", "char"])
        if which == "word":
            labels = ["UNK"] + WORDS + ["f%i" % i for i in range(rng.choice([0, 113, 114, 115, 242, 243, 300]))]
            rng.shuffle(labels)
            with open(f"{tmp}/v.txt", "w") as f:
                f.write("\n".join(labels) + "\n")
            post = [rng.randrange(len(labels))] if rng.random() < 0.4 else []
            opts["orth_vocab"] = {"vocab_file": f"{tmp}/v.txt", "unknown_label": "UNK", "seq_postfix": post}
            conv = lambda line: [labels.index(w) if w in labels else labels.index("UNK") for w in line.split()] + post
        else:
            labels = sorted(set("".join(WORDS) + "@ "))
            post = []
            with open(f"{tmp}/v.pkl", "wb") as f:
                pickle.dump({c: i for i, c in enumerate(labels)}, f)
            opts["orth_vocab"] = {"class": "CharacterTargets", "vocab_file": f"{tmp}/v.pkl"}
            conv = lambda line: [labels.index(c) if c in labels else labels.index("@") for c in line.strip()]
        if rng.random() < 0.3:
            from returnn.datasets.util.vocabulary import Vocabulary

            opts["orth_vocab"] = Vocabulary.create_vocab(**opts["orth_vocab"])
        seq_end = None
    else:
        seq_end = rng.choice(["[END]", "[END]", None, "</s>"])
        word_end = rng.choice([None, "[SP]"]) if not word_based else rng.choice([None, None, "[SP]"])
        unk = rng.choice(["[UNKNOWN]", "<unk>", None])
        auto = rng.random() < 0.5
        error_on_invalid = rng.random() < 0.3 if not auto else rng.random() < 0.5
        delayed = rng.random() < 0.4 and seq_end is not None
        base = set(WORDS) if word_based else set("".join(WORDS) + " ")
        base |= {"[NOISE]", "[HES]"}
        if rng.random() < 0.3:
            base.discard(rng.choice(sorted(base)))  # makes some known thing unknown
        labels = sorted(base)
        for s in (seq_end, word_end, start_sym if delayed else None):
            if s is not None and s not in labels:
                labels.append(s)
        if auto and unk is not None and unk not in labels:
            labels.append(unk)
        labels += ["f%i" % i for i in range(rng.choice([0, 0, max(0, 128 - len(labels)), max(0, 129 - len(labels)), 256, 300]))]
        rng.shuffle(labels)
        if mode == "symbols":
            opts["orth_symbols_file"] = f"{tmp}/syms.txt"
            with open(f"{tmp}/syms.txt", "w") as f:
                f.write("".join(x + "\n" for x in labels))
        else:
            fmt = rng.choice(["pkl", "dict", "lines"])
            if fmt == "lines" and " " in labels:
                fmt = "dict"
            items = [(x, i) for i, x in enumerate(labels)]
            rng.shuffle(items)
            fn = f"{tmp}/map.{'pkl' if fmt == 'pkl' else 'txt'}"
            opts["orth_symbols_map_file"] = fn
            if fmt == "pkl":
                with open(fn, "wb") as f:
                    pickle.dump(dict(items), f)
            else:
                with open(fn, "w") as f:
                    f.write(repr(dict(items)) if fmt == "dict" else "".join("%s %i\n" % kv for kv in items))
        repl = {}
        if rng.random() < 0.4:
            pool = WORDS if word_based else list("abdhx(1éZQ")
            for _ in range(rng.randint(1, 3)):
                val = [rng.choice(WORDS) for _ in range(rng.choice([0, 1, 2]))] if word_based else list(rng.choice(["", "a", "bb", "x y", "Z"]))
                repl[rng.choice(pool)] = " ".join(val) if word_based else "".join(val)
            opts["orth_replace_map_file"] = f"{tmp}/repl.json"
            with open(f"{tmp}/repl.json", "w") as f:
                f.write(json.dumps(repl))
        rmap = {k: _symbols(v, word_based) for k, v in repl.items()}
        if word_end and not word_based:
            rmap[" "] = [word_end]
        if word_based or rng.random() < 0.5:
            opts["word_based"] = word_based
        if word_end:
            opts["word_end_symbol"] = word_end
        if seq_end != "[END]":
            opts["seq_end_symbol"] = seq_end
        if unk != "[UNKNOWN]":
            opts["unknown_symbol"] = unk
        if auto:
            opts["auto_replace_unknown_symbol"] = True
        if not error_on_invalid:
            opts["error_on_invalid_seq"] = False
        if delayed:
            opts["add_delayed_seq_data"] = True
            if rng.random() < 0.5:
                start_sym = rng.choice(labels)
                opts["delayed_seq_data_start_symbol"] = start_sym
            elif start_sym not in labels:
                delayed = False
                opts.pop("add_delayed_seq_data")

        def conv(line):
            syms = _parse(line, word_based)
            if word_end and not word_based:
                syms = syms + [word_end]
            if seq_end is not None:
                syms = syms + [seq_end]
            syms = [y for x in syms for y in rmap.get(x, [x])]
            sp = word_end if word_end and not word_based else " "

            def collapse(xs):
                out = []
                for x in xs:
                    if x == sp and out and out[-1] == sp:
                        continue
                    out.append(x)
                return out

            syms = collapse(syms)
            if auto:
                while any(x not in labels for x in syms):
                    case.count("unknowns")
                    bad = next(x for x in syms if x not in labels)
                    syms = collapse([y for x in syms for y in (([unk] if unk is not None else []) if x == bad else [x])])
            if any(x not in labels for x in syms):
                return None
            return [labels.index(x) for x in syms]

    if rng.random() < 0.2:
        opts["dtype"] = rng.choice(["int32", "int64"])
    exp = [conv(x) for x in lines]
    if any(e is None for e in exp) and error_on_invalid:
        error_on_invalid = False
        opts["error_on_invalid_seq"] = False
    pe = rng.choice([1, 1, 2, 3])
    ordering = rng.choice(["default", "default", "reverse", "random", "sorted"])
    if pe != 1:
        opts["partition_epoch"] = pe
    opts["seq_ordering"] = ordering
    case.desc(mode=mode, word_based=word_based, files=[x.rsplit("/")[-1] for x in fns], n=len(lines), opts=sorted(opts), L=len(labels), tag_mode=tag_mode, ord=ordering, pe=pe, first=lines[0])
    if len(lines) < 2:
        case.trivial()
    ds = D.init_dataset(opts)
    case.equal(ds.num_outputs["data"], [len(labels), 1], "num_outputs")
    case.equal(list(ds.labels["data"]), labels, "labels")
    valid = [i for i in range(len(lines)) if exp[i] is not None]
    case.count("skipped_seqs", len(lines) - len(valid))

    def check(got, order, what):
        order = [i for i in order if exp[i] is not None]
        case.equal([g[0] for g in got], [tags[i] for i in order], f"{what}: tags")
        for (tag, data), i in zip(got, order):
            case.count("seqs_checked")
            case.count("labels", len(exp[i]))
            case.equal(data["data"].tolist(), exp[i], f"{what}: data of {lines[i]!r}")
            case.equal(str(data["data"].dtype), ds.get_data_dtype("data"), "dtype")
            if delayed:
                case.equal(data["delayed"].tolist(), [labels.index(start_sym)] + exp[i][:-1], f"{what}: delayed data of {lines[i]!r}")

    before_init = rng.random() < 0.3
    if before_init:
        case.equal(list(ds.get_all_tags()), tags, "get_all_tags")
    for full in range(rng.choice([1, 2])):
        seen = []
        for part in range(pe):
            ds.init_seq_order(epoch=full * pe + part + 1)
            cur = list(ds.get_current_seq_order())
            if cur and all(exp[i] is None for i in cur):
                continue  # nothing at all to deliver: not supported
            got = D.read_current(ds, batch=rng.choice([1, 3]))
            case.equal([g[0] for g in got], [tags[i] for i in cur if exp[i] is not None], "order as announced by get_current_seq_order")
            idx = [tags.index(g[0]) for g in got]
            check(got, idx, f"epoch {full * pe + part + 1}")
            seen += idx
        if ordering == "default":
            case.equal(seen, valid, "default order")
        elif ordering == "reverse":
            case.equal(seen, valid[::-1], "reverse order")
        else:
            case.equal(sorted(seen), valid, "every line exactly once per full epoch")
    case.equal(list(ds.get_all_tags()), tags, "get_all_tags")
    case.equal(ds.get_total_num_seqs(), len(lines), "total num seqs")
    order = [rng.choice(valid) for _ in range(rng.randint(1, 6))] if valid else []
    if order:
        check(D.read_epoch(ds, 1, init_kw={"seq_order": order}), order, "seq_order")
        check(D.read_epoch(ds, 1, init_kw={"seq_list": [tags[i] for i in order]}), order, "seq_list")
    if rng.random() < 0.3 and not callable(opts["corpus_file"]):
        ds2 = pickle.loads(pickle.dumps(ds))
        check(D.read_epoch(ds2, 1, init_kw={"seq_order": order}), order, "unpickled")


# ---------------------------------------------------------------- read_corpus


def k_read_corpus(case):
    from returnn.datasets.lm import read_corpus

    rng = case.rng
    fns, exp, skip_empty = _corpus(case, lambda: " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 5))))
    case.desc(files=fns and [f.rsplit("/")[-1] for f in fns], n=[len(x) for x in exp], skip=skip_empty, first=exp[0][:1])
    out = []
    for fn, lines in zip(fns, exp):
        dec = rng.random() < 0.5
        got = read_corpus(fn, skip_empty_lines=skip_empty, decode=dec)
        got = [x if dec else x.decode("utf8") for x in got]
        case.equal(got, lines, f"read_corpus {fn}")
        out += lines
        case.count("seqs_checked", len(lines))
    acc = []
    for fn in fns:
        read_corpus(fn, skip_empty_lines=skip_empty, out_list=acc)
    case.equal(acc, out, "out_list")


# ---------------------------------------------------------------- translation datasets


class _SlowFile:
    def __init__(self, f, rng, case):
        self._f, self._rng, self._case = f, rng, case

    def readlines(self, *args):
        _real_sleep(self._rng.choice([0, 0.001, 0.01, 0.03]))
        self._case.count("slow_reads")
        return self._f.readlines(*args)

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, item):
        return getattr(self._f, item)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self._f.close()


_real_sleep = __import__("time").sleep


class _Delays:
    """slow corpus file reads, delays after thread start, short poll sleeps"""

    def __init__(self, case, prefixes):
        self.case, self.prefixes = case, prefixes
        self.slow = case.rng.random() < 0.6
        self.start_delay = case.rng.choice([0, 0, 0.02, 0.08])
        self.polls = 0

    def __enter__(self):
        import builtins
        import random
        import threading
        import time

        self.saved = (builtins.open, threading.Thread.start, time.sleep)
        real_open, real_start, real_sleep = self.saved
        rng = random.Random(self.case.rng.random())
        main = threading.current_thread()

        def open_(file, mode="r", *a, **kw):
            f = real_open(file, mode, *a, **kw)
            if self.slow and isinstance(file, str) and mode == "rb" and any(file.startswith(p) for p in self.prefixes) and "vocab" not in file and not file.endswith(".gz"):
                return _SlowFile(f, rng, self.case)
            return f

        def start(thread):
            real_start(thread)
            if self.start_delay:
                real_sleep(self.start_delay)

        def sleep(t):
            if threading.current_thread() is main:
                self.polls += 1
                if self.polls > 4000:
                    raise RuntimeError("data never arrives (polled 4000 times)")
            real_sleep(min(t, 0.01))

        builtins.open, threading.Thread.start, time.sleep = open_, start, sleep
        return self

    def __exit__(self, *args):
        import builtins
        import threading
        import time

        builtins.open, threading.Thread.start, time.sleep = self.saved


def _vocab(rng, words, specials, path, gaps=False):
    ws = list(words) + list(specials)
    rng.shuffle(ws)
    d = {w: i for i, w in enumerate(ws)}
    if rng.random() < 0.2:
        d["<alias>"] = d[rng.choice(ws)]  # several labels can share an index
    with open(path, "wb") as f:
        pickle.dump(d, f)
    return d


def k_translation(case):
    try:
        _translation(case)
    except KeyboardInterrupt:
        case.require(False, "reader thread failed")


def _translation(case):
    rng = case.rng
    tmp = case.tmpdir()
    which = rng.choice(["plain", "plain", "factors", "confusion"])
    n = rng.choice([1, 2, 6, 30])
    big = rng.random() < (0.03 if case.tier == "quick" else 0.05)
    if big:
        n = rng.choice([3000, 5000])
    src_words = [w + "s" for w in WORDS] + ["src%i" % i for i in range(rng.choice([0, 3, 50]))]
    tgt_words = [w + "t" for w in WORDS] + ["tgt%i" % i for i in range(rng.choice([0, 7, 70]))]
    src_unk, tgt_unk = rng.choice([("<unk>", "<unk>"), ("<unk>", "<UNK>"), (None, None), ("<unk>", None)])
    source_only = rng.random() < 0.15 and which != "confusion"
    no_ref = rng.random() < 0.15 and not source_only and which != "confusion"
    if which == "confusion" and src_unk is None:
        src_unk = "<unk>"
    post_s, post_t = rng.choice(["", "</s>"]), rng.choice(["", "</s>"])
    sf = {"plain": [], "factors": ["sfac%i" % i for i in range(rng.choice([0, 1, 2]))], "confusion": []}[which]
    tf = {"plain": [], "factors": ["tfac%i" % i for i in range(rng.choice([0, 1, 2]))], "confusion": []}[which]
    src_key = "sparse_inputs" if which == "confusion" else "data"
    vocabs = {src_key: _vocab(rng, src_words, ["</s>"] + [src_unk] * bool(src_unk), f"{tmp}/source.vocab.pkl")}
    if not source_only:
        vocabs["classes"] = _vocab(rng, tgt_words, ["</s>"] + [tgt_unk] * bool(tgt_unk), f"{tmp}/target.vocab.pkl")
    unk = {src_key: src_unk, "classes": tgt_unk}
    for f in sf + ([] if source_only else tf):
        vocabs[f] = _vocab(rng, ["F%i" % i for i in range(rng.randint(2, 9))], ["</s>"], f"{tmp}/{f}.vocab.pkl")
    density = rng.choice([1, 3, 20])

    def sentence(words, unk_label, lo=1):
        return [rng.choice(words) if rng.random() < 0.9 or unk_label is None else rng.choice(["oov1", "öov"]) for _ in range(rng.choice([lo, 1, 3, 8]) if not big else rng.choice([3, 60]))]

    def side(words, unk_label, key, factors, post, cn=False):
        lines, exps = [], []
        for _ in range(n):
            ws = sentence(words, unk_label, lo=rng.choice([0, 1]))
            facs = [[rng.choice([k for k in vocabs[f] if k.startswith("F")]) for _ in ws] for f in factors]
            v = vocabs[key]
            look = lambda w: v[w] if w in v else v[unk_label]
            case.count("unknowns", sum(w not in v for w in ws))
            if cn:
                import numpy

                if rng.random() < 0.5:
                    slots = [[(rng.choice(words + ["oov1"]), round(rng.random(), 4)) for _ in range(rng.choice([1, 2, 4]))] for _ in ws]
                    lines.append("__ALT__ " + " ".join("__".join("%s|%s" % a for a in s) for s in slots))
                else:
                    slots = [[(w, 1.0)] for w in ws]
                    lines.append(" ".join(ws))
                if post:
                    slots = slots + [[(post, 1.0)]]
                a = numpy.zeros((len(slots), density), "int32")
                b = numpy.zeros((len(slots), density), "float32")
                for i, s in enumerate(slots):
                    for j, (w, c) in enumerate(s[:density]):
                        a[i, j] = look(w)
                        b[i, j] = c
                exps.append({key: a.tolist(), "sparse_weights": b.tolist()})
                continue
            lines.append(" ".join("|".join([w] + [fa[i] for fa in facs]) for i, w in enumerate(ws)))
            e = {key: [look(w) for w in ws] + ([v[post]] if post else [])}
            for f, fa in zip(factors, facs):
                e[f] = [vocabs[f][x] for x in fa] + ([vocabs[f][post]] if post else [])
            exps.append(e)
        return lines, exps

    src_lines, src_exp = side(src_words, src_unk, src_key, sf, post_s, cn=which == "confusion")
    gz_s, gz_t = rng.random() < 0.3, rng.random() < 0.3
    _write_lines(rng, f"{tmp}/source.train" + (".gz" if gz_s else ""), src_lines, final_newline=rng.random() < 0.7 or not src_lines[-1])
    exp = [dict(e) for e in src_exp]
    if not source_only:
        tgt_lines, tgt_exp = side(tgt_words, tgt_unk, "classes", tf, post_t)
        if not no_ref:
            _write_lines(rng, f"{tmp}/target.train" + (".gz" if gz_t else ""), tgt_lines, final_newline=rng.random() < 0.7 or not tgt_lines[-1])
            for e, t in zip(exp, tgt_exp):
                e.update(t)
    opts = {"class": {"plain": "TranslationDataset", "factors": "TranslationFactorsDataset", "confusion": "ConfusionNetworkDataset"}[which], "path": tmp, "file_postfix": "train"}
    if which == "confusion":
        opts["max_density"] = density
        if post_s:
            opts["source_postfix"] = post_s
    elif post_s:
        opts["source_postfix"] = " " + post_s
    if post_t and not source_only:
        opts["target_postfix"] = " " + post_t
    if src_unk == tgt_unk and src_unk is not None and which != "factors":
        opts["unknown_label"] = src_unk
    elif src_unk or tgt_unk:
        opts["unknown_label"] = {k: u for k, u in unk.items() if u is not None}
    if source_only:
        opts["source_only"] = True
    if no_ref:
        opts["search_without_reference"] = True
    if which == "factors":
        if sf or rng.random() < 0.5:
            opts["source_factors"] = sf if len(sf) != 1 or rng.random() < 0.5 else sf[0]
        if tf:
            opts["target_factors"] = tf if len(tf) != 1 or rng.random() < 0.5 else tf[0]
    fixed = None
    if rng.random() < 0.25:
        fixed = [rng.randrange(n) for _ in range(rng.randint(1, 6))]
        with open(f"{tmp}/seqs.txt", "w") as f:
            f.write("".join("%i\n" % i for i in fixed))
        opts["seq_list_file"] = f"{tmp}/seqs.txt"
    ordering = rng.choice(["default", "default", "reverse", "random", "sorted"])
    pe = rng.choice([1, 1, 2])
    opts.update(seq_ordering=ordering)
    if pe != 1:
        opts["partition_epoch"] = pe
    early = rng.choice(["tags", "none", "none"])
    case.desc(which=which, n=n, opts=sorted(opts), gz=(gz_s, gz_t), sizes={k: len(v) for k, v in vocabs.items()}, ord=ordering, pe=pe, early=early, first=src_lines[0][:40])
    if n < 2:
        case.trivial()
    with _Delays(case, [f"{tmp}/source.", f"{tmp}/target."]):
        ds = D.init_dataset(opts)
        tags = ["line-%i" % i for i in range(n)]
        if early == "tags":
            case.equal(list(ds.get_all_tags()), tags, "get_all_tags right after construction")
        for k, v in vocabs.items():
            case.equal(ds.num_outputs[k], [max(v.values()) + 1, 1], f"num_outputs of {k}")
            case.equal(ds.get_data_dim(k), max(v.values()) + 1, f"get_data_dim of {k}")
            for w, i in v.items():
                case.require(v[ds.labels[k][i]] == i, f"label {i} of {k}")
        keys = [k for k in exp[0]]

        def check(got, order, what):
            case.equal([g[0] for g in got], [tags[i] for i in order], f"{what}: tags")
            for (tag, data), i in zip(got, order):
                case.count("seqs_checked")
                for k in keys:
                    case.count("labels", len(exp[i][k]))
                    if data[k].tolist() != exp[i][k]:
                        case.equal(data[k].tolist(), exp[i][k], f"{what}: {k} of {src_lines[i][:60]!r}")

        seen = []
        for part in range(pe):
            got = D.read_epoch(ds, part + 1, keys=keys, batch=rng.choice([1, 3]))
            idx = [tags.index(g[0]) if n < 100 else int(g[0][5:]) for g in got]
            check(got, idx, f"epoch {part + 1}")
            for j in range(min(len(idx), 3)):
                case.equal(ds.get_corpus_seq_idx(j), idx[j], "get_corpus_seq_idx")
            if fixed is not None:
                case.equal(idx, fixed, "seq_list_file order")
            seen += idx
        if fixed is None:
            if ordering == "default":
                case.equal(seen, list(range(n)), "default order")
            elif ordering == "reverse":
                case.equal(seen, list(range(n))[::-1], "reverse order")
            else:
                case.equal(sorted(seen), list(range(n)), "every line exactly once per full epoch")
        case.equal(list(ds.get_all_tags()), tags, "get_all_tags")
        order = [rng.randrange(n) for _ in range(rng.randint(1, 5))]
        check(D.read_epoch(ds, 1, init_kw={"seq_order": order}, keys=keys), order, "seq_order")
        check(D.read_epoch(ds, 1, init_kw={"seq_list": [tags[i] for i in order]}, keys=keys), order, "seq_list")


KINDS = {
    "lm": {"func": k_lm, "quick": 400, "thorough": 8000},
    "read_corpus": {"func": k_read_corpus, "quick": 60, "thorough": 800},
    "translation": {"func": k_translation, "quick": 250, "thorough": 4000},
}
