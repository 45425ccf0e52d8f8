"""C33: Sprint/RASR archives are read and written exactly, SprintCacheDataset delivers exactly the archive contents."""
import os
import struct
import zlib
import numpy
from vlib import ds as D

RULE = (
    "archive = random entries (features, alignments in the three run-length formats, strings) written by an own writer of the format: file table or scan, plain/zlib/gzip entries, any order, ascii/utf8 names, short names, "
    "single archives and bundles; read back by FileArchive/FileArchiveBundle in random order, by SprintCacheDataset (state tying or phonemes, orderings, partitions, epochs); archives written by FileArchive parsed by an own parser. "
    "Non-trivial: at least one entry read."
)
ASSUMPTIONS = ["well-formed archives", "allophone files without blank lines", "at most 6 states per allophone"]
MIN_COUNTS = {"feat": 500, "align": 500, "weighted": 100, "compressed": 300, "scan": 30, "bundle": 30, "ds_seqs": 500, "written": 100, "raw": 50}
BUDGET = {"quick": 200, "thorough": 1200}

STATE = 1 << 26


def worker_init():
    D.quiet_log()
    import returnn.sprint.cache  # noqa


# --- own writer


def _packed(i):
    out = b""
    while True:
        b = i & 0x7F
        i >>= 7
        if i:
            out += bytes([b | 0x80])
        else:
            return out + bytes([b])


def enc_feat(times, feats):
    b = struct.pack("<I", 10) + b"vector-f32" + struct.pack("<I", len(feats))
    for t, f in zip(times, feats):
        b += struct.pack("<I", len(f)) + f.astype("<f4").tobytes() + struct.pack("<dd", *t)
    return b


def enc_align_rle(rng, items, header):
    """items: list of (time, emission)"""
    b = struct.pack("<I", 14) + b"flow-alignment" + struct.pack("<I", rng.choice([0, 1])) + header + struct.pack("<I", len(items))
    i = 0
    time = 0
    while i < len(items):
        if items[i][0] != time or rng.random() < 0.05:
            time = items[i][0]
            b += struct.pack("<bi", 0, time)
        # consecutive times
        n = 1
        while i + n < len(items) and items[i + n][0] == items[i][0] + n:
            n += 1
        same = 1
        while same < n and items[i + same][1] == items[i][1]:
            same += 1
        if same > 1 and rng.random() < 0.9:
            k = min(same, rng.choice([same, 128, 2]))
            b += struct.pack("<bi", -k if k <= 128 else -128, items[i][1])
            k = min(k, 128)
        else:
            k = min(n, rng.randint(1, 127), 127)
            b += struct.pack("<b", k) + b"".join(struct.pack("<i", items[i + j][1]) for j in range(k))
        i += k
        time = items[i - 1][0] + 1
    if header == b"AALPHRLE":
        b += struct.pack("<I", 3) + b"abc" * 3  # the alphabet, ignored
    return b


def enc_align_weighted(rng, items, version):
    """items: list of (time, emission, weight). :return: bytes"""
    b = struct.pack("<I", 14) + b"flow-alignment" + struct.pack("<I", 1) + b"ALIGNRLE" + struct.pack("<I", (1 << 31) | version) + _packed(len(items))
    t = 0
    i = 0
    while i < len(items):
        n = 1
        while i + n < len(items) and items[i + n][0] == items[i][0]:
            n += 1
        explicit = items[i][0] != t or rng.random() < 0.1
        b += _packed(n * 2 + int(explicit))
        if explicit:
            t = items[i][0]
            b += _packed(t)
        for j in range(n):
            b += _packed(items[i + j][1])
            b += struct.pack("<H", items[i + j][2]) if version == 1 else struct.pack("<f", items[i + j][2])
        i += n
        t += 1
    return b


def write_archive(rng, fn, entries, *, table, encoding, compress):
    """entries: list of (name, bytes). :return: number of compressed entries"""
    ft = []
    ncomp = 0
    with open(fn, "wb") as f:
        f.write(b"SP_ARC1\0" + (b"\1" if table else b"\0"))
        for name, data in entries:
            nb = name.encode(encoding)
            f.write(struct.pack("<II", 0xAA55AA55, len(nb)) + nb)
            pos = f.tell()
            comp = 0
            out = data
            if data and rng.random() < compress:
                co = zlib.compressobj(rng.randint(0, 9), zlib.DEFLATED, rng.choice([15, 31]))
                out = co.compress(data) + co.flush()
                comp = len(out)
                ncomp += 1
            chk = zlib.crc32(out) & 0x7FFFFFFF if rng.random() < 0.5 else 0
            # in archives without table, the size field must be the stored size for the reader to be able to skip the entry
            f.write(struct.pack("<III", len(data), comp, chk) + out + struct.pack("<I", 0x55AA55AA))
            ft.append((nb, pos, len(data), comp))
        if table:
            pos = f.tell()
            f.write(struct.pack("<I", len(ft)))
            for nb, p, s, c in rng.sample(ft, len(ft)):
                f.write(struct.pack("<I", len(nb)) + nb + struct.pack("<QII", p, s, c))
            f.write(struct.pack("<QQ", 0, pos))
    return ncomp


# --- content


def gen_allophones(rng, tmp):
    phones = ["si"] + ["p%i" % i for i in range(rng.randint(1, 12))]
    allos = ["si{#+#}@i@f"] + ["%s{%s+%s}%s" % (rng.choice(phones[1:]), rng.choice(phones), rng.choice(phones), rng.choice(["", "@i", "@f", "@i@f"])) for _ in range(rng.randint(1, 40))]
    allos = list(dict.fromkeys(allos))
    rng.shuffle(allos)
    fn = "%s/allophones" % tmp
    with open(fn, "w") as f:
        f.write("# allophones\n")
        for a in allos:
            f.write(a + "\n")
            if rng.random() < 0.05:
                f.write("# x\n")
    return phones, allos, fn


def gen_times(rng, n, gaps):
    t, out = 0, []
    if gaps and rng.random() < 0.3:
        t = rng.randint(1, 300)
    for _ in range(n):
        out.append(t)
        t += 1
        if gaps and rng.random() < 0.1:
            t += rng.randint(1, 400)
    return out


def gen_entry(case, rng, nprng, allos, dim):
    """:return: (typ, bytes, expected)"""
    typ = rng.choice(["feat", "feat", "align", "align", "weighted", "str"])
    if typ == "feat":
        n = rng.choice([0, 1, 2, 10, 40])
        feats = [nprng.randn(dim if rng.random() < 0.9 else rng.randint(0, 5)).astype("float32") for _ in range(n)]
        times = [(i * 0.01, i * 0.01 + rng.random()) for i in range(n)]
        return typ, enc_feat(times, feats), (times, feats)
    if typ == "str":
        s = "".join(rng.choice("abc <>&/\n\"1") for _ in range(rng.randint(1, 60)))
        return typ, s.encode("ascii"), s
    n = rng.choice([0, 1, 2, 5, 30, 127, 128, 129, 300])
    times = gen_times(rng, n, rng.random() < 0.4)
    ems = []
    while len(ems) < n:
        a, s = rng.randrange(len(allos)), rng.randint(0, 5)
        ems += [(a, s)] * rng.choice([1, 1, 2, 5, 130, 260])
    ems = ems[:n]
    if typ == "align":
        return typ, enc_align_rle(rng, [(t, a + s * STATE) for t, (a, s) in zip(times, ems)], rng.choice([b"ALIGNRLE", b"AALPHRLE"])), [(t, a, s, 1) for t, (a, s) in zip(times, ems)]
    version = rng.choice([1, 2])
    items, exp = [], []
    for t, (a, s) in zip(times, ems):
        for j in range(rng.choice([1, 1, 2, 3])):
            a2 = (a + j) % len(allos)
            w = rng.randrange(65536) if version == 1 else float(numpy.float32(rng.random()))
            items.append((t, a2 + s * STATE, w))
            exp.append((t, a2, s, w / 65535 if version == 1 else w))
    return typ, enc_align_weighted(rng, items, version), exp


def check_entry(case, ar, name, typ, exp, shown):
    case.desc(entry=dict(name=name, typ=typ, via=shown))
    if typ == "feat":
        times, feats = ar.read(shown, "feat")
        case.equal(len(feats), len(exp[1]), "number of frames")
        case.equal(len(times), len(exp[0]), "number of time stamps")
        for i in range(len(feats)):
            case.require(feats[i].dtype == numpy.float32 and feats[i].shape == exp[1][i].shape and (feats[i] == exp[1][i]).all(), "wrong features", frame=i, got=feats[i].tolist(), expected=exp[1][i].tolist())
            case.equal(tuple(float(x) for x in times[i]), exp[0][i], "time stamp")
        case.count("feat")
    elif typ == "str":
        case.equal(ar.read(shown, "str"), exp, "string")
        case.count("str")
    else:
        got = ar.read(shown, "align")
        case.equal(len(got), len(exp), "alignment length")
        for i, (g, e) in enumerate(zip(got, exp)):
            case.require(tuple(g[:3]) == tuple(e[:3]) and abs(g[3] - e[3]) < 1e-9, "wrong alignment item", i=i, got=g, expected=e)
        case.count("align" if typ == "align" else "weighted")
        if case.rng.random() < 0.5:
            got = ar.read(shown, "align_raw")
            case.equal([(t, m) for t, m, _, _ in got], [(t, a + s * STATE) for t, a, s, _ in exp], "raw alignment")
            case.count("raw")


def archive(case):
    from returnn.sprint.cache import open_file_archive, is_sprint_cache_file

    rng, nprng = case.rng, case.np_rng()
    tmp = case.tmpdir()
    phones, allos, allo_fn = gen_allophones(rng, tmp)
    encoding = rng.choice(["ascii", "utf8"])
    dim = rng.randint(1, 8)
    nfiles = rng.choice([1, 1, 2, 3])
    bundle = nfiles > 1 or rng.random() < 0.2
    amb = rng.random() < 0.3
    entries = {}
    files = []
    ncomp = 0
    any_scan = False
    for k in range(nfiles):
        ents = []
        for i in range(rng.randint(0 if bundle else 1, 8)):
            name = "corpus%i/rec.%i/seg-%i" % (rng.randrange(2) if amb else 0, rng.randrange(2) if amb else i % 2, i if amb else k * 100 + i)
            if encoding == "utf8" and rng.random() < 0.4:
                name += "äß€"
            if name in entries:
                continue
            typ, data, exp = gen_entry(case, rng, nprng, allos, dim)
            entries[name] = (typ, exp)
            ents.append((name, data))
        fn = "%s/%s%i.cache" % (tmp, rng.choice(["a", "sub/a"]), k)
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        table = rng.random() < 0.7
        any_scan |= not table
        # scanning needs the stored size = size, i.e. uncompressed
        ncomp += write_archive(rng, fn, ents, table=table, encoding=encoding, compress=rng.choice([0, 0.5, 1]) if table else 0)
        files.append(fn)
        if not table:
            case.count("scan")
    path = files[0]
    if bundle:
        path = "%s/x.bundle" % tmp
        with open(path, "w") as f:
            for fn in rng.sample(files, len(files)):
                f.write((fn if rng.random() < 0.5 else os.path.relpath(fn, tmp)) + "\n")
        case.count("bundle")
    case.desc(encoding=encoding, files=len(files), bundle=bundle, entries={n: v[0] for n, v in entries.items()}, scan=any_scan, compressed=ncomp)
    case.count("compressed", ncomp)
    case.require(is_sprint_cache_file(path), "not recognised as archive")
    ar = open_file_archive(path, encoding=encoding)
    ar.set_allophones(allo_fn)
    case.equal(sorted(ar.file_list()), sorted(entries), "list of entries")
    if not entries:
        return case.trivial()
    base = {}
    for n in entries:
        base.setdefault(os.path.basename(n), []).append(n)
    names = [rng.choice(sorted(entries)) for _ in range(len(entries))] + sorted(entries)
    for name in names:
        case.require(ar.has_entry(name), "entry missing", name=name)
        check_entry(case, ar, name, *entries[name], shown=name)
    case.require(not ar.has_entry("corpus/other"), "entry which does not exist")
    for b, ns in base.items():
        # the short segment name gives the entry, or is refused when not unique; never another entry
        if b in entries:
            continue
        if all(len(v) == 1 for v in base.values()):
            check_entry(case, ar, ns[0], *entries[ns[0]], shown=b)
            case.count("short")
        elif len(ns) > 1:
            try:
                ar.read(b, "str" if entries[ns[0]][0] == "str" else "feat" if entries[ns[0]][0] == "feat" else "align")
            except KeyError:
                case.count("ambiguous_refused")
            else:
                case.require(False, "ambiguous short name accepted", short=b, names=ns)


def written(case):
    from returnn.sprint.cache import FileArchive, open_file_archive

    rng, nprng = case.rng, case.np_rng()
    tmp = case.tmpdir()
    encoding = rng.choice(["ascii", "utf8"])
    fn = "%s/w.cache" % tmp
    ar = FileArchive(fn, must_exists=False, encoding=encoding)
    exp = {}
    for i in range(rng.randint(0, 6)):
        name = "c/r/s%i" % i + ("ü€" if encoding == "utf8" and rng.random() < 0.5 else "")
        n, dim = rng.choice([0, 1, 2, 20]), rng.randint(1, 6)
        feats = nprng.randn(n, dim).astype("float32")
        times = [(j * 0.25, (j + 1) * 0.25) for j in range(n)]
        ar.add_feature_cache(name, feats, times)
        exp[name] = (feats, times)
    ar.finalize()
    case.desc(encoding=encoding, entries={k: v[0].shape for k, v in exp.items()})
    # own parser, before anything is closed or garbage collected
    data = open(fn, "rb").read()
    case.require(data[:9] == b"SP_ARC1\0\1", "header")
    (pos,) = struct.unpack("<Q", data[-8:])
    (count,) = struct.unpack_from("<I", data, pos)
    pos += 4
    table = {}
    for _ in range(count):
        (ln,) = struct.unpack_from("<I", data, pos)
        name = data[pos + 4 : pos + 4 + ln].decode(encoding)
        p, size, comp = struct.unpack_from("<QII", data, pos + 4 + ln)
        pos += 4 + ln + 16
        table[name] = (p, size, comp)
    case.equal(sorted(table), sorted(list(exp) + ["%s.attribs" % n for n in exp]), "entries in the table")
    for name, (p, size, comp) in table.items():
        case.equal(struct.unpack_from("<III", data, p)[:2], (size, comp), "entry header")
        body = data[p + 12 : p + 12 + size]
        case.equal(struct.unpack_from("<I", data, p + 12 + size)[0], 0x55AA55AA, "end tag")
        nb = name.encode(encoding)
        case.equal(data[p - 8 - len(nb) : p], struct.pack("<II", 0xAA55AA55, len(nb)) + nb, "start tag and name")
        if name in exp:
            feats, times = exp[name]
            case.require(body == enc_feat(times, list(feats)), "written entry differs", name=name)
        else:
            feats, times = exp[name[: -len(".attribs")]]
            s = body.decode("ascii")
            case.require('name="datatype" value="vector-f32"' in s and 'name="sample-size" value="%i"' % (feats.shape[1] if len(feats) else 0) in s, "attribs", got=s)
            if len(feats):
                case.require('name="total-duration" value="%.5f"' % times[-1][1] in s, "attribs duration", got=s)
        case.count("written")
    ar2 = open_file_archive(fn, encoding=encoding)
    for name, (feats, times) in exp.items():
        check_entry(case, ar2, name, "feat", (times, list(feats)), shown=name)
    if not exp:
        case.trivial()


def dataset(case):
    rng, nprng = case.rng, case.np_rng()
    tmp = case.tmpdir()
    phones, allos, allo_fn = gen_allophones(rng, tmp)
    dim = rng.randint(1, 6)
    n = rng.randint(1, 12)
    tying = rng.random() < 0.6
    nstates = rng.randint(1, 4)
    labeling = dict(silence_phone="si", allophone_file=allo_fn)
    if tying:
        num_labels = rng.choice([3, 50, 126, 127, 128, 129, 2000, 40000])
        tie = {(a, s): rng.randrange(num_labels) for a in range(len(allos)) for s in range(nstates)}
        tie[(rng.randrange(len(allos)), rng.randrange(nstates))] = num_labels - 1
        labeling["state_tying_file"] = "%s/tying" % tmp
        with open(labeling["state_tying_file"], "w") as f:
            for (a, s), v in tie.items():
                f.write("%s.%i %i\n" % (allos[a], s, v))
        label = lambda a, s: tie[(a, s)]
    else:
        ph = phones[:]
        rng.shuffle(ph)
        labeling["phoneme_file"] = "%s/phones" % tmp
        open(labeling["phoneme_file"], "w").write("\n".join(ph) + "\n")
        num_labels = len(ph)
        label = lambda a, s: ph.index(allos[a][: allos[a].index("{")])
    names = ["corpus/rec.%i/seg-%i" % (i % 3, i) for i in range(n)]
    feats, classes, fe, ae = {}, {}, [], []
    for name in names:
        t = rng.randint(1, 30)
        feats[name] = nprng.randn(t, dim).astype("float32")
        ems = []
        while len(ems) < t:
            ems += [(rng.randrange(len(allos)), rng.randrange(nstates))] * rng.choice([1, 2, 7])
        ems = ems[:t]
        classes[name] = [label(a, s) for a, s in ems]
        fe.append((name, enc_feat([(i * 0.01, (i + 1) * 0.01) for i in range(t)], list(feats[name]))))
        if rng.random() < 0.5:
            fe.append((name + ".attribs", b"<flow-attributes></flow-attributes>"))
        items = [(i, a + s * STATE) for i, (a, s) in enumerate(ems)]
        if rng.random() < 0.4:
            ae.append((name, enc_align_weighted(rng, [(i, e, 1.0) for i, e in items], 2)))
        else:
            ae.append((name, enc_align_rle(rng, items, b"ALIGNRLE")))
    rng.shuffle(ae)
    rng.shuffle(fe)

    def store(key, ents):
        k = rng.choice([0, 0, 1, 2, 3])
        if not k:
            fn = "%s/%s.cache" % (tmp, key)
            case.count("compressed", write_archive(rng, fn, ents, table=True, encoding="ascii", compress=rng.choice([0, 0.5])))
            return fn
        fns = []
        for i in range(k):
            sub = ents[i::k]
            if sub:
                fns.append("%s.%i.cache" % (key, i))
                case.count("compressed", write_archive(rng, "%s/%s" % (tmp, fns[-1]), sub, table=True, encoding="ascii", compress=rng.choice([0, 0.5])))
        open("%s/%s.bundle" % (tmp, key), "w").write("\n".join(fns) + "\n")
        return "%s/%s.bundle" % (tmp, key)

    size = {name: len(b) for name, b in fe}
    data_fn = store("feat", fe)
    order = rng.choice(["default", "reverse", "sorted", "sorted_reverse", "random", "laplace:.2", "sort_bin_shuffle:.3"])
    part = rng.choice([1, 1, 2, 3])
    opts = dict(
        **{"class": "SprintCacheDataset"},
        data={"data": dict(filename=data_fn), rng.choice(["classes", "align"]): dict(filename=store("align", ae), allophone_labeling=labeling)},
        seq_ordering=order,
        partition_epoch=part,
    )
    ckey = [k for k in opts["data"] if k != "data"][0]
    case.desc(n=n, order=order, part=part, tying=tying, num_labels=num_labels, data=os.path.basename(data_fn))
    ds = D.init_dataset(opts)
    case.equal((ds.get_data_dim("data"), ds.get_data_dim(ckey)), (dim, num_labels), "dims")
    case.equal((ds.is_data_sparse("data"), ds.is_data_sparse(ckey)), (False, True), "sparse")
    case.equal(sorted(ds.get_all_tags()), sorted(names), "all tags")
    case.equal(ds.get_total_num_seqs(), n, "total num seqs")
    epochs = []
    for full in range(2):
        cover = []
        for e in range(part):
            epoch = full * part + e + 1
            got = D.read_epoch(ds, epoch, keys=["data", ckey])
            cover += [s[0] for s in got]
            epochs.append([s[0] for s in got])
            for s in got:
                name = s[0]
                d, c = s[1]["data"], s[1][ckey]
                case.require(d.shape == feats[name].shape and (d == feats[name]).all(), "wrong features", tag=name)
                case.equal([int(x) for x in c], classes[name], "wrong labels")
                case.count("ds_seqs")
            if order in ("sorted", "sorted_reverse"):
                sizes = [size[s[0]] for s in got]
                case.equal(sizes, sorted(sizes, reverse=order == "sorted_reverse"), "not sorted by length")
        case.equal(sorted(cover), sorted(names), "each sequence exactly once per full epoch")
    again = D.read_epoch(D.init_dataset(opts), part + 1, keys=["data"])
    case.equal([s[0] for s in again], epochs[part], "order of the epoch in a fresh instance")


def others(case):
    """mixture sets and word boundaries"""
    from returnn.sprint.cache import MixtureSet, WordBoundaries
    import contextlib
    import io

    rng, nprng = case.rng, case.np_rng()
    tmp = case.tmpdir()
    dim, nm, nc = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 3)
    means, mw, covs, cw = nprng.randn(nm, dim), nprng.rand(nm) + 0.5, nprng.rand(nc, dim), nprng.rand(nc) + 0.5
    dens = [(rng.randrange(nm), rng.randrange(nc)) for _ in range(rng.randint(1, 6))]
    mixs = [[(rng.randrange(len(dens)), rng.random()) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(1, 5))]
    b = b"MIXSET\0t" + struct.pack("<iii", 2, dim, nm)
    for m, w in zip(means, mw):
        b += struct.pack("<i", dim) + m.tobytes() + struct.pack("<d", w)
    b += struct.pack("<i", nc)
    for m, w in zip(covs, cw):
        b += struct.pack("<i", dim) + m.tobytes() + struct.pack("<d", w)
    b += struct.pack("<i", len(dens)) + b"".join(struct.pack("<ii", *d) for d in dens) + struct.pack("<i", len(mixs))
    for m in mixs:
        b += struct.pack("<i", len(m)) + b"".join(struct.pack("<id", *x) for x in m)
    fn = "%s/mix" % tmp
    open(fn, "wb").write(b)
    ms = MixtureSet(fn)
    case.equal((ms.dim, ms.get_number_mixtures()), (dim, len(mixs)), "dims")
    for i in range(nm):
        case.require((ms.get_mean_by_idx(i) == (means[i] / mw[i]).astype("float32")).all(), "mean", i=i)
    for i in range(nc):
        case.require((ms.get_cov_by_idx(i) == (covs[i] / cw[i]).astype("float32")).all(), "cov", i=i)
    case.equal([tuple(int(x) for x in d) for d in ms.densities], dens, "densities")
    case.equal([list(zip(*m)) for m in ms.mixtures], [m for m in mixs], "mixtures")
    bnd = [(rng.randint(0, 10**6), rng.randrange(65536), rng.randrange(65536)) for _ in range(rng.randint(0, 10))]
    fn = "%s/bnd" % tmp
    open(fn, "wb").write(b"LATWRDBN" + struct.pack("<ii", 1, len(bnd)) + b"".join(struct.pack("<iHH", t, fi, ini) for t, fi, ini in bnd))
    with contextlib.redirect_stdout(io.StringIO()):
        wb = WordBoundaries(fn)
    case.equal(wb.boundaries, [(t, ini, fi) for t, fi, ini in bnd], "word boundaries")
    case.count("others")


KINDS = {
    "archive": {"func": archive, "quick": 400, "thorough": 8000},
    "written": {"func": written, "quick": 100, "thorough": 1500},
    "dataset": {"func": dataset, "quick": 250, "thorough": 5000},
    "others": {"func": others, "quick": 40, "thorough": 600},
}
