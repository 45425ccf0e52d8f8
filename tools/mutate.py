"""mutate.py PID N [--seed S] [--files a,b] [--func REGEX] [--par P] [--jobs J]

Measures how well the quick check of a property notices small changes: random AST mutations in lines which the check executes,
each in a scratch copy of /repo, with a scratch copy of /verif. Prints survivors. Not used by any check.
"""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, threading, queue, time

ap = argparse.ArgumentParser()
ap.add_argument("pid")
ap.add_argument("n", type=int)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--files")
ap.add_argument("--func", default="")
ap.add_argument("--par", type=int, default=4)
ap.add_argument("--jobs", type=int, default=2)
ap.add_argument("--nocov", action="store_true")
ap.add_argument("--timeout", type=int, default=240)
args = ap.parse_args()
W = "/tmp/w/mut"
os.makedirs(W, exist_ok=True)
V = f"{W}/verif"
shutil.rmtree(V, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/verif", V])
props = {json.loads(l)["id"]: json.loads(l) for l in open("/verif/properties.jsonl")}


def find_files(x):
    if isinstance(x, str):
        return re.findall(r"returnn/[\w/]+\.py", x)
    if isinstance(x, dict):
        return sum([find_files(v) for v in x.values()], [])
    if isinstance(x, list):
        return sum([find_files(v) for v in x], [])
    return []


files = args.files.split(",") if args.files else sorted(set(find_files(props[args.pid])))
files = [f for f in files if os.path.exists("/repo/" + f)]

covfn = f"{W}/cov-{args.pid}.json"
if not args.nocov and not os.path.exists(covfn):
    d = f"{W}/cov-{args.pid}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.call([f"{V}/run.sh", args.pid], env={**os.environ, "VERIF_COV": d}, stdout=subprocess.DEVNULL)
    s = set()
    for f in os.listdir(d):
        s.update(open(f"{d}/{f}").read().split("\n"))
    json.dump(sorted(s), open(covfn, "w"))
    shutil.rmtree(d)
cov = set(json.load(open(covfn))) if not args.nocov else None

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
CMPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "//"), ast.FloorDiv: ("//", "*"), ast.Mod: ("%", "//"), ast.Div: ("/", "*")}


def muts(fn):
    src = open("/repo/" + fn).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    bsrc = src.encode()

    def pos(node, end=False):
        return offs[(node.end_lineno if end else node.lineno) - 1] + (node.end_col_offset if end else node.col_offset)

    out = []

    def add(node, a, b, new, desc, weight=1.0):
        if cov is not None and f"{fn}:{node.lineno}" not in cov:
            return
        out.append((fn, node.lineno, func[-1], a, b, new, desc, weight))

    func = ["<module>"]

    def visit(node, in_skip=False):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if node.name in ("__repr__", "__str__") or node.name.startswith(("_repr", "short_repr")):
                return
            func.append(node.name)
            for b in node.body:
                visit(b)
            func.pop()
            return
        if isinstance(node, ast.ClassDef):
            func.append(node.name)
            for b in node.body:
                visit(b)
            func.pop()
            return
        if isinstance(node, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom, ast.AnnAssign)) and not (isinstance(node, ast.AnnAssign) and node.value):
            return
        if isinstance(node, ast.JoinedStr):
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and isinstance(node.value.func, ast.Name) and node.value.func.id == "print":
            return
        if func[-1] == "<module>" or not re.search(args.func, func[-1]):
            for c in ast.iter_child_nodes(node):
                visit(c)
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            t = type(node.ops[0])
            a, b = pos(node.left, True), pos(node.comparators[0])
            seg = bsrc[a:b].decode()
            if CMPS[t] in seg:
                add(node, a, b, seg.replace(CMPS[t], CMP[t], 1), f"{CMPS[t]} -> {CMP[t]}", 1.0 if t in (ast.Lt, ast.LtE, ast.Gt, ast.GtE) else 0.4)
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            o, r = BIN[type(node.op)]
            a, b = pos(node.left, True), pos(node.right)
            seg = bsrc[a:b].decode()
            if o in seg and not isinstance(node.left, (ast.JoinedStr,)) and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
                add(node, a, b, seg.replace(o, r, 1), f"{o} -> {r}", 0.7)
        if isinstance(node, ast.BoolOp):
            o, r = ("and", "or") if isinstance(node.op, ast.And) else ("or", "and")
            for x, y in zip(node.values, node.values[1:]):
                a, b = pos(x, True), pos(y)
                seg = bsrc[a:b].decode()
                add(node, a, b, seg.replace(o, r, 1), f"{o} -> {r}", 0.3)
            for x in node.values:
                add(node, pos(x), pos(x, True), "True" if isinstance(node.op, ast.And) else "False", "drop operand " + ast.unparse(x)[:60], 0.7)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(node, pos(node), pos(node.operand), "", "drop not", 0.3)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            add(node, pos(node), pos(node.operand), "", "drop minus", 0.3)
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            add(node, pos(node), pos(node, True), str(not node.value), f"{node.value} -> {not node.value}", 0.7)
        elif isinstance(node, ast.Constant) and isinstance(node.value, int):
            add(node, pos(node), pos(node, True), str(node.value + 1), f"{node.value} -> {node.value + 1}", 0.5)
        if isinstance(node, ast.If):
            add(node, pos(node.test), pos(node.test, True), "(%s) and False" % ast.unparse(node.test).replace("\n", " "), "if -> never", 0.6)
        if isinstance(node, (ast.Expr, ast.AugAssign)) or (isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Attribute, ast.Subscript))):
            if not (isinstance(node, ast.Expr) and isinstance(node.value, (ast.Yield, ast.YieldFrom, ast.Constant))):
                add(node, pos(node), pos(node, True), "pass", "delete: " + ast.unparse(node)[:70], 0.9)
        if isinstance(node, ast.Call):
            for i, kw in enumerate(node.keywords):
                if kw.arg:
                    a, b = pos(kw), pos(kw, True)
                    # incl. following comma
                    m = re.match(rb"\s*,", bsrc[b:])
                    if m:
                        b += m.end()
                    add(node, a, b, "", f"drop arg {kw.arg}", 0.6)
            if len(node.args) >= 2 and not any(isinstance(x, ast.Starred) for x in node.args) and ast.unparse(node.func) in ("min", "max"):
                add(node, pos(node.func), pos(node.func, True), {"min": "max", "max": "min"}[ast.unparse(node.func)], "min <-> max", 1)
        if isinstance(node, (ast.Break, ast.Continue)):
            add(node, pos(node), pos(node, True), "pass" if isinstance(node, ast.Continue) else "continue", "break/continue", 0.7)
        for c in ast.iter_child_nodes(node):
            if isinstance(node, ast.Call) and c in [k for k in node.keywords]:
                visit(c.value)
            else:
                visit(c)

    visit(tree)
    return out, bsrc


allm, srcs = [], {}
for f in files:
    m, b = muts(f)
    srcs[f] = b
    allm += m
rng = random.Random(args.seed)
# weighted sample without replacement
allm = sorted(allm, key=lambda m: -(rng.random() ** (1.0 / m[7])))[: args.n]
print(args.pid, "files", files, "mutants", len(allm), flush=True)
q = queue.Queue()
for m in allm:
    q.put(m)
lock = threading.Lock()
stat = {}
log = open(f"{W}/log-{args.pid}.jsonl", "a")


def work(i):
    d = f"{W}/repo{i}"
    if not os.path.exists(d):
        os.makedirs(d)
    subprocess.check_call(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "__pycache__", "/repo/", d + "/"]) if shutil.which("rsync") else (shutil.rmtree(d), shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__")))
    while True:
        try:
            fn, line, func, a, b, new, desc, _ = q.get_nowait()
        except queue.Empty:
            return
        src = srcs[fn]
        mut = src[:a] + new.encode() + src[b:]
        try:
            compile(mut, fn, "exec")
        except SyntaxError:
            continue
        open(f"{d}/{fn}", "wb").write(mut)
        t0 = time.time()
        try:
            r = subprocess.run([f"{V}/run.sh", args.pid, "--jobs", str(args.jobs)], env={**os.environ, "VERIF_REPO": d}, capture_output=True, timeout=args.timeout, text=True)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        open(f"{d}/{fn}", "wb").write(src)
        with lock:
            stat[rc] = stat.get(rc, 0) + 1
            text = src[a:b].decode()[:60].replace("\n", " ")
            log.write(json.dumps([fn, line, func, desc, rc]) + "\n")
            log.flush()
            if rc != 1:
                print(f"  {rc} {fn}:{line} [{func}] {desc}   | {src.split(chr(10).encode())[line - 1].decode().strip()[:110]}", flush=True)


ts = [threading.Thread(target=work, args=(i,)) for i in range(args.par)]
[t.start() for t in ts]
[t.join() for t in ts]
print(args.pid, "killed", stat.get(1, 0), "of", sum(stat.values()), stat, flush=True)
for i in range(args.par):
    shutil.rmtree(f"{W}/repo{i}", ignore_errors=True)
shutil.rmtree(V, ignore_errors=True)
