#!/usr/bin/env python3
"""Mutation survey (development tool; no check uses it): which small changes of the code get past both
the repository's tests and one shard of every quick check?

    mutate.py list                      count the mutants
    mutate.py run OUT.jsonl [FILE...]   run them (resumes; MUT_JOBS workers)
"""
import ast, os, sys, json, shutil, subprocess, tempfile, threading, queue, random
import warnings; warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
REPO = os.environ.get("MUT_REPO", "/repo")
FILES = ["split.py", "restore.py", "amend.py", "access/bagit.py", "access/extended.py",
         "access/multibag.py", "validate/base.py", "validate/bag.py", "validate/headbag.py", "validate/member.py",
         "testing/mkdata.py"]
ORDER = {
  "split.py": "C01 C02 C19 C03 C04 C05 C16 C21 C22 C23",
  "restore.py": "C06 C07 C24 C23 C16 C21 C01",
  "amend.py": "C08 C09 C16 C21",
  "access/bagit.py": "C12 C13 C18 C17 C06 C10",
  "access/extended.py": "C23 C18 C12 C13 C02 C01",
  "access/multibag.py": "C10 C11 C20 C12 C08 C02 C23 C17",
  "validate/base.py": "C15 C14", "validate/bag.py": "C14 C15", "validate/headbag.py": "C14 C15",
  "validate/member.py": "C14 C15", "testing/mkdata.py": "C22",
}
ALL = ["C%02d" % i for i in range(1, 25)]

CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
       ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*"}


def mutants(src):
    """[(line, description, new source)]"""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return offs[n.lineno-1] + n.col_offset, offs[n.end_lineno-1] + n.end_col_offset

    out = []

    def emit(n, a, b, text, what):
        new = (raw[:a] + text.encode() + raw[b:]).decode()
        try:
            t2 = ast.parse(new)
        except SyntaxError:
            return
        if ast.dump(t2) == ast.dump(tree):
            return
        out.append((n.lineno, what + ": " + raw[a:b].decode()[:90].replace("\n", " ") + "  ->  " + text[:90], new))

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()

    infunc = set()
    docs = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant):
                docs.add(f.body[0]); docs.add(f.body[0].value)
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                infunc.add(n)
    inraise = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.Raise):
            for n in ast.walk(f):
                if n is not f: inraise.add(n)

    for n in ast.walk(tree):
        if n not in infunc or n in docs or n in inraise:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP[type(n.ops[0])]
            a = span(n.left)[1]; b = span(n.comparators[0])[0]
            # keep parentheses around
            gap = raw[a:b].decode()
            for tok in ("not in", "is not", "==", "!=", "<=", ">=", "<", ">", " in ", " is "):
                if tok in gap:
                    i = gap.index(tok)
                    pad = " " if tok[0] == " " else ""
                    emit(n, a+i, a+i+len(tok), pad+op+pad, "cmp")
                    break
        elif isinstance(n, ast.BoolOp):
            tok = "and" if isinstance(n.op, ast.And) else "or"
            oth = "or" if tok == "and" else "and"
            for x, y in zip(n.values, n.values[1:]):
                a = span(x)[1]; b = span(y)[0]
                gap = raw[a:b].decode()
                if tok in gap:
                    i = gap.index(tok)
                    emit(n, a+i, a+i+len(tok), oth, "bool")
            for x in n.values:
                a, b = span(x)
                emit(n, a, b, "True" if tok == "and" else "False", "drop-operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            emit(n, a, b, "(" + seg(n.operand) + ")", "not")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = span(n.test)
            emit(n, a, b, "False", "cond")
            if not isinstance(n, ast.While):
                emit(n, a, b, "True", "cond")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str): continue
            if isinstance(n.right, ast.Constant) and isinstance(n.right.value, str): 
                a, b = span(n)
                emit(n, a, b, seg(n.left), "drop-concat")
                continue
            a = span(n.left)[1]; b = span(n.right)[0]
            gap = raw[a:b].decode()
            for tok in ("//", "+", "-", "*", "/"):
                if tok in gap:
                    i = gap.index(tok)
                    emit(n, a+i, a+i+len(tok), BIN[type(n.op)], "arith")
                    break
        elif isinstance(n, ast.Constant):
            a, b = span(n)
            v = n.value
            if v is True or v is False:
                emit(n, a, b, str(not v), "const")
            elif isinstance(v, int):
                emit(n, a, b, str(v+1), "const")
                if v > 0: emit(n, a, b, str(v-1), "const")
            elif isinstance(v, str) and 0 < len(v) < 30 and " " not in v.strip():
                if raw[a:a+1] in b"'\"ru":
                    emit(n, a, b, '"XX"', "str")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            a, b = span(n)
            emit(n, a, b, "pass", "drop-call")
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            a, b = span(n)
            if isinstance(n, ast.AugAssign) or not isinstance(n.targets[0], ast.Name):
                emit(n, a, b, "pass", "drop-assign")
            elif not (isinstance(n.value, ast.Constant)):
                emit(n, a, b, n.targets[0].id + " = None", "none-assign")
        elif isinstance(n, ast.Delete):
            a, b = span(n)
            emit(n, a, b, "pass", "drop-del")
        elif isinstance(n, ast.Return) and n.value is not None and not (
                isinstance(n.value, ast.Constant) and n.value.value is None):
            a, b = span(n.value)
            emit(n, a, b, "None", "return")
        elif isinstance(n, ast.Continue):
            a, b = span(n); emit(n, a, b, "break", "flow"); emit(n, a, b, "pass", "flow")
        elif isinstance(n, ast.Break):
            a, b = span(n); emit(n, a, b, "pass", "flow")
        elif isinstance(n, ast.Raise):
            a, b = span(n)
            emit(n, a, b, "pass", "drop-raise")
        elif isinstance(n, ast.Call):
            # drop an optional argument; replace string-method calls by their object
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "lstrip", "rstrip", "lower", "upper", "copy", "encode", "decode", "normpath") :
                a, b = span(n)
                emit(n, a, b, seg(n.func.value), "drop-method")
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "set", "list", "reversed", "dict", "int", "str", "OrderedDict") and len(n.args) == 1:
                a, b = span(n)
                emit(n, a, b, "(" + seg(n.args[0]) + ")", "drop-wrap")
            args = list(n.args) + [k for k in n.keywords]
            if len(args) > 1 or n.keywords:
                last = args[-1]
                prev = args[-2] if len(args) > 1 else None
                la, lb = span(last)
                if prev is not None:
                    emit(n, span(prev)[1], lb, "", "drop-arg")
                else:
                    emit(n, la, lb, "", "drop-arg")
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    a, b = span(x)
                    emit(n, a, b, "", "slice")
    seen = set(); res = []
    for m in out:
        if m[2] not in seen:
            seen.add(m[2]); res.append(m)
    return sorted(res, key=lambda m: (m[0], m[1]))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests_pass(repo, base):
    work = tempfile.mkdtemp(dir=base)
    os.mkdir(work + "/tmp")
    env = dict(os.environ, TMPDIR=work + "/tmp", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TZ="UTC", LANG="C.UTF-8")
    env.pop("PYTHONPATH", None)
    try:
        r = sh(["setpriv", "--bounding-set=-dac_override,-dac_read_search", "--inh-caps=-dac_override,-dac_read_search",
            "timeout", "90", PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "-k", "not test_iterate_many and not test_distribute and not test_amend_bag_with and not test_finalize", "tests"],
           cwd=repo, env=env)
        return r.returncode == 0
    finally:
        sh(["chmod", "-R", "u+rwx", work]); shutil.rmtree(work, ignore_errors=True)


def main():
    files = sys.argv[3:] or FILES
    todo = []
    for f in files:
        src = open(os.path.join(REPO, "multibag", f), encoding="utf-8").read()
        for m in mutants(src):
            if f.startswith('validate') and m[1].startswith('str:'): continue
            todo.append((f,) + m)
    if sys.argv[1] == "list":
        for f in files:
            print(f, sum(t[0] == f for t in todo))
        print(len(todo)); return
    outf = sys.argv[2]
    done = set()
    if os.path.exists(outf):
        for l in open(outf):
            d = json.loads(l); done.add((d["file"], d["line"], d["what"]))
    todo = [t for t in todo if (t[0], t[1], t[2]) not in done]
    random.Random(5).shuffle(todo)
    base = tempfile.mkdtemp(prefix="mut-", dir="/tmp")   # one of the tests fails on tmpfs
    shutil.copytree(VERIF, base + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
    eng = base + "/verif/mbv/engine.py"
    t = open(eng).read().replace("SHRINK_SECONDS = 40", "SHRINK_SECONDS = 0")
    open(eng, "w").write(t)
    shm = tempfile.mkdtemp(prefix="mut-", dir="/dev/shm")
    q = queue.Queue()
    for t in todo: q.put(t)
    q2 = base + "/probe"
    sh(["git", "clone", "-q", REPO, q2], check=True)
    if not tests_pass(q2, base): sys.exit("the unchanged tree fails its tests here")
    lock = threading.Lock()
    total = len(todo)

    def worker(w):
        repo = base + "/r%d" % w
        sh(["git", "clone", "-q", REPO, repo], check=True)
        if os.environ.get("MUT_DIFF"):
            sh(["git", "apply", os.environ["MUT_DIFF"]], cwd=repo, check=True)
        work = base + "/w%d" % w
        os.mkdir(work)
        scr = shm + "/w%d" % w
        os.mkdir(scr)
        while True:
            try: f, line, what, new = q.get_nowait()
            except queue.Empty: return
            p = os.path.join(repo, "multibag", f)
            orig = open(p, encoding="utf-8").read()
            open(p, "w", encoding="utf-8").write(new)
            rec = {"file": f, "line": line, "what": what}
            try:
                if not tests_pass(repo, work):
                    rec["res"] = "tests"
                else:
                    order = ORDER[f].split()
                    rec["res"] = "SURVIVED"
                    for c in order:
                        o = work + "/out.json"
                        for x in (o, o + ".fail"):
                            if os.path.exists(x): os.remove(x)
                        env = dict(os.environ, MBV_REPO=repo)
                        if c == "C21":
                            env.update(SHIM)
                        r = sh(["timeout", "-s", "KILL", "200", "python3", base + "/verif/run.py", c, "--shard", "0", "--nshards", "8", "--out", o, "--scratch", scr], env=env)
                        try:
                            d = json.load(open(o))
                        except Exception:
                            rec["res"] = c; rec["msg"] = "NO OUTPUT " + r.stdout[-300:]; break
                        if d["fail"]:
                            rec["res"] = c; rec["msg"] = d["fail"]["message"][:200]; break
                        if d["harness"]:
                            rec["res"] = c; rec["msg"] = "HARNESS " + d["harness"][-300:]; break
            finally:
                open(p, "w", encoding="utf-8").write(orig)
            with lock:
                with open(outf, "a") as fd:
                    fd.write(json.dumps(rec) + "\n")

    global SHIM
    sys.path.insert(0, base + "/verif")
    from mbv import faults
    os.mkdir(base + "/shim")
    e = faults.shimmed_env(base + "/shim")
    SHIM = {k: v for k, v in e.items() if os.environ.get(k) != v}
    try:
        ts = [threading.Thread(target=worker, args=(i,)) for i in range(int(os.environ.get("MUT_JOBS", "8")))]
        for t in ts: t.start()
        for t in ts: t.join()
    finally:
        for b in (base, shm):
            sh(["chmod", "-R", "u+rwx", b]); shutil.rmtree(b, ignore_errors=True)

main()
