"""Mutation testing of the checks: planted changes in copies of the repository, outside /repo and /verif.
usage: tools/mutate.py list [FILE...] | run OUT WORKERS [FILE...]"""
import warnings
warnings.simplefilter("ignore")
import ast, json, os, shutil, subprocess, sys, threading, queue
REPO = "/repo"
PK = "templatefitter/"
MAP = {
    "histograms/": "H01 H02 H03 H04 H05 T04 C05 C06 C07",
    "templates/abstract_template.py": "T01 T02 T03 T04 V01 C02",
    "templates/template1d.py": "T01 T02 T03 T04 V01",
    "templates/template2d.py": "T01 T02 T03 T04 V01",
    "templates/channel.py": "C01 C02 C03 C04 C05 C06 C07 C08 V01 M01 M02 M05",
    "templates/multi_channel_template.py": "M01 M02 M03 M04 M05 C04 C06 C07 F01 F02 Y02",
    "utility.py": "U01 U02 P01 T03 T04 C02",
    "minimizer.py": "P01 P02 P03 P04 F01",
    "fitter.py": "F01 F02 F03 F04",
    "toy_study.py": "Y01 Y02 Y03",
    "stats.py": "S01",
    "histogram_legacy.py": "L01 L02",
    "templates_legacy.py": "L02 V01",
    "nll.py": "L02",
}


def files():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, PK)):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), os.path.join(REPO, PK))
            if f.endswith(".py") and any(p.startswith(k) for k in MAP):
                r.append(p)
    return sorted(r)


def mutants(path):
    src = open(os.path.join(REPO, PK, path)).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    out = []

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()

    def rep(n, new, what):
        s, e = pos(n)
        out.append((n.lineno, what, (b[:s] + new.encode() + b[e:]).decode()))
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)):
            rep(n, f"({seg(n.left)}) {BIN[type(n.op)]} ({seg(n.right)})", f"op -> {BIN[type(n.op)]}")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, f"({seg(n.left)}) {CMP[type(n.ops[0])]} ({seg(n.comparators[0])})", f"cmp -> {CMP[type(n.ops[0])]}")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not Ellipsis:
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), f"{v} -> {not v}")
            elif v is None:
                pass
            elif isinstance(v, int):
                rep(n, str(v + 1), f"{v} -> {v+1}")
                if v > 0:
                    rep(n, str(v - 1), f"{v} -> {v-1}")
            elif isinstance(v, float):
                rep(n, repr(v * 2 if v else 1.0), f"{v} -> {v*2 if v else 1.0}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep(n, f"({seg(n.operand)})", "unary dropped")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, o.join(f"({seg(v)})" for v in n.values), f"->{o}")
        elif isinstance(n, ast.AugAssign):
            t = seg(n.target)
            rep(n, f"{t} = {seg(n.value)}", "aug -> =")
            rep(n, "pass", "statement dropped")
        elif isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, "True", "if True")
            rep(n.test, "False", "if False")
        elif isinstance(n, ast.Expr) and n not in doc and isinstance(n.value, ast.Call):
            rep(n, "pass", "statement dropped")
        elif isinstance(n, ast.Raise):
            rep(n, "pass", "raise dropped")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            rep(n, "pass", "assignment dropped")
        elif isinstance(n, ast.Call):
            a = n.args
            if len(a) >= 2 and not any(isinstance(x, ast.Starred) for x in a[:2]):
                s0, e0 = pos(a[0])
                s1, e1 = pos(a[1])
                out.append((n.lineno, "args swapped", (b[:s0] + b[s1:e1] + b[e0:s1] + b[s0:e0] + b[e1:]).decode()))
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords and n.func.attr in ("copy", "flatten", "items", "values", "keys"):
                rep(n, seg(n.func.value), f".{n.func.attr}() dropped")
            f = seg(n.func)
            if f in ("np.array", "np.abs", "np.sqrt", "np.copy", "abs", "np.diag", "list", "copy.deepcopy", "np.sum", "tuple", "np.transpose", "sorted", "reversed") and len(a) >= 1 and len(n.args) == 1 and f != "np.array" or f == "np.array" and len(a) == 1:
                rep(n, f"({seg(a[0])})", f"{f} dropped")
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(a) > 1:
                    s, e = pos(k.value)
                    ks = b.rfind(k.arg.encode(), 0, s)
                    e2 = e
                    while e2 < len(b) and b[e2:e2 + 1] in b" \n,":
                        e2 += 1
                        if b[e2 - 1:e2] == b",":
                            break
                    out.append((k.value.lineno, f"keyword {k.arg} dropped", (b[:ks] + b[e2:]).decode()))
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is None and n.step is None:
                rep(n, ":" + seg(n.lower), "slice side")
            elif n.upper is not None and n.lower is None and n.step is None:
                rep(n, seg(n.upper) + ":", "slice side")
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for x, y in (("hup", "hdown"), ("hdown", "hup"), ("weights_up", "weights_down"), ("xaxis", "yaxis"), ("process", "channel")):
                if n.id == x:
                    rep(n, y, f"{x} -> {y}")
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for x, y in (("values", "errors"), ("errors", "values"), ("bin_counts", "bin_errors_sq"), ("bin_errors_sq", "bin_counts"), ("bin_edges", "bin_mids"), ("yield_param", "num_bins"), ("params", "nui_params"), ("num_bins", "num_templates"),
                         ("initial_params", "params"), ("append", "extend"), ("num_templates", "num_bins"), ("corr", "inv_corr_mat"), ("covariance", "correlation"), ("x0", "param_names")):
                if n.attr == x:
                    s, e = pos(n)
                    out.append((n.end_lineno, f".{x} -> .{y}", (b[:e - len(x)] + y.encode() + b[e:]).decode()))
    seen, res = set(), []
    for l, w, s in out:
        if s in seen or s == src:
            continue
        seen.add(s)
        try:
            compile(s, path, "exec")
        except (SyntaxError, ValueError):
            continue
        res.append((l, w, s))
    return sorted(res, key=lambda t: t[0])


def sh(cmd, cwd, env, t):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 99, ""


def run(out, n, fs):
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(l)["key"]) for l in open(out)}
    q = queue.Queue()
    for f in fs:
        for k, (l, w, s) in enumerate(mutants(f)):
            if (f, k) not in done:
                q.put((f, k, l, w, s))
    print(q.qsize(), "mutants", flush=True)
    lock = threading.Lock()

    def work(i):
        d = f"/tmp/mutw/{i}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(["cp", "-a", REPO, d + "/repo"], check=True)
        subprocess.run(["git", "clone", "-q", "/verif", d + "/verif"], check=True)
        env = dict(os.environ, VERIF_REPO=d + "/repo", PYTHONDONTWRITEBYTECODE="1", VERIF_JOBS=os.environ.get("VERIF_JOBS", "3"))
        while True:
            try:
                f, k, l, w, s = q.get_nowait()
            except queue.Empty:
                return
            p = os.path.join(d, "repo", PK, f)
            old = open(os.path.join(REPO, PK, f)).read()
            line = old.splitlines()[l - 1].strip()
            open(p, "w").write(s)
            e2 = dict(env, PYTHONPATH=d + "/repo")
            rc, o = sh(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "tests"], d + "/repo", e2, 60)
            st, by = "tests", None
            if rc == 0:
                st = "SURVIVED"
                cs = next(v for kk, v in MAP.items() if f.startswith(kk)).split()
                noans = []
                for c in cs:
                    rc, o = sh(["./check.py", c], d + "/verif", env, 400)
                    if rc == 1:
                        st, by = "caught", c
                        break
                    if rc != 0:
                        noans.append(c)
                if noans and st != "caught":
                    st, by = "NOANSWER", " ".join(noans)
            open(p, "w").write(old)
            with lock, open(out, "a") as fo:
                fo.write(json.dumps(dict(key=[f, k], line=l, text=line, what=w, status=st, by=by)) + "\n")
    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for f in sys.argv[2:] or files():
            print(f, len(mutants(f)))
    else:
        run(sys.argv[2], int(sys.argv[3]), sys.argv[4:] or files())
