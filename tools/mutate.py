"""Mutation testing of the checks (development tool, no check uses it).

mutate.py gen OUT.json            write the list of all mutants
mutate.py tests IN.json OUT.json  keep the mutants the repository's own tests do not notice
mutate.py checks IN.json OUT.json [--all] [N SEED]  run the checks on each (first to report wins; --all: every check)
"""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["F15_Parser/ErrorMessageDefinitions.py", "F15_Parser/ExtractedRouteRecord.py", "F15_Parser/ExtractedRouteSequence.py", "F15_Parser/F15Parse.py", "F15_Parser/F15TokenSyntaxDescriptions.py",
         "Tokenizer/Token.py", "Tokenizer/Tokenize.py", "Tokenizer/Tokens.py", "Utilities/Constants.py", "Utilities/Utils.py"]
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def mutants(path):
    src = open(os.path.join("/repo", path), newline="", encoding="utf-8").read()
    flat = src.replace("\r\n", "\n")
    lines = flat.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    tree = ast.parse(flat)

    def pos(line, col):
        return off[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    out = []

    def put(kind, a, b, new, line):
        if flat[a:b] != new:
            out.append(dict(file=path, kind=kind, a=a, b=b, old=flat[a:b], new=new, line=line))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
            doc.add(n.body[0])
    states = sorted({n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and [a.arg for a in n.args.args] == ["self", "ers", "tokens", "token"] or isinstance(n, ast.FunctionDef) and [a.arg for a in n.args.args][:4] == ["self", "ers", "tokens", "previous_token"]})
    by_args = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            by_args.setdefault(tuple(a.arg for a in n.args.args), []).append(n.name)
    same = {x: [y for y in v if y != x] for v in by_args.values() for x in v if len(v) > 1}
    rnd = random.Random(1)
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            put("compare", a, b, " %s " % CMP[type(n.ops[0])], n.lineno)
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                put("compare", a, b, {"<": " > ", "<=": " >= ", ">": " < ", ">=": " <= "}[flat[a:b].strip(" ()")] if flat[a:b].strip(" ()") in ("<", "<=", ">", ">=") else flat[a:b], n.lineno)
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            t = flat[a:b]
            put("bool", a, b, t.replace("and", "or") if "and" in t else t.replace("or", "and"), n.lineno)
            for v in n.values:
                x, y = span(v)
                put("bool-drop", x, y, "True" if isinstance(n.op, ast.And) else "False", n.lineno)
        elif isinstance(n, (ast.If, ast.While)) or isinstance(n, ast.IfExp):
            a, b = span(n.test)
            put("cond", a, b, "True", n.lineno)
            put("cond", a, b, "False", n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            put("not", a, b, flat[span(n.operand)[0]:span(n.operand)[1]], n.lineno)
        elif isinstance(n, ast.BinOp):
            a, b = span(n.left)[1], span(n.right)[0]
            t = flat[a:b]
            for x, y in (("+", "-"), ("-", "+"), ("*", "/"), ("/", "*")):
                if t.strip(" ()\n") == x:
                    put("arith", a, b, t.replace(x, y), n.lineno)
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            put("const", *span(n), str(not n.value), n.lineno)
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1):
                put("const", *span(n), str(n.value + d), n.lineno)
        elif isinstance(n, ast.Constant) and type(n.value) is float:
            put("const", *span(n), repr(n.value * 1.001 + (n.value == 0)), n.lineno)
            put("const", *span(n), repr(n.value + 1), n.lineno)
        elif isinstance(n, ast.Constant) and type(n.value) is str:
            a, b = span(n)
            t = flat[a:b]
            if "SyntaxDesc" in path and ("{" in t or "[" in t or "(" in t):
                for m in re.finditer(r"\{(\d+)(,(\d+))?\}", t):
                    for d in (1, -1):
                        put("regex", a + m.start(1), a + m.end(1), str(int(m[1]) + d), n.lineno)
                        if m[3]:
                            put("regex", a + m.start(3), a + m.end(3), str(int(m[3]) + d), n.lineno)
                for m in re.finditer(r"\[[^\]]*\]", t):
                    for r in ("[0-9A-Z]", "[A-Z]", "[0-9]", "\\\\d" if not t.startswith("r") else "\\d", "."):
                        put("regex", a + m.start(), a + m.end(), r, n.lineno)
                    for j in range(m.start() + 1, m.end() - 1):
                        put("regex", a + j, a + j + 1, "", n.lineno)
                for m in re.finditer(r"[|?]", t):
                    put("regex", a + m.start(), a + m.end(), "", n.lineno)
            elif n.value:
                q = len(t) - len(t.lstrip("rbfu"))
                put("string", a + q + 1, a + q + 2, "", n.lineno)
                put("string", b - 2, b - 1, "", n.lineno)
                mid = (a + b) // 2
                if mid not in (a, b - 1) and b - a > 6:
                    put("string", mid, mid + 1, "", n.lineno)
            else:
                put("string", a, b, "'x'", n.lineno)
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.Break, ast.Continue)):
            if not (isinstance(n, ast.Assign) and "Enum" in flat[:span(n)[0]].rsplit("class", 1)[-1][:60]):
                put("delete", *span(n), "pass", n.lineno)
        elif isinstance(n, ast.Attribute):
            a, b = span(n)
            c = pos(n.end_lineno, n.end_col_offset) - len(n.attr)
            if n.attr.startswith("F15_") and n.attr[4:5] != "S" or n.attr.startswith("F15_"):
                names = sorted(set(re.findall(r"\b%s\.(F15_\w+)" % re.escape(flat[a:c - 1].split(".")[-1]), flat)) - {n.attr})
                for y in rnd.sample(names, min(3, len(names))):
                    put("enum", c, b, y, n.lineno)
            elif isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in same:
                k = same[n.attr]
                for y in rnd.sample(k, min(3, len(k))):
                    put("method", c, b, y, n.lineno)
        if isinstance(n, ast.match_case):
            a, b = span(n.body[0])[0], span(n.body[-1])[1]
            put("case-empty", a, b, "pass", n.body[0].lineno)
        if isinstance(n, (ast.FunctionDef, ast.If, ast.match_case)) or isinstance(n, ast.For):
            for body in (n.body, getattr(n, "orelse", [])):
                for s, t in zip(body, body[1:]):
                    if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(t, (ast.Expr, ast.Assign)) and s not in doc:
                        put("swap", span(s)[0], span(t)[1], flat[slice(*span(t))] + flat[span(s)[1]:span(t)[0]] + flat[slice(*span(s))], s.lineno)
    good = []
    seen = set()
    for m in out:
        k = (m["a"], m["b"], m["new"])
        if k in seen:
            continue
        seen.add(k)
        try:
            ast.parse(flat[:m["a"]] + m["new"] + flat[m["b"]:])
        except SyntaxError:
            continue
        good.append(m)
    return good


def copy(m):
    work = tempfile.mkdtemp(prefix="mut.")
    repo = os.path.join(work, "repo")
    os.makedirs(repo)
    subprocess.run("git -C /repo archive HEAD | tar x -C " + repo, shell=True, check=True)
    p = os.path.join(repo, m["file"])
    s = open(p, newline="", encoding="utf-8").read()
    crlf = "\r\n" in s
    s = s.replace("\r\n", "\n")
    assert s[m["a"]:m["b"]] == m["old"]
    s = s[:m["a"]] + m["new"] + s[m["b"]:]
    open(p, "w", newline="", encoding="utf-8").write(s.replace("\n", "\r\n") if crlf else s)
    return work, repo


def survives(m):
    work, repo = copy(m)
    try:
        p = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=repo, capture_output=True, text=True, timeout=60,
                           env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
        return p.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        shutil.rmtree(work)


def one(arg):
    m, props, stop = arg
    work, repo = copy(m)
    hits = []
    t = time.time()
    try:
        ver = os.path.join(work, "verif")
        shutil.copytree(V, ver, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "__pycache__"))
        for p in props:
            try:
                r = subprocess.run(["python3-vt", "run.py", p, "quick"], cwd=ver, env=dict(os.environ, F15_REPO=repo, VERIF_WORKERS="1", VERIF_TIER="quick"), capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                hits.append(p + "?timeout")
                continue
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                hits.append(p)
                if stop:
                    break
            elif r.returncode != 0:
                hits.append("%s?rc%d %s" % (p, r.returncode, (r.stdout + r.stderr)[-200:]))
        return dict(m, hits=hits, sec=round(time.time() - t))
    finally:
        shutil.rmtree(work)


def order(path, only_first=False):
    every = ["C%02d" % i for i in range(1, 27)]
    first = {"Tokenize.py": ["C01", "C21", "C02", "C23"], "Tokens.py": ["C02", "C01", "C23"], "Token.py": ["C01", "C02", "C23", "C24"], "Utils.py": ["C26", "C09", "C04", "C05", "C08"], "Constants.py": ["C26", "C05", "C04"],
             "ExtractedRouteRecord.py": ["C24", "C22", "C23", "C06"], "ExtractedRouteSequence.py": ["C24", "C22", "C23", "C19"], "ErrorMessageDefinitions.py": ["C19"], "F15TokenSyntaxDescriptions.py": ["C03", "C23"],
             "F15Parse.py": ["C17", "C15", "C04", "C08", "C14"]}[os.path.basename(path)]
    return first if only_first else first + [x for x in every if x not in first]


def main(a):
    if a[0] == "gen":
        ms = [m for f in FILES for m in mutants(f)]
        json.dump(ms, open(a[1], "w"))
        print(len(ms))
        return
    ms = json.load(open(a[1]))
    if a[0] == "tests":
        with ThreadPoolExecutor(int(os.environ.get("J", 8))) as ex:
            keep = [m for m, s in zip(ms, ex.map(survives, ms)) if s]
        json.dump(keep, open(a[2], "w"))
        print(len(ms), "mutants,", len(keep), "survive the tests")
    else:
        every = "--all" in a
        rest = [x for x in a[3:] if x[0] != "-"]
        if rest:
            random.Random(int(rest[1])).shuffle(ms)
            ms = ms[:int(rest[0])]
        res = []
        with ThreadPoolExecutor(int(os.environ.get("J", 8))) as ex:
            for r in ex.map(one, [(m, order(m["file"], "--first" in a), not every) for m in ms]):
                res.append(r)
                json.dump(res, open(a[2], "w"))
                if every or not any("?" not in h for h in r["hits"]):
                    print("%s:%d %s %r -> %r: %s (%d s)" % (r["file"], r["line"], r["kind"], r["old"][:60], r["new"][:60], " ".join(r["hits"]) or "NONE", r["sec"]), flush=True)
        print("done", len(res), "undetected", sum(not r["hits"] for r in res))


if __name__ == "__main__":
    main(sys.argv[1:])
