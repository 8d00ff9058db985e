"""Guarded mutation of the parser: mutants that act only under a rare condition (development tool, no check uses it).

guarded.py gen N SEED OUT.json [other]   (other: N of each of the other files)  write N mutants (patched file text, what was done) the repository's own tests do not notice
guarded.py run IN.json OUT.json    for each: the checks of the properties its function serves; what a fuzzer of fields finds
                                   to behave as the unchanged tree is skipped
"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, Q, R = "F15_Parser/F15Parse.py", "F15_Parser/ExtractedRouteSequence.py", "F15_Parser/ExtractedRouteRecord.py"

ELEMENTS = ["F15_POINT", "F15_ATS", "F15_DCT", "F15_SID_STAR", "F15_BREAK_START", "F15_SPEED_ALTITUDE", "F15_SLASH", "F15_STAY", "F15_C", "F15_UNKNOWN", "F15_TRUNCATE", "F15_SPEED_ALTITUDE_PLUS", "F15_STAY_TIME"]


OTHER = {R: [("as_xml", "C22"), ("to_string", "C23"), ("print", "C23"), ("stay", "C11 C24"), ("unit_test_only", ""), ("", "C24")], Q: [("as_xml", "C22"), ("print", "C23"), ("add_error", "C19 C24"), ("", "C24")],
         "Tokenizer/Tokens.py": [("print", "C23"), ("", "C02")], "Tokenizer/Tokenize.py": [("", "C01")], "Tokenizer/Token.py": [("print", "C23"), ("", "C01 C02")],
         "Utilities/Utils.py": [("mach", "C05 C26"), ("sound", "C05 C26"), ("bearing", "C10 C26"), ("", "C26")], "F15_Parser/F15TokenSyntaxDescriptions.py": [("print", "C23"), ("get_token_type", "C03"), ("", "C23")]}


def other_guard(rnd, path, args):
    c = rnd.choice
    g = {R: ["len(self.get_name()) > %d" % c([5, 11, 17, 25]), "self.get_start_index() > %d" % c([9, 99, 255, 999]), "self.get_stay_time() > %d" % c([0, 59, 599, 999]), "self.get_latitude() < %d" % c([0, -45]), "self.get_longitude() < %d" % c([0, -99]),
             "self.get_distance() > %s" % c(["0", "1e5", "1e6", "9999999"]), "0 < self.get_distance() < 1", "self.get_bearing() < %d" % c([0, -99]), "len(self.get_break_text()) > %d" % c([0, 20, 91]), "len(self.get_error_text()) > %d" % c([0, 60, 91]),
             "self.get_flight_rules() == '%s'" % c(["VFR", "OAT", "IFPS"]), "self.get_speed()[:1] == '%s'" % c("MK"), "self.get_altitude()[:1] == '%s'" % c("SMA"), "self.get_altitude_cruise_to() == 'PLUS'", "self.get_altitude_cruise_to_si() > %d" % c([0, 9999]),
             "self.get_base_type() == %d" % c([1, 5, 9]), "not self.get_name().isalnum()", "'&' in self.get_name()", "self.get_name() in self.get_error_text()", "self.get_altitude_si() == 0", "self.get_speed_si() > %d" % c([99, 299])],
         Q: ["len(self.extracted_route_records) > %d" % c([2, 5, 10, 20]), "len(self.error_records) > %d" % c([0, 1, 3, 10]), "len(self.error_records) == %d" % c([1, 2]), "self.derived_flight_rules == '%s'" % c("YZV"), "len(self.extracted_route_records) %% 5 == %d" % c([0, 1]),
             "self.extracted_route_records[-1].get_name() == self.extracted_route_records[-2].get_name()", "self.extracted_route_records[-1].get_break_text() != ''"],
         "Tokenizer/Tokens.py": ["len(self.tokens) > %d" % c([1, 3, 10, 40]), "self.current_token > %d" % c([0, 1, 5, 20]), "self.current_token < 0", "self.current_token >= len(self.tokens)", "self.tokens[self.current_token].get_token_string() == '/'", "len(self.tokens) == self.current_token + 1", "len(self.tokens) == 0"],
         "Tokenizer/Tokenize.py": ["len(self.string_to_tokenize) > %d" % c([10, 50, 128, 255]), "self.string_to_tokenize[:1] in self.whitespace", "len(self.whitespace) > %d" % c([1, 4, 6]), "'/' not in self.whitespace", "self.tokens.get_number_of_tokens() > %d" % c([1, 5, 20]), "self.string_to_tokenize.count('/') > %d" % c([0, 1, 3]),
                                   "not self.string_to_tokenize.isascii()", "'\\n' in self.string_to_tokenize"] + (["len(token_text) > %d" % c([3, 9, 25])] if "token_text" in args else []),
         "Tokenizer/Token.py": ["len(self.token_string) > %d" % c([1, 7, 25]), "self.token_start_index > %d" % c([0, 99, 255])],
         "F15_Parser/F15TokenSyntaxDescriptions.py": ["len(token_string) == %d" % c([1, 2, 5, 9, 13]), "token_string[-1:].isdigit()", "token_string[:1] in 'NST'", "len(token_string) > %d" % c([9, 18, 25])] if "token_string" in args else [],
         "Utilities/Utils.py": []}[path]
    if path == "Utilities/Utils.py":
        for a in args - {"self"}:
            g += {"l": [a + " < 0", a + " > %d" % c([45, 80, 90, 150]), "abs(%s) < 1" % a, a + " == int(%s)" % a], "b": [a + " > %d" % c([90, 180, 270]), a + " == 0"], "d": [a + " > 500000", a + " < 2000", "'9' in " + a, a + "[0] == '0'"],
                  "a": [a + " > %d" % c([3000, 10999, 15000]), a + " < 100"], "m": [a + " > %d" % c([90, 100, 300]), a + " < 30"], "s": [a + " == 3"]}.get(a[0], [])
    if not g:
        return None
    return " and ".join("(%s)" % x for x in rnd.sample(g, min(1 if rnd.random() < .75 else 2, len(g))))


def long_guard(rnd, args):
    """LONG=1: conditions that only long fields or elements meet."""
    g, c = [], rnd.choice
    if "ers" in args:
        g += ["ers.get_number_of_elements() > %d" % c([50, 64, 100, 128, 255, 400])] * 3 + ["ers.get_number_of_elements() %% %d == 0" % c([16, 32, 50, 64, 100])]
        g += ["ers.get_number_of_errors() > %d" % c([5, 9, 15, 30, 49]), "len(ers.get_last_element().get_break_text()) > %d" % c([128, 255, 400]),
              "len(ers.get_all_elements()) - len({r.get_name() for r in ers.get_all_elements()}) > %d" % c([5, 15, 40]),
              "sum(r.get_stay_time() for r in ers.get_all_elements()) > %d" % c([600, 1439, 3000]), "sum(r.get_distance() for r in ers.get_all_elements()) > %d" % c([10**6, 10**7, 4 * 10**7]),
              "sum(bool(r.get_break_text()) for r in ers.get_all_elements()) > %d" % c([2, 5, 9]), "sum(bool(r.get_altitude_cruise_to()) for r in ers.get_all_elements()) > %d" % c([2, 5, 9]),
              "len({r.get_speed() for r in ers.get_all_elements()}) > %d" % c([3, 6, 12]), "len({r.get_flight_rules() for r in ers.get_all_elements()}) > 3"]
    for t in ("token", "next_token", "previous_token"):
        if t in args:
            g += [t + ".get_token_start_index() > %d" % c([500, 999, 1023, 2000]), "len(%s.get_token_string()) > %d" % (t, c([31, 50, 64, 100, 255]))]
    if "tokens" in args:
        g += ["tokens.get_number_of_tokens() > %d" % c([64, 100, 127, 255, 500])]
    return "(%s)" % c(g) if g else None


def hist_guard(rnd, args):
    """HIST=1: conditions on what was seen at the same place before, in this field or an earlier one."""
    c = rnd.choice
    v = [t + ".get_token_string()" for t in ("token", "next_token") if t in args] + [a for a in ("altitude_string", "latitude", "longitude", "speed_string") if a in args]
    if "ers" in args:
        v += ["ers.get_last_element().get_name()", "ers.get_last_element().get_speed()", "ers.get_last_element().get_altitude()"]
    if not v:
        return None
    test = c(["new == old", "new[:1] == old[:1] and new != old", "new in seen and new != old", "new.lower() != new", "len(new) == len(old) and new[:3] == old[:3] and new != old", "new[::-1] in seen and new[::-1] != new",
              "n == %d" % c([2, 7, 20, 64, 100, 128, 256]), "n > %d" % c([50, 128, 256, 1000]), "len(seen) > %d" % c([8, 16, 32, 64, 128]), "new.upper() in seen and new not in seen", "new[:4] in {x[:4] for x in list(seen)[:50] if x != new} and n > 20"])
    return "HISTORY(%d, %s, lambda old, new, n, seen: %s)" % (rnd.randrange(10**9), c(v), test)


HISTORY = """
_HISTORY = {}


def HISTORY(place, value, test):
    h = _HISTORY.setdefault(place, [None, 0, set()])
    r = h[0] is not None and test(h[0], value, h[1], h[2])
    h[0], h[1] = value, h[1] + 1
    h[2].add(value)
    return r


"""


def guard(rnd, args):
    if os.environ.get("HIST"):
        return hist_guard(rnd, args)
    if os.environ.get("LONG"):
        return long_guard(rnd, args)
    g = []
    if "ers" in args:
        g += ["ers.get_number_of_elements() > %d" % rnd.choice([2, 3, 5, 8, 12, 20, 40]), "ers.get_number_of_elements() < %d" % rnd.choice([3, 4]), "ers.get_number_of_elements() %% %d == %d" % rnd.choice([(2, 0), (5, 1), (7, 3)]),
              "ers.get_number_of_errors() > %d" % rnd.choice([0, 1, 2, 4]), "ers.get_number_of_errors() == %d" % rnd.choice([1, 2]),
              "ers.get_last_element().get_name() in [r.get_name() for r in ers.get_all_elements()[:-1]]",
              "'%s' in [r.get_flight_rules() for r in ers.get_all_elements()[:-1]]" % rnd.choice(["OAT", "IFPS", "VFR"]),
              "ers.get_last_element().get_flight_rules() == '%s'" % rnd.choice(["OAT", "IFPS", "VFR"]),
              "any(r.get_altitude_cruise_to() for r in ers.get_all_elements())", "ers.get_last_element().get_altitude_cruise_to() != ''",
              "ers.get_last_element().get_base_type().name == '%s'" % rnd.choice(["F15_POINT", "F15_C", "F15_ATS", "F15_DCT", "F15_SID_STAR"][:5]),
              "ers.get_previous_to_last_element().is_lat_long_valid()", "ers.get_last_element().is_lat_long_valid()",
              "ers.get_last_element().get_speed()[0] == '%s'" % rnd.choice("MKN"), "ers.get_last_element().get_altitude()[0] == '%s'" % rnd.choice("AMSF"),
              "ers.get_last_element().get_altitude_si() > %d" % rnd.choice([5000, 11000, 13000]), "ers.get_last_element().get_speed_si() < %d" % rnd.choice([50, 150]),
              "ers.get_last_element().get_latitude() < %d" % rnd.choice([0, -60]), "ers.get_last_element().get_longitude() > %d" % rnd.choice([0, 90, 150]),
              "ers.get_last_element().get_stay_time() > %d" % rnd.choice([0, 60, 599]), "any(r.get_stay_time() for r in ers.get_all_elements())",
              "len(ers.get_last_element().get_break_text()) > %d" % rnd.choice([20, 60, 100]), "ers.get_last_element().get_break_text().count(' ') == %d" % rnd.choice([1, 2, 5])]
    for t in ("token", "next_token", "previous_token"):
        if t in args:
            s = t + ".get_token_string()"
            g += ["len(%s) == %d" % (s, rnd.choice([1, 2, 3, 5, 9, 11])), "len(%s) > %d" % (s, rnd.choice([5, 7, 11, 25])), t + ".get_token_start_index() > %d" % rnd.choice([30, 60, 99, 128, 255]),
                  s + "[-1].isdigit()", s + "[-1] in '%s'" % rnd.choice(["0", "AEIOU", "SW", "9"]), s + "[0] in '%s'" % rnd.choice(["NST", "XYZ", "0123", "C"]), "not %s.isalnum()" % s, "%s == %s[::-1]" % (s, s)]
    if "tokens" in args:
        g += ["tokens.get_number_of_tokens() > %d" % rnd.choice([5, 9, 16, 30]), "tokens.peek_next_token(1) is None", "tokens.peek_next_token(2) is None",
              "tokens.peek_next_token(%d).get_token_base_type().name == '%s'" % (rnd.choice([1, 2]), rnd.choice(ELEMENTS)), "tokens.peek_previous_token(%d).get_token_base_type().name == '%s'" % (rnd.choice([1, 2, 3]), rnd.choice(ELEMENTS)),
              "tokens.get_current_token().get_token_string() in [x.get_token_string() for x in tokens.get_tokens()[:tokens.get_tokens().index(tokens.get_current_token())]]",
              "tokens.peek_next_token(1).get_token_string() == tokens.get_current_token().get_token_string()"]
    if "ex_route_rec" in args:
        g += ["ex_route_rec.get_latitude() < 0", "ex_route_rec.get_altitude_si() > %d" % rnd.choice([1000, 11000]), "ex_route_rec.get_speed()[:1] == 'M'", "len(ex_route_rec.get_name()) == %d" % rnd.choice([2, 7, 11]), "ex_route_rec.get_flight_rules() == 'VFR'"]
    for a in ("altitude_string", "latitude", "longitude", "speed"):
        if a in args:
            g += ["%s[1:3] == '%s'" % (a, rnd.choice(["00", "09", "18"])), "'9' in " + a, "len(%s) == %d" % (a, rnd.choice([4, 5])), "%s[0] == '%s'" % (a, rnd.choice("SMK01"))]
    if not g:
        return None
    n = 1 if rnd.random() < .65 else 2
    return " and ".join("(%s)" % x for x in rnd.sample(g, min(n, len(g))))


SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def mutate_expr(rnd, n):
    m = copy.deepcopy(n)
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        m.ops = [SWAP[type(n.ops[0])]()]
    elif isinstance(n, ast.BoolOp):
        m.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif isinstance(n, ast.BinOp) and type(n.op) in SWAP:
        m.op = SWAP[type(n.op)]()
    elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
        m.value = not n.value
    elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
        m.value = n.value + rnd.choice([-1, 1]) if n.value != 100 else 10
    elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and len(n.value) < 60:
        m.value = rnd.choice([x for x in ("", n.value[::-1], n.value.lower()) if x != n.value])
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        m = m.operand
    else:
        return None
    return m


def mutants(n, seed, path=P):
    rnd = random.Random("%s %s" % (path, seed))
    src = open(os.path.join("/repo", path), newline="", encoding="utf-8").read().replace("\r\n", "\n")
    base = ast.parse(src)
    sites = []
    for f in [x for x in ast.walk(base) if isinstance(x, ast.FunctionDef)]:
        args = {a.arg for a in f.args.args}
        for s in ast.walk(f):
            if isinstance(s, ast.stmt) and s is not f and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, (ast.Return, ast.Match)):
                sites.append((f.name, args, s, "stmt"))
            if isinstance(s, ast.Return) and s.value is None:
                sites.append((f.name, args, s, "stmt"))
            for field, val in ast.iter_fields(s) if isinstance(s, (ast.expr, ast.stmt)) else ():
                for i, v in enumerate(val if isinstance(val, list) else [val]):
                    if isinstance(v, ast.expr) and isinstance(s, (ast.expr, ast.If, ast.Assign, ast.Expr, ast.Return)) and mutate_expr(random.Random(0), v) is not None:
                        sites.append((f.name, args, (s, field, i if isinstance(val, list) else None), "expr"))
    states = sorted({x.name for x in ast.walk(base) if isinstance(x, ast.FunctionDef) and [a.arg for a in x.args.args] == ["self", "ers", "tokens", "token"]})
    out = []
    while len(out) < n:
        fname, args, where, kind = rnd.choice(sites)
        g = guard(rnd, args) if path == P else other_guard(rnd, path, args)
        if g is None:
            continue
        test = ast.parse("GUARDED_WHEN(lambda: %s)" % g, mode="eval").body
        tree = base
        undo = None
        if kind == "stmt":
            stmt = where
            if isinstance(stmt, (ast.If, ast.For, ast.While)) and rnd.random() < .5:
                continue
            new, what = ast.Pass(), "skip"
            call = stmt.value if isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Call) else None
            if call is not None and isinstance(call.func, ast.Attribute) and rnd.random() < .6:
                c = copy.deepcopy(stmt)
                if call.func.attr in states:
                    c.value.func.attr = rnd.choice([x for x in states if x != call.func.attr])
                elif call.func.attr in ("add_error_and_re_sync", "add_error_no_re_sync") and isinstance(call.args[-1], ast.Constant):
                    c.value.args[-1].value = rnd.choice([x for x in range(1, 53) if x != call.args[-1].value])
                elif rnd.random() < .5:
                    c = [copy.deepcopy(stmt), copy.deepcopy(stmt)]
                new, what = c, "twice" if isinstance(c, list) else "call"
                if not isinstance(c, list) and ast.unparse(c) == ast.unparse(stmt):
                    new, what = ast.Pass(), "skip"
            repl = ast.If(test=test, body=new if isinstance(new, list) else [new], orelse=[stmt])
            desc = "%s: %s -> %s" % (fname, ast.unparse(stmt)[:80], ast.unparse(new[0] if isinstance(new, list) else new)[:80] + (" twice" if what == "twice" else ""))
            for p in ast.walk(tree):
                for field, val in ast.iter_fields(p):
                    if isinstance(val, list) and any(v is stmt for v in val):
                        i = [v is stmt for v in val].index(True)
                        val[i] = repl
                        undo = (val, i, stmt)
        else:
            p, field, i = where
            val = getattr(p, field)
            old = val if i is None else val[i]
            mut = mutate_expr(rnd, old)
            repl = ast.IfExp(test=test, body=mut, orelse=old)
            desc = "%s: %s -> %s" % (fname, ast.unparse(old)[:80], ast.unparse(mut)[:80])
            if i is None:
                setattr(p, field, repl)
                undo = (p, field, old)
            else:
                val[i] = repl
                undo = (val, i, old)
        if undo is None:
            continue
        text = ast.unparse(ast.fix_missing_locations(tree))
        if isinstance(undo[0], list):
            undo[0][undo[1]] = undo[2]
        else:
            setattr(undo[0], undo[1], undo[2])
        text = "def GUARDED_WHEN(condition):\n    try:\n        return bool(condition())\n    except (AttributeError, IndexError, ValueError, TypeError):\n        return False\n\n" + (HISTORY if os.environ.get("HIST") else "") + text
        out.append(dict(file=path, function=fname, desc=desc, guard=g, text=text))
    assert ast.unparse(base) == ast.unparse(ast.parse(src))
    return out


def place(m):
    work = tempfile.mkdtemp(prefix="guarded.")
    repo = os.path.join(work, "repo")
    shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs"))
    open(os.path.join(repo, m["file"]), "w").write(m["text"])
    return work, repo


def survives(m):
    work, repo = place(m)
    try:
        p = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=repo, capture_output=True, text=True, timeout=60, env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1"))
        return p.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        shutil.rmtree(work)


OWN = [("altitude_plus", "C07"), ("speed_altitude_altitude", "C07"), ("assign_speed_vfr", "C05 C06"), ("assign_speed_altitude", "C04 C05"), ("assign_speed", "C05"), ("assign_altitude", "C04"), ("azimuth", "C10"), ("bearing_distance", "C08"), ("assign_l", "C08"),
       ("resolve_real", "C09"), ("break_end_error", "C15"), ("break", "C12"), ("v_to_i", "C12"), ("carry", "C06"), ("cruise", "C07"), ("stay", "C11"), ("sid", "C25"), ("star", "C25"), ("parse_f15", "C13"), ("add_error", "C19"), ("re_sync", "C16"), ("syntax_desc", "C03")]


def one(m):
    work, repo = place(m)
    hits, own, t = [], [], time.time()
    try:
        ver = os.path.join(work, "verif")
        shutil.copytree(V, ver, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "__pycache__"))
        own = next((o for k, o in (OWN if m["file"] == P else OTHER[m["file"]]) if k in m["function"]), "").split()
        if m["file"] != P:
            for p in own:
                try:
                    r = subprocess.run(["python3-vt", "run.py", p, "quick"], cwd=ver, env=dict(os.environ, F15_REPO=repo, VERIF_WORKERS="1", VERIF_TIER="quick"), capture_output=True, text=True, timeout=900)
                    hits += [p] if r.returncode == 1 and "VIOLATION" in r.stdout else ["%s?rc%d" % (p, r.returncode)] if r.returncode else []
                except subprocess.TimeoutExpired:
                    hits.append(p + "?timeout")
                if hits:
                    break
            return dict({k: v for k, v in m.items() if k != "text"}, own=own, hits=hits, differs="", sec=round(time.time() - t))
        r = subprocess.run(["python3-vt", os.path.join(V, "tools", "guarded.py"), "fuzz", os.environ.get("FUZZ", "30")], env=dict(os.environ, F15_REPO=repo), capture_output=True, text=True, timeout=900)
        differs = (r.stdout + r.stderr[-300:]).strip()
        if '"found": []' in differs:
            return dict({k: v for k, v in m.items() if k != "text"}, own=own, hits=["same"], differs=differs, sec=round(time.time() - t))
        own = ["C20"] if "HISTORY(" in m["guard"] else own
        for p in own + [x for x in (("C18",) if os.environ.get("FAST") else ("C18", "C14", "C15", "C16", "C17", "C06", "C12")) if x not in own]:
            try:
                r = subprocess.run(["python3-vt", "run.py", p, "quick"], cwd=ver, env=dict(os.environ, F15_REPO=repo, VERIF_WORKERS="1", VERIF_TIER="quick"), capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                hits.append(p + "?timeout")
                continue
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                hits.append(p)
                if p not in own or p == own[-1] or os.environ.get("FAST"):
                    break
            elif r.returncode:
                hits.append("%s?rc%d" % (p, r.returncode))
        return dict({k: v for k, v in m.items() if k != "text"}, own=own, hits=hits, differs=differs, sec=round(time.time() - t))
    finally:
        shutil.rmtree(work)


def fuzz(seconds):
    """Fields on which F15_REPO and /repo give different results: a generator independent of the checks'."""
    sys.path.insert(0, V)
    import importlib.util
    from lib import gen, sut
    rnd = random.Random(7)
    mut, orig = sut.ParseF15, None
    spec = importlib.util.spec_from_file_location("orig_parse", os.path.join("/repo", P))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    orig = mod.ParseF15
    pool = gen.REPS + gen.KEYWORDS + gen.STAYS + gen.ROUTES + gen.SIDSTARS + ["50N020W", "5010S02030W", "70S170E", "ABC", "DEF", "/", "/", "N0450F350", "M082F360", "K0830S1130", "N0450VFR", "STAY1", "0130", "VFR", "IFR", "OAT", "GAT", "C", "N0450F350F370", "M082F350PLUS", "DCT", "UL9"]
    t, n, found = time.time(), 0, []
    while time.time() - t < seconds and len(found) < 3:
        toks = [rnd.choice(["N0450F350", "M082F360", "K0830M0840", "N0150VFR", "N0450F351"])] if rnd.random() < .9 else []
        r = rnd.random()
        for _ in range(rnd.choice([60, 120, 400] if os.environ.get("LONG") else [3, 6, 10, 20, 40])):
            k = rnd.random()
            if k < .45 * (r + .5):
                toks += [rnd.choice(["ABC", "DEF", "50N020W", "5010S02030W", "70S170E", "KONAN", "50N020W090050", "AB", "80N010E", "C"])] + rnd.choice([[], ["DCT"], ["UL9"], ["/", "N0450F350"], ["/", "M082F390"], ["/", "K0830S1130"], ["STAY1", "/", "0130"], ["/", "N0450VFR"], ["VFR", "X"], ["OAT", "Y"], ["IFPSTOP"], ["C", "/", "DEF", "/", "N0450F350F390"], ["C", "/", "50N020W", "/", "M082F350PLUS"]])
            elif k < .6:
                toks += rnd.choice([["IFR", "ABC", "/", "N0450F350"], ["GAT", "ABC"], ["IFPSTART", "50N020W"], ["IFR", "ABC"], ["IFR", "ABC", "/", "N0450VFR"]])
            else:
                toks += [rnd.choice(pool)]
        f = " ".join(toks)
        n += 1
        res = []
        for cls in (orig, mut):
            res.append(run_one(sut, cls, f))
        if res[0] != res[1]:
            found.append(f)
    print(json.dumps(dict(n=n, found=sorted(found, key=len)[:2])))


def run_one(sut, cls, f):
    try:
        tokens = sut.tokenize(f)
        ers = sut.ExtractedRouteSequence()
        ok = cls().parse_f15(ers, tokens)
        return repr(sut.snapshot(ers, ok, None, f).plain())
    except Exception as x:
        return "%s" % type(x).__name__


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "gen":
        ms = mutants(int(a[1]), int(a[2])) if len(a) < 5 else [m for f in OTHER for m in mutants(int(a[1]), int(a[2]), f)]
        with ThreadPoolExecutor(8) as ex:
            keep = [m for m, s in zip(ms, ex.map(survives, ms)) if s]
        json.dump(keep, open(a[3], "w"))
        print(len(ms), "mutants,", len(keep), "survive the tests")
    elif a[0] == "fuzz":
        fuzz(float(a[1]))
    else:
        ms, res = json.load(open(a[1])), []
        with ThreadPoolExecutor(int(os.environ.get("J", 8))) as ex:
            for r in ex.map(one, ms):
                res.append(r)
                json.dump(res, open(a[2], "w"))
                if not r["hits"] or r["own"] and r["hits"] != ["same"] and not any(h in r["own"] for h in r["hits"]):
                    print("%s | when %s | own %s hits %s | %s (%d s)" % (r["desc"], r["guard"], r["own"], r["hits"], r["differs"], r["sec"]), flush=True)
        print("done", len(res), "no hit", sum(not r["hits"] for r in res), "same", sum(r["hits"] == ["same"] for r in res))
