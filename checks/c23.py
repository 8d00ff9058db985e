"""C23: the console printouts are complete and faithful."""
import contextlib, io, os, re, runpy, subprocess, sys
import itertools
from hypothesis import strategies as st
from checks import c22
from lib import compare as c, dictionary, gen, refmodel as m, spaces, sut
from lib.sut import Violation

PID = "C23"
RULE = ("A case is a field, a sequence of records built through the setters, the syntax table or the example program. Standard output of print_ers, print_record, print_tokens, print_token, print_descriptions and main.py is captured and taken apart line by line: counts, "
        "one line per record and error in order, and on each line the values the getters return, in order (layout and headings are not judged, except that values are told apart). Enumerated: every context with every element type, and 40 odd texts; every element type repeated up to 98 times, results of 300 records; every constant of the code under test as element, text and value. "
        "Non-trivial: a break text, an error, coordinates or a cruise climb is printed.")
EXAMPLES = {"quick": 5000, "thorough": 80000}


def enum(tier):
    yield {"table": 1}
    yield {"main": "runpy"}
    yield {"main": "process"}
    yield {"field": ""}
    for f in spaces.repeated(tier):
        yield {"field": f}
    for i, f in enumerate(itertools.chain(dictionary.fields(tier), spaces.mixtures(tier), spaces.varied(tier), spaces.odd(tier))):
        if tier == "thorough" or i % 2 or i < 9000:
            yield {"field": f}
    yield from c22.pairwise()
    for i, t in enumerate(dictionary.texts()):
        yield {"records": [dict(c22.FULL, name=t, start=1, end=2, text=t, stay=i % 1440, error=e) for e in (False, True)]}
    for n in dictionary.numbers(20000):
        yield {"records": [dict(c22.FULL, name="ABC", start=n, end=n + 1, text="", stay=n % 1440, error=e, **{k: n * q for k in c22.NUM}) for e in (False, True) for q in (1, -1, 0.01)]}
    for n in (30, 300):
        for a in c22.ODD[:8]:
            yield {"records": [dict(c22.FULL, name="%s%d" % (a, i), start=i, end=i + 3, text=a * (i % 7), stay=i % 1440, error=i % 3 == 0) for i in range(n)]}
    for x in spaces.CONTEXTS:
        for t in gen.REPS + gen.KEYWORDS + c22.ODD:
            yield {"field": " ".join(x + [t, "DEF", t])}
    for a in c22.ODD:
        yield {"field": "N0450F350 00N001E DCT 45S179W C/01N001E/K0800S1100A050 ABC STAY1/2359 DEF VFR %s %s IFR DEF/N0400F300 %s" % (a, a, a)}
    if tier == "thorough":
        for f in spaces.pairs(gen.REPS_CORE, spaces.CONTEXTS, length=2):
            yield {"field": f}


def strategy(tier):
    fields = st.one_of(gen.laid_out(gen.rare_long()), gen.laid_out(c22.odd_route()), gen.field(), gen.raw_text)
    return st.one_of(fields.map(lambda f: {"field": f}), fields.map(lambda f: {"field": f}), st.lists(c22.rec, max_size=4).map(lambda l: {"records": l}))


def shrink(case):
    if "field" in case:
        yield from c.shrink_field(case)


def printed(fn, *args, what):
    buf = io.StringIO(newline="")
    with contextlib.redirect_stdout(buf):
        sut.guard(fn, *args, what=what)
    return buf.getvalue()


def lines_of(text, what):
    if text and not text.endswith("\n"):
        raise Violation("%s: the output does not end with a newline" % what)
    return text.split("\n")[:-1]


def number(x):
    return "%.2f" % x


WIDTHS = [17, 6, 6, 5, 5, 6, 6, 6, 6, 7, 11, 6, 5, 7, 7, 7, 8]


def one_of(line, values, text, what):
    """line shows values, in order, told apart, and then text verbatim."""
    shown = [str(v) for v in values]
    bits = [""]
    for i, v in enumerate(shown):
        if v == "":
            continue
        tight = len(v) >= WIDTHS[i]                # a value that fills its column may touch the one before
        bits.append((r"\s*" if tight or len(bits) == 1 else r"\s+") + re.escape(v).replace("\\ ", " "))
    if text != "":
        bits.append(r"\s+" + re.escape(text))
    if not re.fullmatch("".join(bits) + r"\s*", line, re.S):
        raise Violation("%s: the line %r does not show %r" % (what, line, [v for v in shown if v] + [text]))


def record_values(r):
    return [r["name"], r["start"], r["end"], r["_base"], r["_sub"], r["speed"], r["speed_si"], r["altitude"], r["altitude_si"], number(r["bearing"]), number(r["distance"]), r["rules"], r["stay"], r["cruise_to"], r["cruise_to_si"], number(r["lat"]), number(r["lon"])]


def full(o):
    d = sut.snap_record(o)
    d["_base"], d["_sub"] = "%d" % o.get_base_type(), "%d" % o.get_sub_type()
    return d


def judge_ers(text, ers, what):
    """text is the printout of ers."""
    recs, errors = [full(x) for x in ers.get_all_elements()], [full(x) for x in ers.get_all_errors()]
    ls = [x for x in lines_of(text, what) if x.strip()]
    head = 1 + 2
    want = head + len(recs) + (head + len(errors) if errors else 1)
    if len(ls) != want:
        raise Violation("%s: %d lines printed instead of %d" % (what, len(ls), want))
    for line, n, w in ((ls[0], len(recs), "Records"), (ls[head + len(recs)], len(errors), "Errors")):
        if re.findall(r"\d+", line) != [str(n)] or w not in line:
            raise Violation("%s: %r for %d %s" % (what, line, n, w.lower()))
    for line, r in zip(ls[head:], recs):
        one_of(line, record_values(r), r["break_text"], what)
    for line, r in zip(ls[len(ls) - len(errors):] if errors else [], errors):
        one_of(line, record_values(r), r["error_text"], what)
    for i in [1, 2] + ([head + len(recs) + 2] if errors else []):
        if not re.search("[A-Za-z]", ls[i]) or re.search(r"\d", ls[i]):
            raise Violation("%s: %r where a heading is due" % (what, ls[i]))
    if errors and "Error" not in ls[head + len(recs) + 2] or "Break" not in ls[2]:
        raise Violation("%s: the headings do not name the break or error text" % what)


def check(case):
    if "table" in case:
        return table()
    if "main" in case:
        return main_program(case["main"])
    if "field" in case:
        what = "field %r" % case["field"]
        r = sut.parse(case["field"])
        ers = r.ers
        out = printed(r.token_obj.print_tokens, what="print_tokens for " + what)
        ls = lines_of(out, what)
        toks = r.token_obj.get_tokens()
        if len(ls) != 3 + len(toks) or re.findall(r"\d+", ls[0]) != [str(len(toks))]:
            raise Violation("%s: print_tokens printed %d lines, the first %r, for %d tokens" % (what, len(ls), ls[:1], len(toks)))
        for line, t in zip(ls[3:], toks):
            vals = [t.get_token_string(), t.get_token_start_index(), t.get_token_end_index(), "%d" % t.get_token_base_type(), "%d" % t.get_token_sub_type()]
            one_of(line, vals, "", what + " token")
            if printed(t.print_token, what="print_token for " + what) != line + "\n":
                raise Violation("%s: print_token and print_tokens differ for %r" % (what, t.get_token_string()))
    else:
        what = "records %r" % case["records"]
        ers = sut.guard(c22.build, case["records"], what="building " + what)
    before = [full(x) for x in ers.get_all_elements()], [full(x) for x in ers.get_all_errors()]
    out = printed(ers.print_ers, what="print_ers for " + what)
    if not out.startswith("Total") or "\r" in out and "field" in case:
        raise Violation("%s: print_ers starts with %r" % (what, out[:40]))
    if any("\n" in x["name"] + x["break_text"] + x["error_text"] for x in before[0] + before[1]):
        return {"text with line breaks"}
    judge_ers(out, ers, "print_ers for " + what)
    for objs, err in ((ers.get_all_elements(), False), (ers.get_all_errors(), True)):
        for o in objs:
            for e in (False, True):
                line = sut.guard(o.to_string, e, what="to_string for " + what)
                one_of(line, record_values(full(o)), o.get_error_text() if e else o.get_break_text(), what)
            if printed(o.print_record, err, what="print_record for " + what).rstrip("\n") != o.to_string(err):
                raise Violation("%s: print_record does not print to_string" % what)
    if before != ([full(x) for x in ers.get_all_elements()], [full(x) for x in ers.get_all_errors()]) and not has_nan(before):
        raise Violation("%s: printing changed the result" % what)
    labels = {"records" if "records" in case else "field"}
    for x in before[0] + before[1]:
        for k in ("break_text", "error_text", "valid", "cruise_to", "stay"):
            if x[k]:
                labels |= {"!", "shows " + {"valid": "coordinates"}.get(k, k)}
    return labels


def has_nan(before):
    return any(v != v for x in before[0] + before[1] for v in x.values())


def table():
    d = sut.F15TokenSyntaxDefinition() if callable(sut.F15TokenSyntaxDefinition) else sut.F15TokenSyntaxDefinition
    out = lines_of(printed(d.print_descriptions, what="print_descriptions"), "print_descriptions")
    try:
        items = [(x[d.TOKEN_REGEXP_IDX], int(x[d.TOKEN_BASE_IDENTIFIER_IDX]), int(x[d.TOKEN_SUBTYPE_IDENTIFIER_IDX])) for x in d.F15_SB_CONFIGURATION]
    except (AttributeError, KeyError, IndexError, TypeError, ValueError):
        return {"!", "syntax table"}             # kept in some other form: nothing to compare the printout with
    if not all(isinstance(x[0], str) for x in items):
        return {"!", "syntax table"}
    if len(out) != len(items):
        raise Violation("print_descriptions printed %d lines for %d entries" % (len(out), len(items)))
    for line, (rx, b, s) in zip(out, items):
        words = line.split()
        at = -1
        if rx not in line:
            raise Violation("print_descriptions: %r does not show %r" % (line, rx))
        rest = line.replace(rx, " ", 1)
        for v in (int(b), int(s)):
            at = [i for i, w in enumerate(rest.split()) if i > at and re.search(r"(?<!\d)%d$" % v, w)]
            if not at:
                raise Violation("print_descriptions: %r does not show type %d of %r" % (line, v, rx))
            at = at[0]
    return {"!", "syntax table"}


SAMPLE = "N0450M0825 00N000E B9 00N001E VFR IFR 00N001W/N0350F100 01N001W 01S001W 02S001W180060"


def main_program(how):
    path = os.path.join(sut.REPO, "main.py")
    names = {}
    if how == "runpy":
        buf = io.StringIO(newline="")
        cwd = os.getcwd()
        with contextlib.redirect_stdout(buf):
            names = sut.guard(runpy.run_path, path, None, "__main__", what="main.py")
        out = buf.getvalue()
        os.chdir(cwd)
    else:
        env = dict(os.environ, PYTHONPATH="/opt/venv/lib/python3.12/site-packages", PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8")
        p = subprocess.run([sys.executable, "-B", path], cwd=sut.REPO, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
        if p.returncode:
            raise Violation("main.py ends with status %d: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-300:]))
        out = p.stdout.decode("utf-8")
        with contextlib.redirect_stdout(io.StringIO()):
            names = sut.guard(runpy.run_path, path, None, "__main__", what="main.py")
    fields = [SAMPLE] + [v for v in names.values() if isinstance(v, str)]
    first = None
    for f in fields:
        try:
            r = sut.parse(f)
            judge_ers(out, r.ers, "main.py, sample field %r" % f)
            return {"!", "example program"}
        except Violation as x:
            first = first or x
    raise first
