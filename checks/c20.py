"""C20: parsing is deterministic, isolated and re-entrant."""
import collections, copy, sys, threading
from hypothesis import strategies as st
from lib import compare as c, dictionary, gen, pristine, spaces, sut
from lib.sut import Violation

PID = "C20"
RULE = ("A case is a set of fields and a history. History kinds: a sequence of tokenize, build a token list by hand, parse, re-parse and re-use operations on shared tokenizers, a shared parser and re-initialised sequences; a nesting, where parses of other fields "
        "run completely at chosen lines of the code while one parse is under way (a deterministic interleaving, with the same parser); and real threads. The fields of a history are drawn independently or are small edits of one another (enumerated for every element type: extended, shortened, re-cased, digits changed); enumerated: one parser, tokenizer, sequence or token list used 150 to 300 times, and every constant of the code under test, in turn. Every result is compared with the same field's result in a process that never parsed "
        "anything else, and all earlier results and tokens are compared again at the end. Non-trivial: at least two parses.")
EXAMPLES = {"quick": 4000, "thorough": 60000}
PROBES = ["N0450F350 ABC B9 DEF", "", "N0100VFR TXT IFR ABC/N0450F350 DEF", "N0450F350 00N001E DCT 01N001E C/02N002E/N0450F310F350 %% STAY1/0130 XYZ", "N0450F351 91N001E B9 00N001E", "%% " + "X" * 30, "M082F350 ABC M082F350",
          "N0450F350 ABC VFR FREE TEXT IFR DEF", "N0450F350 ABC1A B9 DEF ABC1A", "K0800S1100 01N002E090050 02N003E", "M082F000 ABC/M082F410 DEF"]
_kept = collections.deque(maxlen=6)


def one(field):
    """Pristine result; runs in a fresh process."""
    r = sut.parse(field)
    return r.plain(), r.tokens


def expected(field):
    pristine.start(one)
    kind, x = pristine.ask(field)
    if kind == "error":
        raise Violation("parsing %r in a fresh process: %s" % (field, x))
    return x


def same(a, b):
    """Equal, where NaN equals NaN."""
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or a != a and b != b


def compare(r, field, how):
    want = expected(field)
    if not same(r.plain(), want[0]):
        for k in ("ok", "derived", "records", "errors"):
            if not same(r.plain()[k], want[0][k]):
                x, y = r.plain()[k], want[0][k]
                if isinstance(x, list) and len(x) == len(y):
                    i = [same(p, q) for p, q in zip(x, y)].index(False)
                    d = [f for f in x[i] if not same(x[i][f], y[i][f])]
                    raise Violation("%s, field %r: %s %d has %s %r instead of %r" % (how, field, k[:-1], i, d[0], x[i][d[0]], y[i][d[0]]))
                raise Violation("%s, field %r: %s is %r instead of %r" % (how, field, k, x if not isinstance(x, list) else c.names(x), y if not isinstance(y, list) else c.names(y)))
    if r.tokens is not None and r.tokens != want[1]:
        raise Violation("%s, field %r: tokens %r instead of %r" % (how, field, r.tokens, want[1]))


field = st.one_of(st.sampled_from(PROBES), gen.field(), gen.field(), st.lists(st.sampled_from(gen.REPS), max_size=8).map(lambda l: "N0450F350 " + " ".join(l)), gen.raw_text)
ix = st.integers(0, 3)
op = st.one_of(st.tuples(st.just("tok"), ix, st.integers(0, 1)), st.tuples(st.just("parse"), ix, st.integers(0, 1)), st.tuples(st.just("parse"), ix, st.integers(0, 1)), st.tuples(st.just("reinit"), ix, st.integers(0, 1)), st.tuples(st.just("full"), ix, st.integers(0, 1)),
               st.tuples(st.just("built"), ix, st.integers(0, 5)), st.tuples(st.just("out"), ix, st.integers(0, 3)))


def strategy(tier):
    fields = st.lists(field, min_size=2, max_size=4)
    seq = st.tuples(fields, st.lists(op, min_size=2, max_size=12)).map(lambda x: {"fields": x[0], "ops": [["tok", 0, 0]] + [list(o) for o in x[1]]})
    nest = st.tuples(fields, st.lists(st.tuples(st.integers(0, 10000), ix), min_size=1, max_size=4)).map(lambda x: {"fields": x[0], "nest": [list(p) for p in x[1]]})
    thr = fields.map(lambda f: {"fields": f, "threads": 4})
    near = st.tuples(field, st.lists(st.tuples(st.integers(0, 1000), st.integers(0, 11)), min_size=1, max_size=5), st.lists(op, min_size=2, max_size=10)).map(
        lambda x: {"fields": [x[0]] + [edited(x[0], i, k) for i, k in x[1]], "ops": [["full", i, 0] for i in range(len(x[1]) + 1)] + [list(o) for o in x[2]]})
    return st.integers(0, 19).flatmap(lambda k: thr if k == 19 else nest if k > 13 else near if k > 7 else seq)


def edited(f, i, k):
    """A field that shares most of its text with f."""
    n = max(1, len(f))
    i %= n
    toks = f.split(" ")
    j = i % len(toks)
    return [f + "X", f + " ABC", f[:i] + "A" + f[i:], f[:i] + "7" + f[i:], f[:i] + f[i + 1:], f[:i] + "B" + f[i + 1:], f[:i] + "3" + f[i + 1:], f[:i].lower() + f[i:],
            " ".join(toks[:j] + toks[j:j + 1] + toks[j:]), " ".join(toks[:j] + toks[j + 1:]), " ".join(toks[:j][::-1] + toks[j:]), f[:i]][k]


def kin(t):
    """Texts close to t: a memory keyed on part of a text confuses them."""
    out = []
    for x in (t + "X", t + "0", t + t[-1], t[:-1], t[1:], t.lower(), t[:-1] + "Z", t[:-1] + "7", "1" + t[1:], "N" + t[1:], "A" + t, t[::-1], "".join(sorted(t)), t.translate({48 + i: 48 + (i + 1) % 10 for i in range(10)}), t[:1] + t, t + "\u0663", t + "A" * 24):
        if x and x != t and x not in out:
            out.append(x)
    return out


def enum(tier):
    for t in sorted(set(gen.REPS + gen.KEYWORDS + gen.STAYS + gen.ROUTES + gen.SIDSTARS)):
        k = kin(t)
        for h in ("N0450F350 ABC ", "N0450F350 ABC C/DEF/", ""):
            fs = [h + x + " DEF" for x in [t] + k]
            yield {"fields": fs, "ops": [["full", i, 0] for i in range(len(fs))] + [["full", 0, 0]]}
            yield {"fields": fs, "ops": [["full", i, 0] for i in reversed(range(len(fs)))]}
    ws = [w for w in dictionary.words() if w.isalnum() and len(w) < 26 or len(w) == 1]
    for i, t in enumerate(ws):
        fs = ["N0450F350 ABC %s DEF" % x for x in (t, ws[i - 1], ws[i - 7], t, t.lower(), t[:-1] or "X", t + "A")] + ["N0450F350 %s VFR %s IFR %s" % (t, ws[i - 2], t), t]
        yield {"fields": fs, "ops": [["full", j, 0] for j in range(len(fs))] + [["full", j, 0] for j in reversed(range(len(fs)))]}
    for f in PROBES:
        if f:
            for i in range(0, len(f), 3 if tier == "quick" else 1):
                fs = [f] + [edited(f, i, k) for k in range(12)]
                yield {"fields": fs, "ops": [["full", j, 0] for j in range(len(fs))]}
                yield {"fields": fs, "ops": [["full", j, 0] for j in reversed(range(len(fs)))]}
    n = len(PROBES)
    for k in range(n):
        # one parser and one tokenizer used hundreds of times; one sequence filled again and again; one token list parsed again and again
        yield {"fields": PROBES, "ops": [["full", (k + i * (1 + k % 3)) % n, 0] for i in range(300)]}
        yield {"fields": PROBES, "ops": [["full", k, 0]] + [["reinit", (k + i) % n, 0] for i in range(150)]}
        yield {"fields": PROBES, "ops": [["full", k, 0]] + [["parse", k, i % 2] for i in range(150)] + [["full", (k + 1) % n, 0]]}
        yield {"fields": [PROBES[k]] + ["N%04dF%03d P%s ABC/N0%dF%03d UL%d C%s" % (i, i % 200 * 5, chr(65 + i % 26), 100 + i, i % 100 * 5, i % 999, "ABCDE"[i % 5]) for i in range(150)], "ops": [["full", i * k % 151, 0] for i in range(1, 151)] + [["full", 0, 0]]}
        yield {"fields": PROBES, "ops": [["built", (k + i) % n, i % 6] for i in range(n * 6)]}
        yield {"fields": [PROBES[k]], "ops": [x for i in range(6) for x in (["built", 0, i], ["parse", 0, 0], ["reinit", 0, 0], ["full", 0, 0], ["built", 0, i])]}
    # every kind of field, with dozens of others before each
    sample = [f for i, f in enumerate(spaces.composed(tier)) if i % (37 if tier == "quick" else 5) == 0 and len(f) < 900]
    for s in range(0, len(sample), 40):
        fs = sample[s:s + 40]
        yield {"fields": fs, "ops": [["full", i, 0] for i in range(len(fs))] + [["full", i, 1] for i in range(len(fs)) if i % 4 == 0]}
    for a in PROBES:
        for b in PROBES:
            yield {"fields": [a, b], "ops": [["full", 0, 0], ["full", 1, 0], ["full", 0, 0], ["parse", 0, 0], ["reinit", 1, 0], ["parse", 1, 1]]}
            yield {"fields": [a, b], "ops": [["tok", 0, 0], ["tok", 1, 0], ["parse", 1, 0], ["parse", 0, 0], ["parse", 0, 0]]}
            for k in range(0, 10001, 400 if tier == "quick" else 50):
                yield {"fields": [a, b], "nest": [[k, 1]]}
            yield {"fields": [a, b], "threads": 8}


def shrink(case):
    for k in ("ops", "nest"):
        for i in range(len(case.get(k, ()))):
            if len(case[k]) > 1:
                yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})


def built(source, k):
    """The tokens of source put into a list by hand, in one of six ways; the cursor is left anywhere."""
    ts, items = sut.Tokens(), [(t.get_token_string(), t.get_token_start_index(), t.get_token_end_index()) for t in source.get_tokens()]
    if k == 0:
        for x in items:
            ts.create_append_token(*x)
    elif k == 1:
        for x in reversed(items):
            ts.insert_token(sut.Token(*x), 0)
    elif k == 2:
        for x in items[1::2]:
            ts.append_token(sut.Token(*x))
        for i in range(0, len(items), 2):
            ts.insert_token(sut.Token(*items[i]), i)
    elif k == 3:
        for x in items + [("/", 0, 1), ("VFR", 1, 4), ("N0450F351", 4, 13)]:
            ts.create_append_token(*x)
        ts.remove_tokens_from_end_of_list(len(items) - 1)
    elif k == 4:
        for t in source.get_tokens():
            ts.append_token(t)
        ts.get_last_token()
        ts.get_next_token()
    else:
        ts = copy.deepcopy(source)
        ts.get_last_token()
    for _ in range(k * 2):
        ts.get_next_token()
    return ts


def fresh_tokens(tk, f):
    tk.set_whitespace(sut.WS)
    tk.set_string_to_tokenize(f)
    tk.tokenize()
    return tk.get_tokens()


def check(case):
    pristine.start(one)
    fields, labels = case["fields"], set()
    n = len(fields)
    results = []                     # (ers, ok, snapshot, field)
    if "ops" in case:
        tks = [sut.Tokenize(), sut.Tokenize()]
        parsers = [sut.ParseF15(), sut.ParseF15()]
        lists, texts, sequences = {}, [], []
        parses = 0

        def tok(i, k):
            t = sut.guard(fresh_tokens, tks[k], fields[i], what="tokenizing %r" % fields[i])
            lists[i] = t
            texts.append((t, [(x["name"], x["start"], x["end"]) for x in sut.snap_tokens(t)], fields[i]))
        for o, i, k in case["ops"]:
            i %= n
            if o == "out" and results:
                e = results[k % len(results)][0]
                sut.guard(e.as_xml, what="as_xml")
                [str(x.to_string(False)) for x in e.get_all_elements()]
            if o == "tok" or o in ("parse", "reinit", "full") and i not in lists or o == "full":
                tok(i, k % 2)
            if o == "built":
                if i not in lists:
                    tok(i, k % 2)
                lists[i] = sut.guard(built, lists[i], k, what="building the tokens of %r" % fields[i])
            if o in ("parse", "reinit", "full", "built"):
                if o == "reinit" and sequences:
                    e = sequences[-1]
                    results = [x for x in results if x[0] is not e]
                    e.__init__()
                    labels.add("re-initialised sequence")
                else:
                    e = sut.ExtractedRouteSequence()
                    sequences.append(e)
                ok = sut.guard(parsers[k % 2].parse_f15, e, lists[i], what="parsing %r" % fields[i])
                r = sut.snapshot(e, ok, lists[i], fields[i])
                compare(r, fields[i], "after %d other parses" % parses)
                parses += 1
                results.append((e, ok, r, fields[i]))
                labels.add(o)
        for t, snap, f in texts:
            if [(x["name"], x["start"], x["end"]) for x in sut.snap_tokens(t)] != snap:
                raise Violation("the tokens of %r changed to %r" % (f, [x["name"] for x in sut.snap_tokens(t)]))
        if parses > 1:
            labels.add("!")
        labels.add("parses:%d" % min(parses, 6))
    elif "nest" in case:
        f0 = fields[0]
        parser = sut.ParseF15()
        total = count_lines(lambda: full(parser, f0))
        at = sorted((k * total // 10001, fields[i % n]) for k, i in case["nest"])
        inner = []

        def go():
            inner.append(full(parser, at[len(inner)][1]))
        outer = run_with_stops(lambda: full(parser, f0), [k for k, _ in at], go)
        compare(outer, f0, "with other parses during it")
        for r, (k, f) in zip(inner, at):
            compare(r, f, "during the parse of %r (line %d)" % (f0, k))
        results = [(r.ers, r.ok, r, r.field) for r in inner + [outer]]
        labels |= {"!", "nested:%d" % len(inner)}
    else:
        out, parser = {}, sut.ParseF15()
        barrier = threading.Barrier(case["threads"])

        def work(j):
            try:
                barrier.wait(30)
                for rep in range(3):
                    out[j, rep] = full(parser, fields[(j + rep) % n])
            except BaseException as x:
                out[j, "x"] = x
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ts = [threading.Thread(target=work, args=(j,)) for j in range(case["threads"])]
            [t.start() for t in ts]
            [t.join() for t in ts]
        finally:
            sys.setswitchinterval(old)
        for key in sorted(out, key=str):
            x = out[key]
            if isinstance(x, BaseException):
                raise x if isinstance(x, Violation) else Violation("in a thread: %s: %s" % (type(x).__name__, x))
            compare(x, x.field, "in one of %d threads" % case["threads"])
        labels |= {"!", "threads"}
    for e, ok, r, f in results + list(_kept):
        again = sut.snapshot(e, ok)
        if not same(again.plain(), r.plain()):
            raise Violation("the earlier result of %r changed to %r, errors %r" % (f, c.names(again.records), c.names(again.errors)))
    if results:
        _kept.append(results[-1])
    return labels


def full(parser, f):
    tokens = sut.tokenize(f) if threading.current_thread() is not threading.main_thread() else fresh_tokens(sut.Tokenize(), f)
    e = sut.ExtractedRouteSequence()
    ok = parser.parse_f15(e, tokens)
    return sut.snapshot(e, ok, tokens, f)


def traced(fn, on_line):
    def tr(frame, event, arg):
        if not frame.f_code.co_filename.startswith(sut.REPO):
            return None
        if event == "line":
            on_line()
        return tr
    old = sys.gettrace()
    sys.settrace(tr)
    try:
        return fn()
    except Violation:
        raise
    except Exception as x:
        raise Violation("%s: %s" % (type(x).__name__, x)) from None
    finally:
        sys.settrace(old)


def count_lines(fn):
    n = [0]

    def line():
        n[0] += 1
    traced(fn, line)
    return n[0]


def run_with_stops(fn, stops, go):
    """Run fn; when the n-th line of the code under test is about to run, run go() completely."""
    n, bad = [0], []
    todo = list(stops)

    def line():
        while todo and n[0] >= todo[0]:
            todo.pop(0)
            try:
                go()
            except BaseException as x:
                bad.append(x)
        n[0] += 1
    r = traced(fn, line)
    for x in bad:
        raise x if isinstance(x, Violation) else Violation("in a nested parse: %s: %s" % (type(x).__name__, x))
    while todo:
        todo.pop(0)
        go()
    return r
