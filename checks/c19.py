"""C19: error records carry the offending element and a complete message."""
from hypothesis import strategies as st
from lib import compare as c, gen, refmodel as m, spaces, sut
from lib.fieldcheck import any_separators, cases, insert_one, shrink as shrink_field, strategy_of

PID = "C19"
RULE = ("A case is a field. Enumerated: the shared small-scope space, every context with 60 unrecognised and over-long texts (among them ones with '!', '%', braces and backslashes). Generated: mutated and arbitrary fields. Every error must be one element (text, position, types) "
        "with a documented message whose placeholders are replaced by exactly that text; order and number are compared with the reference model; all other attributes must be unset. Non-trivial: an error is recorded.")
EXAMPLES = {"quick": 10000, "thorough": 200000}
UNSET = dict(altitude="", altitude_si=0, speed="", speed_si=0, rules="", stay=0, break_text="", cruise_to="", cruise_to_si=0, lat=0, lon=0, bearing=0, distance=0, valid=False)
BASES, SUBS = list(sut.TokenBaseType), list(sut.TokenSubType)
ODD = ["!", "!!", "A!B!C", "{0}", "%s", "\\1", "\\g<0>", "{}", "'!'", "$", "%%", "!" * 30, "A!" * 15, "\u00e9", "<!>", "&", "\u0663", "\x00", "A\x0bB", "\u2028", "\U0001f600", "''"]


def enum(tier):
    yield from cases(["", " ", "\t\r\n "])
    yield from cases(spaces.small_scope(tier))
    for x in spaces.CONTEXTS:
        for t in ODD + gen.UNKNOWN + gen.TOO_LONG:
            yield {"field": " ".join(x + [t, "DEF"])}
    for l in range(0, 1000):
        yield {"field": "N0450F%03d ABC/M080F%03d DEF C/GHI/N0400F%03dF%03d" % (l, (l + 1) % 1000, (l + 2) % 1000, (l + 3) % 1000)}
    for msg in list(m.MESSAGES.values()) + ["", "!", "!!", "a ! b ! c"]:
        for t in ["ABC", "A!B", "!", "", "/", "%s", "\\1", "X" * 40]:
            yield {"add": [[t, msg, 3, 1, 1]]}
            yield {"add": [["B9", msg, 0, 2, 3], [t, msg, 7, 1, 1], [t, msg, 7, 1, 1], ["ABC", msg, 3, 1, 2]]}


def strategy(tier):
    odd = st.one_of(gen.unknown, gen.too_long, st.sampled_from(ODD), gen.any_token).map(lambda t: [t])
    fields = any_separators(strategy_of(gen.mutated_route(max_edits=5), gen.soup(), gen.core_soup(), insert_one(gen.rare_long(), odd), gen.valid_route(points=gen.coord_any)))
    message = st.one_of(st.sampled_from(sorted(m.MESSAGES.values())), st.text("!aB '/", max_size=12))
    text = st.one_of(odd.map(lambda t: t[0]), gen.any_token, st.text(max_size=8), st.sampled_from(["/", "/X", "//", "X/Y", " ", "A B"]))
    add = st.lists(st.tuples(text, message, st.integers(0, 500), st.integers(0, len(BASES) - 1), st.integers(0, len(SUBS) - 1)).map(list), min_size=1, max_size=6).map(lambda l: {"add": l})
    return st.integers(0, 11).flatmap(lambda k: add if k == 11 else fields)


def added(case):
    """Errors recorded directly on a sequence."""
    ers, want = sut.ExtractedRouteSequence(), []
    for text, message, start, b, u in case["add"]:
        sut.guard(ers.add_error, text, start, start + len(text), BASES[b], SUBS[u], message, what="add_error")
        want.append((text, start, start + len(text), sut.base_name(BASES[b]), sut.sub_name(SUBS[u]), message.replace("!", text)))
        r = sut.snapshot(ers, False)
        got = [(x["name"], x["start"], x["end"], x["base"], x["sub"], x["error_text"]) for x in r.errors]
        if got != want or r.n_errors != len(want):
            raise sut.Violation("after adding %r: %r errors %r instead of %r" % (case["add"], r.n_errors, got, want))
        for x in r.errors:
            d = c.diff_fields(x, UNSET, UNSET)
            if d:
                raise sut.Violation("error record: " + d)
    return {"!", "added directly"}


def check(case):
    if "add" in case:
        return added(case)
    f = case["field"]
    r, e = c.both(f, case.get("ws", c.WS))
    labels = {"other separators"} if "ws" in case else set()
    spans = {(t.name, t.start, t.end): t for t in e.toks}
    for x in r.errors:
        labels |= {"!", "E%s" % c.message_num(x)}
        if not e.toks:
            if x["error_text"] != m.MESSAGES[41]:
                c.show(f, "the error for an empty field is %r" % x["error_text"])
            if (x["base"], x["sub"]) != ("UNKNOWN", "UNKNOWN"):
                c.show(f, "the error for an empty field has the types %s/%s" % (x["base"], x["sub"]))
        else:
            t = spans.get(c.key(x))
            if t is None:
                c.show(f, "the error %r is on %s, which is not an element" % (x["error_text"], c.brief(x)))
            if (x["base"], x["sub"]) != (t.base, t.sub):
                c.show(f, "the error on %s has the types %s/%s instead of %s/%s" % (c.brief(x), x["base"], x["sub"], t.base, t.sub))
        if c.message_num(x) is None:
            c.show(f, "the error text %r on %s is not a documented message" % (x["error_text"], c.brief(x)))
        d = c.diff_fields(x, UNSET, UNSET)
        if d:
            c.show(f, "error record: " + d)
    if r.n_errors != len(r.errors):
        c.show(f, "%r errors counted, %d listed" % (r.n_errors, len(r.errors)))
    got, want = c.errs(r.errors), c.errs(e.errors)
    if got != want:
        c.show(f, "errors %r instead of %r" % (got, want))
    return labels


def shrink(case):
    return shrink_field(case) if "field" in case else ({"add": case["add"][:i] + case["add"][i + 1:]} for i in range(len(case["add"])) if len(case["add"]) > 1)
