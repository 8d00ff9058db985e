"""C12: break sections keep their free text and end only at their own terminator."""
import itertools
from hypothesis import strategies as st
from lib import compare as c, gen, spaces
from lib.fieldcheck import cases, insert_one, shrink, strategy_of

PID = "C12"
RULE = ("A case is a field. Enumerated: all sequences up to length 3 (thorough 4, 5) of 18 words inside each of the 5 kinds of break section, the shared contexts with pairs of all element types. Generated: fields with break sections "
        "of up to 40 words with every kind of element and near-terminator inside. Break text, absence of records and errors from inside a section, the record routing resumes at and incomplete rule changes are compared "
        "with the reference model. Non-trivial: a section with text.")
EXAMPLES = {"quick": 8000, "thorough": 150000}
START = ["N0450F350 ABC VFR", "N0450F350 ABC OAT", "N0450F350 ABC IFPSTOP", "N0450F350 ABC / N0100VFR", "N0100VFR"]
WORDS = ["IFR", "GAT", "IFPSTART", "VFR", "OAT", "IFPSTOP", "ABC", "00N001E", "/", "N0450F350", "N0100VFR", "B9", "%%", "DCT", "T", "STAY1", "C", "M080F310PLUS"]
W5 = ["IFR", "GAT", "ABC", "/", "N0450F350", "N0100VFR", "IFPSTART"]


def enum(tier):
    yield from cases(spaces.composed(tier, wide=True))
    for s in START:
        for k in range(0, 4 if tier == "quick" else 5):
            for p in itertools.product(WORDS, repeat=k):
                yield {"field": " ".join((s,) + p)}
        for p in itertools.product(gen.REPS, repeat=2):
            yield {"field": " ".join((s,) + p + ("XYZ IFR DEF / N0400F300 GHI",))}
            yield {"field": " ".join((s, "X") + p + ("GAT DEF B9 GHI",))}
        for p in itertools.product(W5, repeat=4 if tier == "quick" else 6):
            yield {"field": " ".join((s,) + p)}
        for w in gen.TOO_LONG + gen.UNKNOWN:
            yield {"field": "%s %s TXT %s IFR DEF/N0450F350" % (s, w, w)}
    yield from cases(spaces.pairs(gen.REPS_CORE, [x for x in spaces.CONTEXTS if "VFR" in x or "OAT" in x or "IFPSTOP" in x or "N0100VFR" in x], length=2))


@st.composite
def section(draw, word):
    kind = draw(st.sampled_from(["VFR", "OAT", "IFPSTOP", "SVFR"]))
    toks = ["/", draw(gen.speed_vfr)] if kind == "SVFR" else [kind]
    toks += draw(st.lists(word, max_size=draw(st.sampled_from([3, 8, 40]))))
    k = draw(st.integers(0, 5))
    if k:
        end = {"VFR": "IFR", "SVFR": "IFR", "OAT": "GAT", "IFPSTOP": "IFPSTART"}[kind] if k > 1 else draw(st.sampled_from(["IFR", "GAT", "IFPSTART"]))
        toks += [end, draw(gen.point_any)]
        if k < 5 and (end == "IFR" or k == 2):
            toks += ["/", draw(st.one_of(gen.speed_level, gen.speed_level, gen.speed_vfr, gen.climb))]
    return toks


def strategy(tier):
    word = st.one_of(gen.BREAKWORD, gen.any_token, gen.unknown, gen.too_long, st.sampled_from(["IFR", "GAT", "IFPSTART", "/", "IFR", "GAT"]))
    s = section(word)
    many = st.lists(s, min_size=1, max_size=4).map(lambda l: sum(l, ["N0450F350", "ABC"])[:100])
    return strategy_of(insert_one(gen.valid_route(), s), many, st.lists(word, max_size=30).map(lambda l: ["N0100VFR"] + l), gen.mutated_route(base=many), gen.valid_route())


def check(case):
    f = case["field"]
    r, e = c.both(f)
    labels, pairs = set(), c.aligned(r, e)
    text = {t.start: t for t in e.toks if t.role == "text"}
    for i, (a, x) in enumerate(pairs):
        section = x["base"] == "BREAK_START" or x["base"] == "SPEED_VFR"
        if section:
            labels.add("section " + (x["sub"] if x["base"] == "BREAK_START" else "speed/VFR"))
            if x.get("words"):
                labels.add("!")
                labels.add("words:%d" % min(x["words"], 10))
            if a is None:
                c.show(f, "the break %s is not recorded" % c.brief(x))
            d = c.diff_fields(a, x, ("base", "rules"))
            if d:
                c.show(f, d)
            n = pairs[i + 1] if i + 1 < len(pairs) - 1 else None
            if n is not None and n[1]["base"] == "POINT" and any(t.role == "text" and t.end <= n[1]["start"] for t in e.toks[:-1]):
                prev = max((t for t in e.toks if t.end <= n[1]["start"]), key=lambda t: t.start)
                if prev.role == "text":                        # routing resumes right here
                    labels.add("ended by " + prev.name)
                    if n[0] is None:
                        c.show(f, "the section does not end at %s" % c.brief(n[1]))
                    if n[0]["rules"] != n[1]["rules"] or n[0]["base"] != "POINT":
                        c.show(f, "%s after the section is a %s under %s" % (c.brief(n[0]), n[0]["base"], n[0]["rules"]))
        if a is not None and a["break_text"] != x["break_text"]:
            c.show(f, "the break text of %s is %r instead of %r" % (c.brief(a), a["break_text"], x["break_text"]))
    for a in r.records[1:-1]:
        if a["start"] in text and text[a["start"]].name == a["name"]:
            c.show(f, "%s is break text but is recorded" % c.brief(a))
    for x in c.extras(r, e):
        if x["base"] == "BREAK_START" and x["break_text"] == "" or x["break_text"]:
            c.show(f, "%s is recorded as a break section" % c.brief(x))
    got = sorted(y for y in c.errs(r.errors) if y[1] in text and text[y[1]].name == y[0])
    want = sorted(y for y in c.errs(e.errors) if y[1] in text and text[y[1]].name == y[0])
    if got != want:
        c.show(f, "errors about break text: %r instead of %r" % (got, want))
    if sorted(c.errors_with(r, {22})) != sorted(c.model_errors_with(e, {22})):
        c.show(f, "incomplete rule changes reported: %r instead of %r" % (c.errors_with(r, {22}), c.model_errors_with(e, {22})))
    if c.model_errors_with(e, {22}):
        labels |= {"!", "incomplete rule change"}
    return labels
