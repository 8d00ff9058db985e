"""C21: the layout of the field does not affect its meaning."""
import itertools
from hypothesis import strategies as st
from lib import compare as c, dictionary, gen, refmodel as m, spaces, sut
from lib.sut import Violation

PID = "C21"
RULE = ("A case is two layouts (a, b) of the same elements: separators replaced by runs of spaces, tabs, newlines and carriage returns, runs added at the ends and around '/', or '/' joined to its neighbours. Enumerated: 10 layouts of every field of a "
        "small-scope space (contexts with all pairs of core element types), and of every element type repeated up to 98 times, and fields with every constant of the code under test. Metamorphic oracle: verdict, derived rules, records and errors equal in every attribute, positions mapped element by element. "
        "Non-trivial: the layouts differ and there are two elements or more.")
EXAMPLES = {"quick": 8000, "thorough": 150000}
ATTR = [f for f in sut.FIELDS if f not in ("start", "end")]


def layouts(toks):
    n = len(toks)
    yield gen.plain(toks)
    for s in ("  ", "\n", "\t", "\r", "\r\n", " \n\t\r "):
        yield gen.join(toks, [s] * n)
    yield "\n " + gen.join(toks, [""] * n) + "\t\r\n"
    yield gen.join(toks, ["" if i % 2 else " " for i in range(n)])
    yield " " + gen.join(toks, ["\t" if i % 3 else "\n\n" for i in range(n)])


def enum(tier):
    for i, f in enumerate(spaces.pairs(gen.REPS_CORE, spaces.CONTEXTS, length=2)):
        toks = f.split()
        ls = list(layouts(toks))
        base = " ".join(toks)
        if tier == "thorough":
            for b in ls:
                yield {"a": base, "b": b}
        else:
            yield {"a": base, "b": ls[i % len(ls)]}
    for f in spaces.pairs(gen.REPS, [["N0450F350", "ABC"], ["N0100VFR"]], length=1):
        for b in layouts(f.split()):
            yield {"a": f, "b": b}
    for i, f in enumerate(dictionary.fields(tier)):
        toks = [t for t, _, _ in m.tokenize(f)]
        ls = list(layouts(toks))
        yield {"a": f, "b": ls[i % len(ls)]}
    for i, f in enumerate(itertools.chain(spaces.mixtures(tier), spaces.varied(tier), spaces.recovering(tier), spaces.odd(tier))):
        if tier == "quick" and i > 8000 and i % 2:
            continue
        toks = [t for t, _, _ in m.tokenize(f)]
        ls = list(layouts(toks))
        yield {"a": f, "b": ls[i % len(ls)]}
    for i, f in enumerate(spaces.repeated(tier)):
        toks = [t for t, _, _ in m.tokenize(f)]
        ls = list(layouts(toks))
        yield {"a": f, "b": ls[i % len(ls)]}
        yield {"a": f, "b": gen.join(toks, [" " * (1 + i % 400)] * len(toks))}


@st.composite
def pair(draw):
    toks = draw(gen.rare_long())
    ws = st.one_of(st.just(" "), st.text(" \t\n\r", min_size=1, max_size=4))
    sep = st.one_of(st.just(""), ws)
    n = len(toks)
    k = draw(st.integers(0, 2))
    a = " ".join(toks) if k else gen.join(toks, draw(st.lists(sep, min_size=n, max_size=n)))
    b = gen.join(toks, draw(st.lists(sep, min_size=n, max_size=n)))
    end = st.one_of(st.just(""), ws)
    return {"a": a, "b": draw(end) + b + draw(end)}


def strategy(tier):
    return pair()


def shrink(case):
    ta, tb = m.tokenize(case["a"]), m.tokenize(case["b"])
    for i in range(len(ta)):
        yield {"a": case["a"][:ta[i][1]] + case["a"][ta[i][2]:], "b": case["b"][:tb[i][1]] + case["b"][tb[i][2]:]}


def check(case):
    fa, fb = case["a"], case["b"]
    ta, tb = m.tokenize(fa), m.tokenize(fb)
    if [t[0] for t in ta] != [t[0] for t in tb]:
        return {"not the same elements"}
    a, b = sut.parse(fa), sut.parse(fb)

    def bad(what):
        raise Violation("%r laid out as %r: %s" % (fa, fb, what))
    if a.ok != b.ok or a.derived != b.derived:
        bad("verdict %r instead of %r, derived rules %r instead of %r" % (b.ok, a.ok, b.derived, a.derived))
    pos = {(x[1], x[2]): (y[1], y[2]) for x, y in zip(ta, tb)}
    for what, xs, ys in (("records", a.records, b.records), ("errors", a.errors, b.errors)):
        if len(xs) != len(ys):
            bad("%s %r instead of %r" % (what, c.names(ys), c.names(xs)))
        for i, (x, y) in enumerate(zip(xs, ys)):
            d = c.diff_fields(y, x, ATTR)
            if d:
                bad(d)
            dummy = what == "records" and i in (0, len(xs) - 1) or not ta
            want = (0, 0) if dummy else pos.get((x["start"], x["end"]))
            if (y["start"], y["end"]) != want:
                bad("%s %s moved to %r instead of %r" % (what[:-1], c.brief(x), (y["start"], y["end"]), want))
    labels = {"accepted" if a.ok else "rejected"}
    if fa != fb and len(ta) > 1:
        labels.add("!")
    for ch, name in (("\t", "tab"), ("\n", "newline"), ("\r", "carriage return")):
        if ch in fb:
            labels.add(name)
    return labels
