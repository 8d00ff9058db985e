"""C17: any field is parsed to a framed result, never an exception."""
import itertools, json, os
from hypothesis import strategies as st
from lib import compare as c, gen, refmodel as m, spaces, sut
from lib.fieldcheck import any_separators, cases, shrink
from lib.sut import Violation

PID = "C17"
RULE = ("A case is a field (any text). Enumerated: the shared small-scope space, all strings up to length 5 over 8 characters, every element type repeated 100 times alone, in pairs, and after every context. Generated: arbitrary text, token soups, well-formed and "
        "mutated routes up to 100 elements. Tokenizing and parsing must end without an exception and give ADEP ... ADES with everything between in source order; the verdict must be true exactly when no error is "
        "recorded. Non-trivial: two elements or more.")
EXAMPLES = {"quick": 16000, "thorough": 400000}
ASSUMPTIONS = ["fields of up to 100 elements; longer fields are the subject of a known finding (known_findings.json)"]
KNOWN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")


def enum(tier):
    for k in range(0, 6 if tier == "quick" else 7):
        for p in itertools.product("A1 /NC!\n" if k < 5 or tier == "thorough" else "AC /", repeat=k):
            yield {"field": "".join(p)}
    yield from cases(spaces.small_scope(tier))
    for t in gen.REPS + gen.KEYWORDS + gen.UNKNOWN + gen.TOO_LONG:
        for pre in spaces.CONTEXTS if t in gen.REPS_CORE else [[], ["N0450F350"], ["N0450F350", "ABC"], ["N0100VFR"]]:
            yield {"field": " ".join(pre + [t] * (100 - len(pre)))}
    for a, b in itertools.permutations(gen.REPS_CORE, 2):
        yield {"field": "N0450F350 " + " ".join([a, b] * 49)}
        yield {"field": " ".join([a, b] * 50)}
    for n in (26, 200, 5000):
        for s in ("A", "0", "/", "N0450F350", "!", " ", "ABC1", "\u00e9", "00N", "F350"):
            if s not in "/" or n < 101:
                yield {"field": (s * n)}


def strategy(tier):
    big = st.lists(gen.any_token, min_size=30, max_size=99).map(lambda l: " ".join(l))
    core = st.lists(st.sampled_from(gen.REPS_CORE), min_size=30, max_size=99).map(lambda l: "N0450F350 " + " ".join(l))
    words = st.lists(st.text(st.characters(blacklist_categories=("Cs",)), min_size=1, max_size=30), max_size=12).map(" ".join)
    some = st.lists(st.sampled_from(["", " ", "/"]), max_size=12).flatmap(lambda l: st.just("".join(l)))
    return any_separators(st.one_of(gen.field(), gen.raw_text, words, big, core, st.text(max_size=200).filter(lambda s: len(m.tokenize(s)) < 101), some).map(lambda f: {"field": f}))


def frame(r, f):
    """Violation unless the result is framed, ordered and the verdict agrees with the errors."""
    recs = r.records
    if len(recs) < 2 or recs[0]["name"] != "ADEP" or recs[-1]["name"] != "ADES":
        c.show(f, "the sequence %r is not framed by ADEP and ADES" % c.names(recs))
    for x in (recs[0], recs[-1]):
        if (x["start"], x["end"], x["base"], x["sub"]) != (0, 0, "POINT", "PRP_AERO"):
            c.show(f, "%s is %r" % (x["name"], (x["start"], x["end"], x["base"], x["sub"])))
    inner = [x["start"] for x in recs[1:-1]]
    if any(b <= a for a, b in zip(inner, inner[1:])):
        c.show(f, "records are not in source order: %r" % c.names(recs))
    if any(x["name"] in ("ADEP", "ADES") and f[x["start"]:x["end"]] != x["name"] for x in recs[1:-1]):
        c.show(f, "more than one ADEP or ADES: %r" % c.names(recs))
    if r.ok is not (r.n_errors == 0) or r.n_errors != len(r.errors) or r.n_records != len(recs):
        c.show(f, "verdict %r with %r errors (%d listed), %r records (%d listed)" % (r.ok, r.n_errors, len(r.errors), r.n_records, len(recs)))


def check(case):
    f = case["field"]
    r = sut.parse(f, case.get("ws", sut.WS))
    frame(r, f)
    n = len(r.tokens)
    labels = {"accepted" if r.ok else "rejected", "elements:%s" % ("0" if n == 0 else "1" if n == 1 else "2-9" if n < 10 else "10-49" if n < 50 else "50-100")}
    if n > 1:
        labels.add("!")
    if "ws" in case:
        labels.add("other separators")
    if not f.isascii():
        labels.add("not ASCII")
    return labels


def known():
    for k in json.load(open(KNOWN))["findings"]:
        if k["property"] != PID:
            continue
        f = "".join(s * n for s, n in k["input"])
        try:
            frame(sut.parse(f), f)
            yield dict(what=k["what"], present=False)
        except Violation as x:
            if k["symptom"] in str(x):
                yield dict(what=k["what"], present=True)
            else:
                yield dict(what=k["what"], present=False, case={"field": f}, violation=str(x))
