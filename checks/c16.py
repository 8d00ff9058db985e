"""C16: parsing recovers after an error and still extracts the rest."""
import itertools
from hypothesis import strategies as st
from lib import compare as c, gen, refmodel as m, spaces, sut
from lib.fieldcheck import cases, insert_one
from lib.sut import Violation

PID = "C16"
RULE = ("Two kinds of case. {field}: the complete list of records and of errors of an ill-formed field is compared with the reference model; enumerated: the shared small-scope space, every context + ill-formed element + three continuations. "
        "{route, i, garbage}: metamorphic; an unrecognised or over-long element is put between two elements of a well-formed point-to-point route (points joined directly, coordinates, DCT, changes), which must add exactly one "
        "error, on that element, and leave every record the same apart from positions (and legs measured across it). Non-trivial: an error is followed by further elements.")
EXAMPLES = {"quick": 10000, "thorough": 200000}
ATTR = ("name", "base", "sub", "altitude", "altitude_si", "speed", "speed_si", "rules", "stay", "break_text", "cruise_to", "cruise_to_si", "lat", "lon", "valid")
ROUTES = ["N0450F350 ABC DEF GHI", "M082F350 00N001E 01N001E EGLL", "K0800S1100 ABC", "N0450F350 ABC DEF/N0440F340 GHI JKL", "N0450F350 ABC DEF STAY1/0130 GHI", "N0450F350 ABC C/DEF/N0450F350F370 GHI", "N0450F350 ABC090050 01N002E090050 ABC",
          "N0450F350 ABC ABC ABC", "N0450F350 A B C DEF", "N0450F350 ABC DCT DEF B9 GHI JKL"]


def enum(tier):
    yield from cases(spaces.small_scope(tier))
    for x in spaces.CONTEXTS:
        for bad in ("%%", "0102", "X" * 26, "B9", "IFR", "/", "N0450F350", "DCT"):
            for t in ("DEF 00N001E B9 GHI", "DCT DEF VFR TXT IFR GHI/N0400F300 B9 JKL", "/N0300F200 ABC %% DEF 0102 GHI STAY1/0030 T"):
                yield {"field": " ".join(x + [bad, t])}
    for r in ROUTES:
        toks = [t for t, _, _ in m.tokenize(r)]
        for i in range(1, len(toks) + 1):
            for g in gen.UNKNOWN + gen.TOO_LONG:
                yield {"route": toks, "i": i, "garbage": g}


pts = st.one_of(gen.prp, gen.coord, gen.bd)


@st.composite
def p2p(draw):
    toks = [draw(gen.speed_level), draw(pts)]
    for _ in range(draw(st.one_of(st.integers(0, 8), st.integers(0, 30)))):
        k = draw(st.integers(0, 7))
        if k == 0:
            toks += ["/", draw(gen.speed_level)]
        elif k == 1:
            toks += draw(gen.stay_el())
        toks.append(draw(pts))
    return toks


def strategy(tier):
    ins = st.tuples(p2p(), st.integers(1, 80), st.one_of(gen.unknown, gen.too_long)).map(lambda x: {"route": x[0], "i": x[1] % len(x[0]) + 1, "garbage": x[2]})
    fields = st.one_of(gen.mutated_route(), gen.mutated_route(max_edits=5), gen.soup(), gen.core_soup(), insert_one(gen.long_route(), gen.any_token.map(lambda t: [t])))
    return st.one_of(ins, gen.laid_out(fields).map(lambda f: {"field": f}), gen.laid_out(fields).map(lambda f: {"field": f}))


def shrink(case):
    if "field" in case:
        yield from c.shrink_field(case)


def between(toks, i):
    """Is position i between two elements of a point-to-point route (not inside a change, stay or climb)?"""
    if i < 2 or i >= len(toks):
        return False
    return toks[i] != "/" and toks[i - 1] not in ("/", "DCT") and m.classify(toks[i - 1])[0] in ("POINT", "SPEED_ALTITUDE", "STAY_TIME", "SPEED_ALTITUDE_ALTITUDE") and m.classify(toks[i])[0] == "POINT"


def check(case):
    if "field" in case:
        f = case["field"]
        r, e = c.both(f)
        if e.ok:
            return {"well-formed"}
        got, want = c.errs(r.errors), c.errs(e.errors)
        if got != want:
            c.show(f, "errors %r instead of %r" % (got, want))
        got, want = c.names(r.records), c.names(e.records)
        if got != want:
            c.show(f, "records %r instead of %r" % (got, want))
        labels = {"errors:%d" % min(len(e.errors), 6)}
        if e.errors[0]["start"] < e.toks[-1].start if e.toks else False:
            labels.add("!")
        if any(x["start"] > e.errors[0]["end"] for x in e.records[1:-1]):
            labels.add("records after an error")
        return labels
    toks, i, g = case["route"], case["i"], case["garbage"]
    if not between(toks, i) or "C" in toks and toks[i - 1] == "C":
        return {"not between two elements"}
    a, b = gen.plain(toks), gen.plain(toks[:i] + [g] + toks[i:])
    ra, rb = sut.parse(a), sut.parse(b)
    if not ra.ok:
        return {"base route rejected"}
    where = m.tokenize(b)[i]
    want = m.MESSAGES[4 if len(g) > 25 else 3].replace("!", g)
    if rb.ok or c.errs(rb.errors) != [(g, where[1], where[2], want)]:
        raise Violation("%r in %r: errors %r instead of just %r" % (g, b, c.errs(rb.errors), want))
    if len(ra.records) != len(rb.records):
        raise Violation("%r in %r: records %r instead of %r" % (g, b, c.names(rb.records), c.names(ra.records)))
    for x, y in zip(ra.records, rb.records):
        d = c.diff_fields(y, x, ATTR)
        if d:
            raise Violation("%r in %r: %s" % (g, b, d))
        if b[y["start"]:y["end"]] != y["name"] and y["name"] not in ("ADEP", "ADES", "VFR"):
            raise Violation("%r in %r: %s is not at its position" % (g, b, c.brief(y)))
    if ra.derived != rb.derived:
        raise Violation("%r in %r: derived rules %r instead of %r" % (g, b, rb.derived, ra.derived))
    return {"!", "inserted " + ("too long" if len(g) > 25 else "unknown")}
