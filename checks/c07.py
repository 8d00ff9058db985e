"""C07: a cruise climb sets speed, start level and target level at its point."""
import itertools
from hypothesis import strategies as st
from lib import compare as c, gen, refmodel as m, spaces
from lib.fieldcheck import cases, insert_one, shrink, strategy_of

PID = "C07"
RULE = ("A case is a field. Enumerated: all 60 speed/level unit combinations after 12 prefixes and before 11 continuations; every level value as target; 'C' before and after every element type. "
        "Generated: well-formed, mutated and arbitrary fields with cruise climbs put in. Point record, speed, first level, target (text and metres), absence of a record for the 'C' and of a target anywhere else are "
        "compared with the reference model. Non-trivial: the field contains a complete cruise climb, or a 'C' that is a point.")
EXAMPLES = {"quick": 8000, "thorough": 150000}
COMBOS = [s + l1 + l2 for s in ("N0450", "K0900", "M082") for l1 in ("F310", "A045", "S1130", "M0840") for l2 in ("F350", "A100", "S1190", "M1200", "PLUS")]
PRE = ["N0400F300 ABC", "N0400F300", "N0400F300 00N001E", "N0400F300 ABC B9", "N0400F300 ABC DCT", "N0400F300 ABC STAY1/0100", "N0400F300 ABC/M080F310", "N0400F300 ABC C/DEF/N0450F310PLUS", "N0400F300 ABC %%",
       "N0400F300 ABC OAT X GAT DEF", "N0100VFR X IFR ABC/N0450F350", "N0400F300 ABC1A B9"]
POST = ["", "XYZ", "B9 XYZ", "DCT 00N003E", "/N0300F200 XYZ", "STAY1/0100 XYZ", "C/XYZ/K0800S1100PLUS ZZZ", "VFR TXT IFR XYZ/N0440F310 ZZZ", "T", "C XYZ", "%% XYZ"]


def enum(tier):
    yield from cases(spaces.composed(tier, wide=True))
    for pre in PRE:
        for combo in COMBOS:
            for post in POST:
                for pt in ("GHI", "01N002E") if tier == "quick" else ("GHI", "01N002E", "C", "EGLL", "GHI090050", "0130N00230W", "01N002E090050"):
                    yield {"field": ("%s C/%s/%s %s" % (pre, pt, combo, post)).strip()}
    yield from cases(spaces.slots(["N0450F300 ABC C/DEF/M080A045{0} C/GHI/K0800{1}{2} JKL"], spaces.ALL_LEVELS))
    yield from cases(spaces.pairs(gen.REPS, [["N0450F350", "ABC", "C"], ["N0450F350", "ABC", "C", "/"], ["N0450F350", "ABC", "C", "/", "DEF"], ["N0450F350", "ABC", "C", "/", "DEF", "/"],
                                             ["N0450F350", "ABC", "C", "/", "DEF", "/", "N0450F350F370"]], length=2))
    yield from cases(spaces.pairs(["C", "/", "ABC", "00N001E", "M082F350PLUS", "K0800S1100A050", "B9", "DCT", "N0450F350"], [["N0450F350"], ["N0450F350", "ABC"]], length=4 if tier == "quick" else 6))


def strategy(tier):
    el = st.one_of(gen.climb_any.flatmap(lambda t: gen.point_any.map(lambda p: ["C", "/", p, "/", t])), st.just(["C"]))
    r = gen.rare_long()
    return strategy_of(insert_one(r, el), insert_one(gen.valid_route(), el), insert_one(insert_one(gen.valid_route(), el), el))


def check(case):
    f = case["field"]
    r, e = c.both(f)
    labels = set()
    starts = {a["start"]: a for a in r.records[1:-1]}
    for t in e.toks:
        if t.base == "C" and t.role == "climb":
            labels.add("!")
            if t.start in starts and starts[t.start]["name"] == t.name:
                c.show(f, "the 'C' of the cruise climb at %d is recorded" % t.start)
    for a, x in c.aligned(r, e):
        if x["base"] == "C":
            labels |= {"!", "C as a point"}
            if a is None or (a["base"], a["sub"]) != (x["base"], x["sub"]):
                c.show(f, "the point C at %d is recorded as %r" % (x["start"], a and (a["base"], a["sub"])))
        if x["cruise_to"]:
            labels.add("target " + (x["cruise_to"] if x["cruise_to"] == "PLUS" else x["cruise_to"][0]) + " from " + x["altitude"][0] + " at " + x["speed"][0])
            if a is None:
                c.show(f, "the cruise climb point %s is not recorded" % c.brief(x))
            d = c.diff_fields(a, x, ("speed", "altitude", "cruise_to"))
            if d:
                c.show(f, d)
            if not c.integral_near(a["speed_si"], m.speed_exact(x["speed"], x["altitude_si"])) or not c.integral_near(a["altitude_si"], m.level_exact(x["altitude"])):
                c.show(f, "%s has %r m/s and %r m instead of %r and %r" % (c.brief(a), a["speed_si"], a["altitude_si"], x["speed_si"], x["altitude_si"]))
            want = 0.0 if x["cruise_to"] == "PLUS" else m.level_exact(x["cruise_to"])
            if not c.integral_near(a["cruise_to_si"], want):
                c.show(f, "the target %s of %s is %r m instead of %r" % (x["cruise_to"], c.brief(a), a["cruise_to_si"], x["cruise_to_si"]))
        elif a is not None:
            if a["cruise_to"] != "" or a["cruise_to_si"] != 0:
                c.show(f, "%s has the cruise climb target %r, %r m but no cruise climb" % (c.brief(a), a["cruise_to"], a["cruise_to_si"]))
            d = c.diff_fields(a, x, ("speed", "altitude")) if "!" in labels else None
            if d and x["name"] != "ADES":
                c.show(f, d)
    return labels
