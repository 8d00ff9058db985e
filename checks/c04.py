"""C04: levels are decoded to the right text and metres wherever they occur."""
from hypothesis import strategies as st
from lib import compare as c, gen, refmodel as m, spaces
from lib.fieldcheck import cases, insert_one, shrink, strategy_of

PID = "C04"
RULE = ("A case is a field. Enumerated: every level value of every unit (22,000) in the first element, at a point, at both places of a cruise climb and at a rule change; "
        "boundary levels in 34 further places. Generated: well-formed, mutated and arbitrary fields rich in levels. Each record given a level must carry the level text, an integral number of "
        "metres within 0.5 of the exact value, and the flight level warnings must be exactly those expected. Non-trivial: a level is given after the first element, or a warning is due.")
EXAMPLES = {"quick": 8000, "thorough": 150000}
T1 = "N0450{0} ABC/N0450{1} DEF C/GHI/N0450{2}{3} VFR TXT IFR JKL/N0450{4} MNO"
T2 = ["M082{0} B9 00N001E/K0800{1} B9 DEF C/00N002E/M080{2}PLUS %% /N0450{3} OAT X GAT DEF/N0400{4}", "N0100VFR X IFR JKL/N0450{0} C/KLM/K0900S1130{1} C/NOP/K0900M0840{2} DEF/M070{3}/N0480{4}"]


def enum(tier):
    yield from cases(spaces.composed(tier, wide=False))
    yield from cases(spaces.slots([T1] if tier == "quick" else [T1] + T2, spaces.ALL_LEVELS))
    for p in spaces.PLACES:
        for l in gen.LEVELS + ["F%03d" % x for x in range(0, 120, 3)]:
            yield {"field": p.format(s="N0450", l=l)}


def strategy(tier):
    sl = st.one_of(gen.speed_level_any.map(lambda t: ["/", t]), gen.climb_any.flatmap(lambda t: gen.point.map(lambda p: ["C", "/", p, "/", t])))
    r = gen.rare_long()
    return strategy_of(r, insert_one(r, sl), insert_one(insert_one(gen.valid_route(), sl), sl))


def check(case):
    f = case["field"]
    r, e = c.both(f)
    labels, given = set(), 0
    for a, x in c.aligned(r, e):
        if not x.get("given"):
            continue
        given += 1
        labels.add("level " + x["altitude"][:1] + (" in climb" if x["cruise_to"] else " default" if x["name"] == "VFR" else ""))
        if a is None:
            c.show(f, "no record of %s, which is given the level %s" % (c.brief(x), x["altitude"]))
        if a["altitude"] != x["altitude"]:
            c.show(f, "the level of %s is %r instead of %r" % (c.brief(a), a["altitude"], x["altitude"]))
        if not c.integral_near(a["altitude_si"], m.level_exact(x["altitude"])):
            c.show(f, "the level of %s (%s) is %r m instead of %r" % (c.brief(a), x["altitude"], a["altitude_si"], x["altitude_si"]))
        if x["cruise_to"] not in ("", "PLUS"):
            labels.add("target " + x["cruise_to"][0])
            if a["cruise_to"] != x["cruise_to"] or not c.integral_near(a["cruise_to_si"], m.level_exact(x["cruise_to"])):
                c.show(f, "the target level of %s is %r, %r m instead of %r, %r m" % (c.brief(a), a["cruise_to"], a["cruise_to_si"], x["cruise_to"], x["cruise_to_si"]))
    got, want = sorted(c.errors_with(r, {40})), sorted(c.model_errors_with(e, {40}))
    if got != want:
        c.show(f, "flight levels reported as not a multiple of 5: %r instead of %r" % (got, want))
    if want:
        labels |= {"!", "warnings:%d" % len(want)}
    if given > 1:
        labels.add("!")
    return labels
