"""C05: speeds are decoded to the right text and metres per second."""
from hypothesis import strategies as st
from lib import compare as c, gen, refmodel as m, spaces
from lib.fieldcheck import cases, insert_one, shrink, strategy_of

PID = "C05"
RULE = ("A case is a field. Enumerated: every speed value of every unit (21,000) in the first element, at a point, in a cruise climb, at a rule change and in a speed/VFR, at rotating levels; "
        "every level with Mach 0.01 to 9.99 (thorough: 30 Mach numbers per level); boundary speeds in 34 further places. Generated: well-formed, mutated and arbitrary fields. Each record given "
        "a speed must carry its text and an integral number of m/s within 0.5 of the exact value at that element's own level. Non-trivial: a Mach number, or more than one speed in the field.")
EXAMPLES = {"quick": 8000, "thorough": 150000}
LV = gen.LEVELS


def enum(tier):
    yield from cases(spaces.composed(tier, wide=False))
    S, n = spaces.ALL_SPEEDS, len(spaces.ALL_SPEEDS)
    for i in range(n):
        s = [S[(i + k) % n] for k in (0, 3571, 7919, 12347, 17011)]
        l = [LV[(i * 7 + k * 13) % len(LV)] for k in range(4)]
        yield {"field": "%s%s ABC/%s%s DEF C/GHI/%s%s%s VFR TXT IFR JKL/%s%s MNO/%sVFR TXT" % (s[0], l[0], s[1], l[1], s[2], l[2], LV[i % len(LV)], s[3], l[3], s[4])}
    A = spaces.ALL_LEVELS
    for k in range(1 if tier == "quick" else 30):
        for i in range(len(A)):
            ms = ["M%03d" % ((i * 17 + k * 331 + j * 251) % 999 + 1) for j in range(3)]
            yield {"field": "%s%s ABC/%s%s DEF C/GHI/%s%sPLUS" % (ms[0], A[i], ms[1], A[(i + 9001) % len(A)], ms[2], A[(i + 4001) % len(A)])}
    for p in spaces.PLACES:
        for s in gen.SPEEDS:
            for l in ("F350", "F000", "S1130", "M0840", "A045", "F400"):
                yield {"field": p.format(s=s, l=l)}


def strategy(tier):
    sl = st.one_of(gen.speed_level_any.map(lambda t: ["/", t]), gen.climb_any.flatmap(lambda t: gen.point.map(lambda p: ["C", "/", p, "/", t])),
                   gen.speed_vfr.map(lambda t: ["/", t, "IFR", "ABC", "/", "N0450F350"]))
    r = gen.rare_long()
    return strategy_of(r, insert_one(r, sl), insert_one(insert_one(gen.valid_route(), sl), sl))


def check(case):
    f = case["field"]
    r, e = c.both(f)
    labels, given = set(), 0
    for a, x in c.aligned(r, e):
        if not x.get("given"):
            continue
        given += 1
        labels.add("speed " + x["speed"][:1] + (" in climb" if x["cruise_to"] else " VFR" if x["name"] == "VFR" else ""))
        if a is None:
            c.show(f, "no record of %s, which is given the speed %s" % (c.brief(x), x["speed"]))
        if a["speed"] != x["speed"]:
            c.show(f, "the speed of %s is %r instead of %r" % (c.brief(a), a["speed"], x["speed"]))
        if not c.integral_near(a["speed_si"], m.speed_exact(x["speed"], x["altitude_si"])):
            c.show(f, "the speed of %s (%s at %s) is %r m/s instead of %r" % (c.brief(a), x["speed"], x["altitude"], a["speed_si"], x["speed_si"]))
        if x["speed"][0] == "M":
            labels |= {"!", "Mach at " + ("zero" if x["altitude_si"] == 0 else "above 11000 m" if x["altitude_si"] > 11000 else "below 11000 m")}
    if given > 1:
        labels.add("!")
    return labels
