"""C10: legs between points with coordinates carry WGS84 azimuth and distance."""
import itertools
from hypothesis import strategies as st
from lib import compare as c, gen, legs, spaces
from lib.fieldcheck import cases, insert_one, shrink, strategy_of

PID = "C10"
RULE = ("A case is a field. Enumerated: all sequences up to length 4 (thorough 5) of {two coordinate points, a projected point, a named point, DCT, ATS route, unknown, climb, change, break with end} after the first element, and legs "
        "between all pairs of 40 positions (poles, date line, antipodes, coincident). Generated: well-formed, mutated and arbitrary fields rich in coordinates. Every record's azimuth and distance: "
        "a WGS84 geodesic to the next point where a leg is due (solved independently, 1 mm), zero everywhere else. Non-trivial: at least one leg is due, or coordinates are followed by something that ends a leg.")
EXAMPLES = {"quick": 8000, "thorough": 150000}
EL = ["00N001E", "0130S17959W", "01N002E090050", "ABC", "DCT", "B9", "%%", "C / 05S003W / N0450F350PLUS", "/ N0440F340", "VFR X IFR 03N003W / N0450F350", "OAT GAT 04N004W", "STAY1 / 0100", "C", "C / DEF / N0450F310F350", "IFPSTOP IFPSTART ABC", "/ N0100VFR IFR 06N006E / N0100VFR",
      "ABC1A", "KONAN", "ABC090050"]
POS = ["00N000E", "00N180E", "00N180W", "00N179W", "90N000E", "90S000E", "90N123W", "45N045E", "45S135W", "45N135W", "0000N00001E", "0001N00000E", "8959N00000E", "0001S17959E", "60N010E", "60N170W", "33S151E", "5130N00000W", "40N074W", "00S000W"]


def enum(tier):
    yield from cases(spaces.composed(tier, wide=True))
    for a, b in itertools.product(POS, repeat=2):
        yield {"field": "N0450F350 %s %s" % (a, b)}
        yield {"field": "N0450F350 %s DCT %s DCT %s" % (a, b, a)}
        yield {"field": "N0450F350 ABC DCT %s C/%s/N0450F350PLUS VFR X IFR %s/N0450F350 %s" % (a, b, a, b)}
    for k in range(1, 5 if tier == "quick" else 6):
        for p in itertools.product(EL if k < 4 else EL[:8], repeat=k):
            yield {"field": "N0450F350 " + " ".join(p)}
    for p in itertools.product(EL, repeat=2):
        yield {"field": "N0450F350 00N001E " + " ".join(p) + " 07N007E"}
        yield {"field": "N0100VFR IFR 00N001E / N0450F350 " + " ".join(p) + " 07N007E"}


def strategy(tier):
    pts = st.one_of(gen.coord, gen.coord, gen.coord, gen.prp)
    return strategy_of(gen.valid_route(points=pts), gen.mutated_route(points=pts), gen.long_route(points=pts), gen.valid_route(points=gen.coord), st.lists(st.one_of(gen.coord, st.sampled_from(EL)), max_size=14).map(lambda l: ("N0450F350 " + " ".join(l)).split()))


def check(case):
    f = case["field"]
    r, e = c.both(f)
    labels, pairs = set(), c.aligned(r, e)
    for i, (a, x) in enumerate(pairs):
        due = None
        if x["valid"]:
            n = e.records[i + 1:i + 3]
            if n and n[0]["valid"]:
                due = n[0]
            elif len(n) > 1 and n[0]["base"] not in ("POINT", "C") and n[1]["valid"]:
                due = n[1]
                labels.add("across " + n[0]["base"])
            labels.add("leg" if due else "no leg from a coordinate")
            labels.add("!")
        if a is None:
            if due is not None:
                c.show(f, "the point %s is not recorded" % c.brief(x))
            continue
        if due is None:
            if a["bearing"] != 0 or a["distance"] != 0:
                c.show(f, "%s has azimuth %r and distance %r although no leg starts there" % (c.brief(a), a["bearing"], a["distance"]))
            continue
        if not (legs.in_range(x["lat"], x["lon"]) and legs.in_range(due["lat"], due["lon"])):
            labels.add("out of range")
            continue
        bad = legs.leg_error(a["bearing"], a["distance"], x["lat"], x["lon"], due["lat"], due["lon"])
        if bad:
            c.show(f, "the leg from %s to %s: %s" % (c.brief(a), c.brief(due), bad))
    for a in c.extras(r, e):
        if a["base"] != "POINT" and (a["bearing"] != 0 or a["distance"] != 0):
            c.show(f, "%s has azimuth %r and distance %r" % (c.brief(a), a["bearing"], a["distance"]))
    return labels
