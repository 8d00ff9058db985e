"""C09: a lat/long/bearing/distance point is placed by WGS84 projection."""
from hypothesis import strategies as st
from lib import compare as c, gen, legs, refmodel as m, spaces
from lib.fieldcheck import cases, insert_one, shrink, strategy_of

PID = "C09"
RULE = ("A case is a field. Enumerated: every bearing 000-360 and every distance 000-999 at varying reference positions, poles and the date line included, and boundary values in 13 places where a point can stand. "
        "Generated: fields rich in such points with points with coordinates around them. The recorded position must be the geodesic destination (solved independently of /repo's code, 1e-9 degrees) and "
        "measuring back from the reference must give bearing and distance; legs touching the point must be measured at the projected position. Non-trivial: a point with a distance above zero is recorded.")
EXAMPLES = {"quick": 6000, "thorough": 100000}
PLACES = ["N0450F350 {p}", "N0450F350 00N001E {p} DEF", "N0450F350 {p} DCT 01N001E", "N0450F350 ABC C/{p}/N0450F310F350 02N002E", "N0450F350 00N001W VFR IFR {p}/N0450F350 01N001W", "N0450F350 ABC OAT GAT {p} 01N001E", "N0450F350 ABC IFPSTOP IFPSTART {p} 05N001E",
          "N0450F350 ABC/N0100VFR IFR {p}/N0200VFR IFR {p}/N0450F350 00N001E", "N0100VFR IFR {p}/N0450F350", "N0450F350 ABC %% {p} 01N001E", "{p} DEF", "N0450F350 {p} {q} {p}", "N0450F350 01N001E DCT {q} STAY1/0100 {p} ABC1A"]
REFS = ["00N000E", "0000N00000E", "4530N01215W", "89N179W", "90N000E", "8959S17959E", "90S180E", "00N180W", "60S120E", "0001S00001W", "5130N00000W", "33S151E", "8900N00000W"]


def enum(tier):
    yield from cases(spaces.composed(tier, wide=True))
    n = 0
    for b in range(361):
        for k in range(3 if tier == "quick" else 12):
            n += 1
            d = (b * 7 + k * 331) % 1000
            ref = REFS[n % len(REFS)] if n % 2 else "%02d%s%03d%s" % ((n * 5) % 90, "NS"[n // 2 % 2], (n * 7) % 180, "EW"[n // 3 % 2])
            yield {"field": "N0450F350 00N001E %s%03d%03d DCT 01S002W" % (ref, b, d)}
    for d in range(1000):
        for k in range(2 if tier == "quick" else 10):
            n += 1
            yield {"field": "N0450F350 %02d%02d%s%03d%02d%s%03d%03d ABC" % ((n * 5) % 90, n % 60, "NS"[n % 2], (n * 7) % 180, (n * 11) % 60, "EW"[n // 2 % 2], (d * 13 + k * 91) % 361, d)}
    for p in PLACES:
        for ref in REFS:
            for bd in ("000000", "000001", "090060", "180999", "270500", "360100", "045123", "359999"):
                yield {"field": p.format(p=ref + bd, q="45N045E%s" % bd)}


def strategy(tier):
    el = gen.llbd.map(lambda t: [t])
    pts = st.one_of(gen.llbd, gen.llbd, gen.ll, gen.prp, gen.bd)
    return strategy_of(gen.valid_route(points=pts), gen.mutated_route(points=pts), insert_one(gen.rare_long(), el), insert_one(insert_one(gen.valid_route(points=gen.ll), el), el))


def check(case):
    f = case["field"]
    r, e = c.both(f)
    labels, pairs = set(), c.aligned(r, e)
    for i, (a, x) in enumerate(pairs):
        if x["sub"][:5] != "LLBD_":
            continue
        lat, lon, bad, (b, d) = m.coordinates(x["name"])
        if bad:
            labels.add("out of range")
            continue
        labels.add(x["sub"])
        if d:
            labels.add("!")
        if abs(lat) > 89:
            labels.add("near a pole")
        if a is None:
            c.show(f, "the point %s is not recorded" % c.brief(x))
        if not legs.same_position(a["lat"], a["lon"], x["lat"], x["lon"]):
            c.show(f, "%s is placed at %r, %r instead of %.9f, %.9f" % (c.brief(a), a["lat"], a["lon"], x["lat"], x["lon"]))
        bad = legs.leg_error(float(b), d * 1852.0, lat, lon, a["lat"], a["lon"])
        if bad:
            c.show(f, "measuring back from the reference of %s: %s" % (c.brief(a), bad))
        # legs measured from this point, and to it
        for (p, q) in ((a, "from"), (pairs[i - 1][0], "to"), (pairs[i - 2][0] if i > 1 else None, "to")):
            if p is None:
                continue
            j = [k for k, y in enumerate(pairs) if y[0] is p][0]
            want = pairs[j][1]
            if want["distance"] == 0.0 and want["bearing"] == 0.0:
                continue
            dst = next((y for y in e.records[j + 1:j + 3] if y["valid"]), None)
            if dst is None or q == "to" and dst is not x or not legs.in_range(want["lat"], want["lon"]) or not legs.in_range(dst["lat"], dst["lon"]):
                continue
            labels.add("leg " + q)
            bad = legs.leg_error(p["bearing"], p["distance"], want["lat"], want["lon"], dst["lat"], dst["lon"])
            if bad:
                c.show(f, "the leg from %s to %s: %s" % (c.brief(p), c.brief(dst), bad))
    return labels
