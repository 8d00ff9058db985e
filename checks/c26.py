"""C26: the geodesy and atmosphere utilities agree with their physical laws."""
import math
from hypothesis import strategies as st
from lib import dictionary, legs, refmodel as m, sut
from lib.sut import Violation, Utils, guard

PID = "C26"
RULE = ("A case is one of: a point, bearing and distance (projected and measured back, and against an independently configured WGS84 solver); two points (measured both ways, and against the solver); a digit string with its maximum and split (range checks); two heights and two Mach numbers. "
        "Enumerated: all degree strings 0 to 999 and all 4 and 5 digit degree/minute strings for 90 and 180, all whole degrees of latitude and longitude against fixed points, every 10 m of height to 25 km and every Mach 0.00 to 9.99 at five heights; every number in the code under test as height, Mach, coordinate, bearing and distance. Generated: reals at and near the poles, "
        "the antimeridian, equal and antipodal positions, tiny and huge distances. Non-trivial: distinct positions, a value within a limit of 1, or different heights.")
EXAMPLES = {"quick": 20000, "thorough": 400000}
HALF = 20003931.4586255


def enum(tier):
    for n in range(1000):
        for mx in (90, 180, 360, 0):
            yield {"deg": "%03d" % n, "max": mx}
            if n < 100:
                yield {"deg": "%02d" % n, "max": mx}
    for a in range(0, 10000, 100):
        yield {"dm": ["%04d" % (a + k) for k in range(100)], "max": 90, "split": 2}
    for a in range(0, 100000, 100):
        yield {"dm": ["%05d" % (a + k) for k in range(100)], "max": 180, "split": 3}
    for la in range(-90, 91, 3 if tier == "quick" else 1):
        for lo in range(-180, 181, 9 if tier == "quick" else 3):
            yield {"from": [la, lo], "to": [0, 0]}
            yield {"from": [la, lo], "to": [52, 5]}
            yield {"from": [la, lo], "to": [la, lo]}
            yield {"from": [la, lo], "to": [-la, lo + 180 if lo <= 0 else lo - 180]}
            yield {"at": [la, lo], "bearing": (la * 7 + lo) % 361, "distance": 1852 * abs(la * lo % 1000)}
    for b in range(361):
        for p in ([0, 0], [89, 10], [-90, 0], [52, -180], [52, 180]):
            for d in (0, 1852, 185200, 1850148):
                yield {"at": p, "bearing": b, "distance": d}
    for h in range(0, 25000, 10):
        yield {"h": [h, h + 10], "mach": [82, h % 1000]}
    ns = dictionary.numbers(30000)
    for i, n in enumerate(ns):
        for j in (0, 1, 3, 10, 35):
            k = ns[(i + j) % len(ns)]
            yield {"h": [n, k], "mach": [k % 1000, n % 1000]}
            yield {"h": [n + 0.01, n - 0.01 if n else 0.25], "mach": [n % 1000, (n + j) % 1000]}
            yield {"at": [n % 181 - 90, k % 361 - 180], "bearing": n % 361, "distance": 1852 * (k % 1000)}
            yield {"at": [0, 0], "bearing": k % 361, "distance": n}
            yield {"from": [n % 181 - 90, k % 361 - 180], "to": [k % 181 - 90, n % 361 - 180]}
            yield {"from": [n / 30000 * 90, k / 30000 * 180], "to": [-k / 30000 * 90, -n / 30000 * 180]}
        for mx in (90, 180, 360, n):
            yield {"deg": "%03d" % n, "max": mx}
    for x in range(0, 1000):
        for h in (0, 1, 9449, 11000, 15000):
            yield {"h": [h, h + x + 0.5], "mach": [x, 999 - x]}


lat = st.one_of(st.floats(-90, 90), st.integers(-90, 90), st.sampled_from([0, 90, -90, 89.99999, -89.99999, 1e-9, 45]), st.integers(-5400, 5400).map(lambda i: i / 60))
lon = st.one_of(st.floats(-180, 180), st.integers(-180, 180), st.sampled_from([0, 180, -180, 179.99999, -179.99999, 1e-9, 90]), st.integers(-10800, 10800).map(lambda i: i / 60))
point = st.tuples(lat, lon).map(list)
near_ = st.tuples(point, st.floats(-1e-3, 1e-3), st.floats(-1e-3, 1e-3), st.booleans()).map(lambda x: {"from": x[0], "to": [max(-90, min(90, (-x[0][0] if x[3] else x[0][0]) + x[1])), wrap((x[0][1] + 180 if x[3] else x[0][1]) + x[2])]})
height = st.one_of(st.integers(0, 30000), st.floats(0, 30000), st.sampled_from([0, 1, 10999, 11000, 11001, 10999.9, 11000.1, 99990]))
mach = st.one_of(st.integers(0, 999), st.floats(0, 999))


def wrap(x):
    return x - 360 if x > 180 else x + 360 if x < -180 else x


def strategy(tier):
    dist = st.one_of(st.integers(0, 999).map(lambda n: n * 1852), st.floats(0, 1.99e7), st.floats(0, 1000), st.sampled_from([0, 1, 1852, 1e-3]))
    return st.one_of(st.tuples(point, st.one_of(st.integers(0, 360), st.floats(0, 360), st.floats(-180, 180)), dist).map(lambda x: {"at": x[0], "bearing": x[1], "distance": x[2]}), st.tuples(point, point).map(lambda x: {"from": x[0], "to": x[1]}), near_,
                     st.tuples(st.integers(1, 6).flatmap(lambda n: st.text("0123456789", min_size=n, max_size=n)), st.integers(0, 400)).map(lambda x: {"deg": x[0], "max": x[1]}),
                     st.sampled_from([(2, 90), (3, 180)]).flatmap(lambda p: st.lists(st.text("0123456789", min_size=p[0] + 2, max_size=p[0] + 2), min_size=1, max_size=20).map(lambda l: {"dm": l, "max": p[1], "split": p[0]})),
                     st.tuples(height, height, mach, mach).map(lambda x: {"h": [x[0], x[1]], "mach": [x[2], x[3]]}))


def bad(case, text):
    raise Violation("%r: %s" % (case, text))


def measure(a, b, case):
    x = guard(Utils().get_bearing_distance_between_points, a[0], a[1], b[0], b[1], what="measuring %r" % case)
    if len(x) != 2:
        bad(case, "measured %r" % (x,))
    return x


def check(case):
    if "at" in case:
        (la, lo), b, d = case["at"], case["bearing"], case["distance"]
        p = guard(Utils().get_bearing_distance_projected_point, la, lo, b, d, what="projecting %r" % case)
        q = m.GEOD.Direct(la, lo, b, d)
        if len(p) != 2 or not legs.in_range(*p) or abs(p[1]) > 180 or m.inverse(p[0], p[1], q["lat2"], q["lon2"])[1] > 1e-3:
            bad(case, "projected to %r instead of %r" % (p, [q["lat2"], q["lon2"]]))
        brg, dist = measure((la, lo), p, case)
        if not abs(dist - m.inverse(la, lo, p[0], p[1])[1]) <= 1e-3:
            bad(case, "measured back %r m" % dist)
        labels = {"projection"}
        if d <= 1.99e7:                     # shorter than any geodesic that stops being the shortest way
            if not abs(dist - d) <= 1e-3:
                bad(case, "measured back %r m instead of %r" % (dist, d))
            g = m.GEOD.Direct(la, lo, brg, d)
            if m.inverse(g["lat2"], g["lon2"], p[0], p[1])[1] > 1e-3:
                bad(case, "measured back on bearing %r instead of %r" % (brg, b))
            if d > 1000 and abs(la) < 89.9 and d < 1.9e7 and legs.angle_diff(brg, b) > 1e-3:
                bad(case, "measured back on bearing %r instead of %r" % (brg, b))
        if d > 0:
            labels |= {"!", "pole" if abs(la) > 89.9 else "antimeridian" if (p[1] < 0) != (lo < 0) else "plain"}
        return labels
    if "from" in case:
        a, b = case["from"], case["to"]
        brg, dist = measure(a, b, case)
        back = measure(b, a, case)
        msg = legs.leg_error(brg, dist, a[0], a[1], b[0], b[1]) or legs.leg_error(back[0], back[1], b[0], b[1], a[0], a[1])
        if msg:
            bad(case, msg)
        if not abs(dist - back[1]) <= 1e-4:
            bad(case, "%r m one way, %r m back" % (dist, back[1]))
        if not 0 <= dist <= HALF:
            bad(case, "distance %r m" % dist)
        same = legs.same_position(a[0], a[1], b[0], b[1], 0) or abs(a[0]) == 90 and a[0] == b[0]
        if same and not dist <= 1e-6:
            bad(case, "%r m between equal positions" % dist)
        if dist == 0 and not legs.same_position(a[0], a[1], b[0], b[1], 1e-6) and 1 - abs(a[0]) / 90 > 1e-7:
            bad(case, "0 m between different positions")
        return {"points"} if same else {"points", "!", "longer than 19900 km" if dist > 1.99e7 else "shorter than 1 km" if dist < 1000 else "plain"}
    if "deg" in case:
        v, mx = int(case["deg"]), case["max"]
        got = guard(Utils.is_degree_semantics, case["deg"], mx, what="%r" % case)
        if bool(got) != (v <= mx):
            bad(case, "accepted: %r" % got)
        return {"degrees"} | ({"!"} if abs(v - mx) <= 1 else set())
    if "dm" in case:
        labels = {"degrees and minutes"}
        for t in case["dm"]:
            k, mx = case["split"], case["max"]
            d, mi = int(t[:k]), int(t[k:])
            want = mi < 60 and (d < mx or d == mx and mi == 0)
            got = guard(Utils.is_degree_minute_semantics, t, mx, k, what="%r" % t)
            if bool(got) != want:
                bad(case, "%s accepted: %r" % (t, got))
            if abs(d - mx) <= 1 or 58 < mi < 62:
                labels.add("!")
        return labels
    h, mc = case["h"], case["mach"]
    s = [guard(Utils.speed_of_sound_at_altitude, x, what="%r" % case) for x in h]
    for x, v in zip(h, s):
        if not abs(v - m.sound(x)) <= 0.02:
            bad(case, "speed of sound %r instead of %.3f m/s at %r m" % (v, m.sound(x), x))
    lo, hi = (0, 1) if h[0] <= h[1] else (1, 0)
    if h[lo] >= 11000 and s[0] != s[1] and abs(s[0] - s[1]) > 1e-9:
        bad(case, "speed of sound %r and %r above 11,000 m" % tuple(s))
    if h[lo] + 1e-3 < min(h[hi], 11000) and not s[lo] > s[hi] or s[hi] > s[lo] + 1e-9:
        bad(case, "speed of sound %r at %r m but %r at %r m" % (s[lo], h[lo], s[hi], h[hi]))
    for x in h:
        v = [guard(Utils.mach_to_ms_speed, y, x, what="%r" % case) for y in mc]
        for y, z in zip(mc, v):
            if not abs(z - y / 100 * (343.0 if x == 0 else m.sound(x))) <= 1e-6 + abs(y) * 2e-4:
                bad(case, "Mach %.4f is %r m/s at %r m" % (y / 100, z, x))
            if x and not abs(z - y / 100 * s[h.index(x)]) <= 1e-6:
                bad(case, "Mach %.4f is %r m/s, not a multiple of the speed of sound %r" % (y / 100, z, s[h.index(x)]))
        if not abs(v[0] * mc[1] - v[1] * mc[0]) <= 1e-5 * max(1, abs(mc[0] * mc[1])):
            bad(case, "Mach %r is %r, %r is %r: not proportional" % (mc[0], v[0], mc[1], v[1]))
    return {"atmosphere", "!" if h[0] != h[1] else "one height", "at 11,000 m" if h[lo] <= 11000 <= h[hi] else "one layer"}
