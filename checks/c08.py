"""C08: coordinates are decoded exactly and range-checked wherever they occur."""
from hypothesis import strategies as st
from lib import compare as c, gen, refmodel as m, spaces
from lib.fieldcheck import cases, insert_one, shrink, strategy_of

PID = "C08"
RULE = ("A case is a field. Enumerated: every latitude (degrees 00-99, minutes 00-99 at 6 degrees), longitude (000-999, minutes 00-99 at 7 degrees), hemisphere and bearing (000-999) at a point, every whole latitude with every whole longitude, every pair of minutes at 3 positions, plus every boundary value in 17 further places. "
        "Generated: fields rich in coordinate points of any value. Each coordinate point's record, its decimal coordinates (without projection), the validity mark of every record and the exact list of range errors "
        "are compared with the reference model. Non-trivial: the field has a coordinate point, or a bearing out of range.")
EXAMPLES = {"quick": 8000, "thorough": 150000}
RANGE = {42, 43, 44, 45, 46}
PLACES = ["N0450F350 {p}", "N0450F350 ABC {p} DEF", "N0450F350 ABC DCT {p} DCT DEF", "N0450F350 ABC B9 {p}", "N0450F350 SID {p}", "N0450F350 ABC1A {p} DEF", "N0450F350 ABC C/{p}/N0450F310F350 DEF", "N0450F350 ABC B9 DEF C/{p}/N0450F310PLUS",
          "N0450F350 ABC VFR IFR {p}/N0450F350 DEF", "N0450F350 ABC OAT GAT {p} DEF", "N0450F350 ABC IFPSTOP IFPSTART {p}", "N0450F350 ABC/N0100VFR IFR {p}/N0200VFR IFR {p}/N0450F350 DEF", "N0100VFR IFR {p}/N0450F350", "N0450F350 ABC %% {p} DEF",
          "N0450F350 ABC %% /{p} DEF", "{p} DEF", "N0450F350 {p}/N0440F340 {p} STAY1/0100 {p} T", "N0450F350 ABC VFR IFR {p} DEF", "N0450F350 ABC IFR {p} /N0450F350", "N0450F350 {p} {p} {p}", "N0450F350 ABC C {p} DEF"]


def enum(tier):
    yield from cases(spaces.composed(tier, wide=True))
    pts = []
    for h in range(4):
        ns, ew = "NS"[h % 2], "EW"[h // 2]
        pts += ["%02d%s%03d%s" % (d, ns, (d * 37 + 11) % 181, ew) for d in range(100)]
        pts += ["%02d%s%03d%s" % ((d * 7) % 91, ns, d, ew) for d in range(1000)]
        pts += ["%02d%02d%s%03d%02d%s" % (d, mi, ns, (d * 3 + mi) % 180, mi % 60, ew) for d in (0, 1, 45, 89, 90, 91, 99) for mi in range(100)]
        pts += ["%02d%02d%s%03d%02d%s" % (d % 90, (mi + 7) % 60, ns, d, mi, ew) for d in (0, 1, 45, 99, 100, 179, 180, 181, 999) for mi in range(100)]
        pts += ["%02d%02d%s%03d%02d%s" % (d % 90, d % 60, ns, d, (d * 7) % 60, ew) for d in range(0, 1000)]
    for b in range(1000):
        pts += ["%02d%s%03d%s%03d%03d" % (b % 91, "NS"[b % 2], b % 181, "EW"[b // 2 % 2], b, (b * 7) % 1000), "ABC%03d%03d" % (b, (b * 7) % 1000)]
        pts.append("%02d%02d%s%03d%02d%s%03d%03d" % (b % 90, b % 60, "NS"[b % 2], b % 180, b % 60, "EW"[b // 2 % 2], b, (b * 11) % 1000))
    yield from cases(spaces.slots(["N0450F350 {0} DCT {1} ABC B9 DEF {2}", ] if tier == "quick" else ["N0450F350 {0} DCT {1} ABC C/{2}/N0450F350PLUS VFR IFR {3}/N0440F330 {4}", "N0450F350 {0} {1} %% {2} {3} OAT GAT {4}"], pts, (0, 7, 1013, 501, 2003)))
    grid = ["%02d%s%03d%s" % (a, "NS"[(a + o + h) % 2], o, "EW"[(a // 2 + o // 3 + h // 2) % 2]) for h in range(1 if tier == "quick" else 4) for a in range(92) for o in range(182)]
    grid += ["%02d%02d%s%03d%02d%s" % (d, a, "NS"[(a + o + h) % 2], e, o, "EW"[(a // 2 + o // 3 + h // 2) % 2]) for h in range(1 if tier == "quick" else 4) for d, e in ((0, 0), (51, 4), (89, 179)) + (() if tier == "quick" else ((90, 180), (45, 90), (9, 99))) for a in range(61) for o in range(61)]
    for i in range(0, len(grid), 8):
        yield {"field": "N0450F350 " + " ".join(grid[i:i + 8])}
    edge = ["%02d%s%03d%s" % (a, n, o, w) for a in (0, 89, 90, 91, 99) for o in (0, 179, 180, 181, 360) for n, w in ("NE", "SW")]
    edge += ["%04d%s%05d%s" % (a, n, o, w) for a in (0, 59, 60, 8959, 9000, 9001, 8960, 9060, 9100) for o in (0, 59, 60, 17959, 18000, 18001, 17960, 18100) for n, w in ("NW", "SE")]
    edge += [x + b for x in ("45N120E", "91S181W", "4530N12015W", "9001S18001E") for b in ("000050", "360050", "361050", "999999")] + ["ABC%s" % b for b in ("360050", "361050", "000000")]
    for p in PLACES:
        for t in edge:
            yield {"field": p.format(p=t)}
    yield from cases(spaces.pairs(["0090N18000W", "91N001E", "4560S00100E", "00N181W370050", "ABC370050", "45S090W"] + gen.REPS, [["N0450F350"], ["N0450F350", "ABC"]], length=2))


def strategy(tier):
    el = st.one_of(gen.coord_any, gen.coord_any, gen.bd_any).map(lambda t: [t])
    r = gen.rare_long()
    return strategy_of(insert_one(r, el), insert_one(insert_one(gen.valid_route(), el), el), gen.valid_route(points=gen.coord_any), gen.mutated_route(points=gen.point_any))


def check(case):
    f = case["field"]
    r, e = c.both(f)
    labels = set()
    for a, x in c.aligned(r, e):
        if x["valid"]:
            labels |= {"!", x["sub"], x["name"][-1] if x["sub"][:3] == "LL_" else "bearing/distance"}
            if a is None:
                c.show(f, "the point %s is not recorded" % c.brief(x))
            if x["sub"][:3] == "LL_":
                d = c.diff_fields(a, x, ("lat", "lon"), 1e-9)
                if d:
                    c.show(f, d)
        if a is not None and bool(a["valid"]) != x["valid"]:
            c.show(f, "%s is%s marked as having coordinates" % (c.brief(a), "" if a["valid"] else " not"))
    for a in c.extras(r, e):
        if m.classify(a["name"])[1] in ("LL_DEG", "LL_MIN", "LLBD_DEG", "LLBD_MIN") and a["valid"]:
            c.show(f, "the point %s is recorded where it should not be" % c.brief(a))
    got, want = sorted(c.errors_with(r, RANGE)), sorted(c.model_errors_with(e, RANGE))
    if got != want:
        c.show(f, "range errors %r instead of %r" % (got, want))
    labels |= {"E%d" % n[3] for n in want}
    if want:
        labels.add("!")
    return labels
