"""C18: nothing in the field is lost, duplicated or invented."""
from hypothesis import strategies as st
from lib import compare as c, gen, refmodel as m, spaces
from lib.fieldcheck import any_separators, cases, insert_one, shrink, strategy_of

PID = "C18"
RULE = ("A case is a field. Enumerated: the shared small-scope space. Generated: well-formed (up to 100 elements), mutated and arbitrary fields in any layout. Every record and error must be an element at its recorded position, none twice, in source order; "
        "an accepted field must be reproduced element by element from records, break texts, speeds, levels, targets and stays; in a rejected field every point, ATS route and DCT outside break sections must be recorded or reported. "
        "Non-trivial: an accepted field of four elements or more, or a rejected one with a point, route or DCT.")
EXAMPLES = {"quick": 10000, "thorough": 200000}


def enum(tier):
    yield from cases(spaces.small_scope(tier))


def strategy(tier):
    return any_separators(strategy_of(gen.rare_long(), gen.valid_route(), gen.mutated_route(), gen.long_route(), gen.core_soup(), insert_one(gen.long_route(), gen.any_token.map(lambda t: [t]))))


def reproduce(f, toks, recs):
    """Walk the elements of an accepted field, explaining each from the records; returns what is unexplained or None."""
    by = {x["start"]: x for x in recs[1:-1]}
    rec, i, n = recs[0], 0, len(toks)

    def base(j):
        return m.classify(toks[j][0])[0] if j < n else None

    def change(j):
        """The last of a chain of changes '/ SPEED LEVEL' at one point wins."""
        return base(j + 1) == "SLASH" and base(j + 2) in ("SPEED_ALTITUDE", "SPEED_VFR")
    while i < n:
        t, s, end = toks[i]
        b = base(i)
        if b == "SPEED_VFR":
            x = by.get(s)
            if x is None or x["name"] != "VFR":
                return "%s has no VFR record" % t
            if x["speed"] + x["name"] != t or x["altitude"] != "F050" or rec["speed"] != x["speed"]:
                return "%s is recorded with speed %r, level %r" % (t, x["speed"], x["altitude"])
            rec = x
        elif s in by and by[s]["name"] == t:
            rec = by[s]
        elif b == "SPEED_ALTITUDE":
            if rec["speed"] + rec["altitude"] != t and not change(i):
                return "%s is nowhere, %s has %s%s" % (t, c.brief(rec), rec["speed"], rec["altitude"])
            i += 1
            continue
        elif b in ("SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"):
            if rec["speed"] + rec["altitude"] + rec["cruise_to"] != t and not change(i):
                return "%s is nowhere, %s has %s%s%s" % (t, c.brief(rec), rec["speed"], rec["altitude"], rec["cruise_to"])
            i += 1
            continue
        elif b == "STAY" and base(i + 1) == "SLASH" and base(i + 2) == "STAY_TIME":
            hhmm = toks[i + 2][0]
            again = base(i + 3) == "STAY"
            if rec["stay"] != int(hhmm[:2]) * 60 + int(hhmm[2:]) and not again:
                return "stay %s is nowhere, %s has %r minutes" % (hhmm, c.brief(rec), rec["stay"])
            i += 3
            continue
        elif b == "SLASH" or b == "TRUNCATE" and i == n - 1 or b == "C" and base(i + 1) == "SLASH":
            i += 1
            continue
        else:
            return "%s at %d is nowhere" % (t, s)
        i += 1
        if rec["base"] in ("BREAK_START", "SPEED_VFR"):
            words = []
            while i < n and not (toks[i][1] in by and by[toks[i][1]]["name"] == toks[i][0]):
                words.append(toks[i][0])
                i += 1
            if rec["break_text"] != " ".join(words):
                return "the break text of %s is %r instead of %r" % (c.brief(rec), rec["break_text"], " ".join(words))
        elif rec["break_text"]:
            return "%s has the break text %r" % (c.brief(rec), rec["break_text"])
    return None


def check(case):
    f = case["field"]
    r, e = c.both(f, case.get("ws", c.WS))
    toks = [(t.name, t.start, t.end) for t in e.toks]
    spans = set(toks)
    seen = set()
    for x in r.records[1:-1]:
        name = x["name"]
        if c.key(x) not in spans:
            src = f[x["start"]:x["end"]]
            if not (name == "VFR" and (src, x["start"], x["end"]) in spans and m.classify(src)[0] == "SPEED_VFR"):
                c.show(f, "the record %s is not an element of the field" % c.brief(x))
        if x["start"] in seen:
            c.show(f, "%s is recorded twice" % c.brief(x))
        seen.add(x["start"])
    order = [x["start"] for x in r.records[1:-1]]
    if order != sorted(order):
        c.show(f, "records are not in source order: %r" % c.names(r.records))
    for x in r.errors:
        if c.key(x) not in spans and toks:
            c.show(f, "the error %r is on %s, which is not an element of the field" % (x["error_text"], c.brief(x)))
    labels = {"accepted" if r.ok else "rejected"} | ({"other separators"} if "ws" in case else set())
    if r.ok:
        lost = reproduce(f, toks, r.records)
        if lost:
            c.show(f, "accepted, but " + lost)
        if len(toks) > 3:
            labels.add("!")
    else:
        err = {x["start"] for x in r.errors}
        for t in e.toks:
            if t.base in ("POINT", "ROUTE", "DCT") and t.role is None:
                labels.add("!")
                if t.start not in seen and t.start not in err:
                    c.show(f, "%s at %d is neither recorded nor reported" % (t.name, t.start))
    return labels
