"""C11: a STAY time is attached in minutes to the point it follows, and only there."""
import itertools
from hypothesis import strategies as st
from lib import compare as c, gen, spaces
from lib.fieldcheck import cases, insert_one, shrink, strategy_of

PID = "C11"
RULE = ("A case is a field. Enumerated: every 4-digit string as time and every indicator STAY0-STAY9 (thorough: all 14,400 combinations) in 4 places; every element type before, within and after a stay; two or three stays of one point with every mix of ordinary, zero and impossible times. "
        "Generated: well-formed, mutated and arbitrary fields with stays put in. Stay minutes of every record, absence of records for the stay's parts, and the errors about stays are compared with the reference model. "
        "Non-trivial: a complete stay, or an error due about one.")
EXAMPLES = {"quick": 8000, "thorough": 150000}
STAY_ERR = {35, 36, 37, 38, 39}


def enum(tier):
    yield from cases(spaces.composed(tier, wide=True))
    for i in range(10000):
        t = "%04d" % i
        yield {"field": "N0450F350 ABC STAY%d/%s DEF STAY%d/%04d GHI" % (i % 10, t, (i + 3) % 10, (i * 7 + 59) % 2400)}
    for i in range(1440):
        t = "%02d%02d" % divmod(i, 60)
        for j in range(10) if tier == "thorough" else (i % 10, (i + 5) % 10):
            yield {"field": "N0450F350 00N001E/N0440F340 STAY%d/%s DCT DEF VFR X IFR GHI/N0450F350 STAY%d/%s" % (j, t, 9 - j, t)}
    R = gen.REPS
    for a in R:
        yield {"field": "N0450F350 ABC %s STAY1/0130 DEF" % a}
        yield {"field": "N0450F350 %s STAY1/0130 DEF" % a}
        yield {"field": "%s STAY1/0130 DEF" % a}
        for b in R:
            for pat in ("N0450F350 ABC STAY1 {a} {b} DEF", "N0450F350 ABC STAY1/{a} {b} DEF", "N0450F350 ABC STAY1/0130 {a} {b}", "N0450F350 ABC {a} STAY1/0130 {b}", "N0450F350 ABC STAY1 {a} 0130 {b} DEF", "N0450F350 {a} {b} STAY2/0130 STAY3/0001 DEF"):
                yield {"field": pat.format(a=a, b=b)}
    for a in ("0000", "0001", "0059", "0100", "0130", "2359", "2400", "0060", "013", "01300"):
        for b in ("0000", "0001", "0130", "2359", "2400", "0060"):
            for p in ("STAY1/{a} STAY2/{b}", "STAY1/{a} STAY1/{b}", "STAY1/{a} %% STAY2/{b}", "STAY1/{a}/{b}", "STAY1/{a} /N0440F340 STAY2/{b}", "/N0440F340 STAY1/{a} STAY2/{b} STAY3/{a}", "STAY1 STAY2/{a} DEF STAY3/{b}"):
                yield {"field": "N0450F350 ABC %s GHI" % p.format(a=a, b=b)}
                yield {"field": "N0450F350 00N001E DCT 01N001E %s" % p.format(a=a, b=b)}
    S = ["STAY1", "STAY9", "/", "0102", "2400", "ABC", "B9", "%%", "IFR", "0000"]
    yield from cases(spaces.pairs(S, [["N0450F350", "ABC"]], length=4 if tier == "quick" else 6))
    yield from cases(spaces.pairs(gen.REPS, [["N0450F350", "ABC", "STAY1"], ["N0450F350", "ABC", "STAY1", "/"], ["N0450F350", "ABC", "STAY1", "/", "0130"]], length=2))


def strategy(tier):
    el = st.one_of(gen.stay_el(), gen.stay_el(), st.tuples(st.sampled_from(gen.STAYS), gen.any_token, gen.any_token).map(list), st.tuples(st.sampled_from(gen.STAYS), st.just("/"), gen.any_token).map(list), gen.stay_time.map(lambda t: [t]))
    r = gen.rare_long()
    return strategy_of(insert_one(r, el), insert_one(gen.valid_route(), el), insert_one(insert_one(gen.valid_route(), el), el))


def check(case):
    f = case["field"]
    r, e = c.both(f)
    labels = set()
    starts = {a["start"]: a for a in r.records[1:-1]}
    for t in e.toks:
        if t.base in ("STAY", "STAY_TIME") and t.role != "text":
            if t.role == "stay":
                labels |= {"!", "stay"}
            if t.start in starts and starts[t.start]["name"] == t.name:
                c.show(f, "the stay part %s is recorded" % t.name)
    for a, x in c.aligned(r, e):
        if x["stay"]:
            labels.add("stay at " + x["base"])
            if a is None:
                c.show(f, "%s, which has a stay, is not recorded" % c.brief(x))
        if a is not None and a["stay"] != x["stay"]:
            c.show(f, "the stay at %s is %r minutes instead of %r" % (c.brief(a), a["stay"], x["stay"]))
    for a in c.extras(r, e):
        if a["stay"]:
            c.show(f, "%s has a stay of %r minutes" % (c.brief(a), a["stay"]))
    got = c.errs(r.errors)
    for x in e.errors:
        if x["state"] == "STAY" or x["num"] in STAY_ERR:
            labels |= {"!", "E%d" % x["num"]}
            if (x["name"], x["start"], x["end"], x["error_text"]) not in got:
                c.show(f, "not reported: %r" % x["error_text"])
    got, want = sorted(c.errors_with(r, STAY_ERR)), sorted(c.model_errors_with(e, STAY_ERR))
    if got != want:
        c.show(f, "errors about stays %r instead of %r" % (got, want))
    return labels
