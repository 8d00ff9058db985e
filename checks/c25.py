"""C25: SID and STAR are recognised by position and reported elsewhere."""
import itertools
from hypothesis import strategies as st
from lib import compare as c, gen, spaces
from lib.fieldcheck import cases, insert_one, shrink, strategy_of

PID = "C25"
RULE = ("A case is a field. Enumerated: a name of every SID/STAR shape and both literals at every position of 14 routes (alone, in pairs, doubled), preceded and followed by each of 41 element types, after every context, and every segment before every part of a route (composed space). Generated: names of any such shape put into long well-formed, "
        "mutated and arbitrary routes. Judged against the documented tables: whether each such element is recorded and as a SID, STAR, or unresolved; every error about a SID or STAR or about what follows one; and, when there is one, all records and errors after it. "
        "Non-trivial: a SID, STAR or error about one is due.")
EXAMPLES = {"quick": 10000, "thorough": 200000}
FAMILY = ("SID_STAR", "SID", "STAR")
NAMES = [p + s for p in ("ABC", "KON", "NAT", "SID", "PTS") for s in ("1A", "12A")] + ["ABCDE1", "KONAN7", "ABCDE12", "STARS99", "ABCD1A", "STAR1A", "NATAB1A"[:6], "ABCDE1A", "PETOX7W", "ABCDEF1A", "XXXXXX9Z", "ABCDE12A", "KONAN00Z", "SID", "STAR"]
ROUTES = ["N0450F350", "N0450F350 ABC", "N0450F350 DCT", "N0450F350 ABC B9 DEF", "N0450F350 00N001E DCT 00N002E", "M082F350 ABC DCT DEF/N0400F300 B9 GHI STAY1/0130 JKL", "N0450F350 ABC VFR TXT IFR DEF/N0300F100 GHI", "N0450F350 ABC C/DEF/N0450F310F350 GHI T",
          "N0100VFR TXT IFR ABC/N0450F350 DEF", "N0450F350 ABC OAT TXT GAT DEF", "N0450F350 ABC %% DEF", "N0450F350 ABC370050 B9 01N002E090050", "ABC DEF", "N0450F350 ABC B9 DEF UL1A GHI DCT JKL"]


def tokens(f):
    return f.replace("/", " / ").split()


def enum(tier):
    some = ["ABC1A", "KONAN7", "SID", "STAR"]
    for f in ROUTES:
        t = tokens(f)
        for i in range(len(t) + 1):
            for n in NAMES:
                yield {"field": gen.plain(t[:i] + [n] + t[i:])}
            for a, b in itertools.product(some, some):
                yield {"field": gen.plain(t[:i] + [a, b] + t[i:])}
                for j in range(i, len(t) + 1):
                    yield {"field": gen.plain(t[:i] + [a] + t[i:j] + [b] + t[j:])}
    for n in some:
        for x in spaces.CONTEXTS:
            for a in gen.REPS:
                yield {"field": " ".join(x + [n, a])}
                yield {"field": " ".join(x + [a, n])}
                yield {"field": " ".join(x + [n, a, "DEF", "B9", "GHI"])}
    for n in NAMES:
        for a in gen.REPS:
            for b in ([], ["ABC"], ["B9"]):
                yield {"field": " ".join(["N0450F350", n, a] + b)}
                yield {"field": " ".join(["N0450F350"] + b + [a, n])}
    yield from cases(spaces.composed(tier))
    if tier == "thorough":
        yield from cases(" ".join(list(x) + list(p)) for x in spaces.CONTEXTS for p in itertools.product(gen.REPS, some, gen.REPS))
        yield from cases(" ".join(["N0450F350"] + list(p)) for p in itertools.product(some, gen.REPS, gen.REPS_CORE, gen.REPS_CORE))


fam = st.one_of(gen.sid_star, gen.sid_star, st.sampled_from(["SID", "STAR"]), st.sampled_from(NAMES)).map(lambda t: [t])


def strategy(tier):
    some = st.one_of(gen.rare_long(), gen.mutated_route(), gen.core_soup(), gen.valid_route(max_legs=4))
    end = st.tuples(gen.valid_route(max_legs=4), fam, st.booleans()).map(lambda x: x[0] + x[1] if x[2] else x[0][:1] + x[1] + x[0][1:])
    return strategy_of(insert_one(some, fam), insert_one(insert_one(some, fam), fam), end, insert_one(end, fam))


def about(x):
    return x["num"] in (30, 31, 32, 34, 54) or x["state"] in ("SID", "SID_STAR", "STAR", "POST_SID")


def check(case):
    f = case["field"]
    r, e = c.both(f)
    labels = set()
    mine = {(t.name, t.start, t.end): t for t in e.toks if t.base in FAMILY}
    want = {c.key(x): x for x in e.records[1:-1]}
    got = {}
    for x in r.records[1:-1]:
        got.setdefault(c.key(x), []).append(x)
    for k, t in mine.items():
        n, w = len(got.get(k, ())), want.get(k)
        if n != (1 if w else 0):
            c.show(f, "%s[%d:%d] is recorded %d times" % (k + (n,)))
        if w:
            a = got[k][0]
            if (a["base"], a["sub"]) != (w["base"], w["sub"]):
                c.show(f, "%s is recorded as %s/%s instead of %s/%s" % (c.brief(a), a["base"], a["sub"], w["base"], w["sub"]))
            labels |= {"!", "%s as %s/%s" % (t.base, w["base"], w["sub"])}
    for x in r.records[1:-1]:
        if x["base"] in FAMILY and c.key(x) not in mine:
            c.show(f, "%s is recorded as %s/%s" % (c.brief(x), x["base"], x["sub"]))
    due = [x for x in e.errors if about(x)]
    places = {(x["name"], x["start"], x["end"]) for x in due}
    we = sorted((x["name"], x["start"], x["end"], x["error_text"]) for x in e.errors if c.key(x) in places or x["num"] in (30, 31, 32, 34, 54))
    ge = sorted((x["name"], x["start"], x["end"], x["error_text"]) for x in r.errors if c.key(x) in places or c.message_num(x) in (30, 31, 32, 34, 54))
    if we != ge:
        c.show(f, "errors about SID and STAR %r instead of %r" % (ge, we))
    for x in due:
        labels |= {"!", "%s:E%d" % (x["state"], x["num"])}
    if due:
        at = min(x["start"] for x in due)
        a, b = [c.brief(x) for x in r.records[1:-1] if x["start"] >= at], [c.brief(x) for x in e.records[1:-1] if x["start"] >= at]
        if a != b:
            c.show(f, "from the violation at %d on, records %r instead of %r" % (at, a, b))
        if c.errs([x for x in r.errors if x["start"] >= at]) != c.errs([x for x in e.errors if x["start"] >= at]):
            c.show(f, "from the violation at %d on, errors %r instead of %r" % (at, c.errs(r.errors), c.errs(e.errors)))
        if b:
            labels.add("records after a violation")
    return labels
