"""C15: ill-formed element sequences are rejected with the documented error."""
import itertools
from hypothesis import strategies as st
from lib import compare as c, gen, spaces
from lib.fieldcheck import cases, insert_one, shrink, strategy_of

PID = "C15"
RULE = ("A case is a field. Enumerated: the shared small-scope space (every context with all pairs of element types, triples after three contexts), every context followed by each of 130 spellings of element, and every context with an ill-formed element followed by well-formed "
        "ones. Generated: mutated well-formed routes and arbitrary sequences. When the documented tables reject the field the parse must fail, the first error must be the documented message on the right element, and "
        "the records before it must be as expected. Non-trivial: the field is ill-formed.")
EXAMPLES = {"quick": 10000, "thorough": 200000}


def enum(tier):
    yield from cases(spaces.small_scope(tier))
    spell = sorted(set(gen.REPS + gen.ROUTES + gen.SIDSTARS + gen.STAYS + gen.TIMES + gen.UNKNOWN + gen.TOO_LONG + gen.LLS[::5] + [s + l for s in ("N0450", "K0800", "M082") for l in ("F350", "A045", "S1130", "M0840", "VFR", "F310S1130", "A045PLUS")]))
    for x in spaces.CONTEXTS:
        for t in spell:
            yield {"field": " ".join(x + [t])}
            yield {"field": " ".join(x + [t, "DEF"])}


def strategy(tier):
    bad = gen.any_token.map(lambda t: [t])
    return strategy_of(gen.mutated_route(), gen.mutated_route(max_edits=1), gen.soup(), gen.core_soup(), insert_one(gen.long_route(), bad))


def check(case):
    f = case["field"]
    r, e = c.both(f)
    if e.ok:
        return {"well-formed"}
    first = e.errors[0]
    labels = {"!", "%s:E%d" % (first["state"], first["num"])}
    if r.ok or not r.errors:
        c.show(f, "accepted, although %r is due at %s" % (first["error_text"], c.brief(first)))
    a = r.errors[0]
    if c.errs([a]) != c.errs([first]):
        c.show(f, "the first error is %r at %s instead of %r at %s" % (a["error_text"], c.brief(a), first["error_text"], c.brief(first)))
    before = [(x["name"], x["start"], x["end"], x["base"], x["sub"], x["rules"]) for x in e.records[1:-1] if x["start"] < first["start"]]
    got = [(x["name"], x["start"], x["end"], x["base"], x["sub"], x["rules"]) for x in r.records[1:-1] if x["start"] < first["start"]]
    if before != got:
        c.show(f, "before the error at %s the records are %r instead of %r" % (c.brief(first), got, before))
    return labels
