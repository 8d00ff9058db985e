"""C13: derived flight rules and endpoint rules follow from the route."""
import itertools
from hypothesis import strategies as st
from lib import compare as c, gen, spaces
from lib.fieldcheck import cases, shrink, strategy_of

PID = "C13"
RULE = ("A case is a field. Enumerated: the shared small-scope space, and all sequences up to length 4 (5) of 16 rule changing elements. Generated: well-formed, mutated and arbitrary fields. Derived rules and the rules of the ADEP and ADES "
        "are compared with the reference model and with the law stated on the code's own records. Non-trivial: derived rules other than I, or more than one set of rules in the route.")
EXAMPLES = {"quick": 8000, "thorough": 150000}
EL = ["VFR", "OAT", "IFPSTOP", "IFR DEF / N0400F300", "GAT DEF", "IFPSTART DEF", "/ N0100VFR", "/ N0400F300", "B9 DEF", "IFR DEF / N0120VFR", "C / DEF / N0400F300PLUS", "%%", "ABC1A", "IFR", "T", "IFR DEF"]


def enum(tier):
    yield from cases(["", " ", "\n", "/", "VFR", "IFR"])
    yield from cases(spaces.small_scope(tier))
    for s in ("N0450F350 ABC", "N0100VFR", "N0100VFR TXT", "N0450F350", "ABC", "N0450F350 SID"):
        for k in range(0, 4 if tier == "quick" else 5):
            for p in itertools.product(EL, repeat=k):
                yield {"field": " ".join((s,) + p)}


def strategy(tier):
    return strategy_of(gen.rare_long(), st.lists(st.sampled_from(EL), max_size=14).flatmap(lambda l: st.sampled_from(["N0450F350 ABC", "N0100VFR", "M080VFR X", "N0450F350", "%%"]).map(lambda s: s.split() + " ".join(l).split())))


def check(case):
    f = case["field"]
    r, e = c.both(f)
    labels = {"derived " + e.derived}
    if r.derived != e.derived:
        c.show(f, "derived flight rules %r instead of %r" % (r.derived, e.derived))
    if not r.records or r.records[0]["name"] != "ADEP" or r.records[-1]["name"] != "ADES":
        c.show(f, "the sequence is not framed by ADEP and ADES: %r" % c.names(r.records))
    if r.records[0]["rules"] != e.records[0]["rules"]:
        c.show(f, "the rules of the ADEP are %r instead of %r" % (r.records[0]["rules"], e.records[0]["rules"]))
    if r.records[-1]["rules"] != e.records[-1]["rules"]:
        c.show(f, "the rules of the ADES are %r instead of %r" % (r.records[-1]["rules"], e.records[-1]["rules"]))
    rules = [x["rules"] for x in r.records]
    want = "" if not e.toks else ("Z" if "IFR" in rules else "V") if rules[0] == "VFR" else "Y" if "VFR" in rules else "I"
    if r.derived != want:
        c.show(f, "derived flight rules %r, but the records have the rules %r" % (r.derived, rules))
    if e.toks:
        first = e.toks[0].base
        if (rules[0] == "VFR") != (first == "SPEED_VFR") or (first == "SPEED_ALTITUDE" and rules[0] != "IFR"):
            c.show(f, "the ADEP has rules %r after the first element %s" % (rules[0], e.toks[0].name))
    if e.derived != "I" or len(set(rules)) > 1:
        labels.add("!")
    return labels
