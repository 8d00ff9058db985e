"""C06: speed, level and rules apply from their point onward until changed."""
from hypothesis import strategies as st
from lib import compare as c, gen, spaces
from lib.fieldcheck import cases, insert_one, shrink, strategy_of

PID = "C06"
RULE = ("A case is a field. Enumerated: the shared small-scope space of element sequences (lib/spaces.py) with a two-point tail. Generated: well-formed (up to 100 elements), mutated and arbitrary fields. "
        "Speed, level (text and SI) and flight rules of every record are compared with the reference model, and the ADES rules with the record before. Non-trivial: a speed, level or rule change after the first element.")
EXAMPLES = {"quick": 10000, "thorough": 200000}
FIELDS = ("speed", "speed_si", "altitude", "altitude_si", "rules")
CHANGE = ["/ K0800S1100", "/ M080F310", "/ N0100VFR", "VFR", "OAT", "IFPSTOP", "IFR DEF / N0400F300", "GAT DEF", "IFPSTART DEF", "C / DEF / M082F350PLUS", "STAY1 / 0100", "B9 DEF", "DCT DEF", "00N001E", "%%",
          "ABC1A", "IFR DEF", "VFR IFR DEF / N0120VFR", "T"]


def enum(tier):
    import itertools
    yield from cases(spaces.small_scope(tier))
    for k in (1, 2, 3):
        for p in itertools.product(CHANGE, repeat=k):
            yield {"field": " ".join(("N0450F350 ABC",) + p + ("XYZ B9 GHI",))}
            if k < 3:
                yield {"field": " ".join(("N0100VFR TXT",) + p + ("XYZ B9 GHI",))}


def strategy(tier):
    return strategy_of(gen.rare_long(), st.lists(st.sampled_from(CHANGE), min_size=2, max_size=12).map(lambda l: "N0450F350 ABC".split() + " ".join(l).split() + ["XYZ"]), gen.long_route())


def check(case):
    f = case["field"]
    r, e = c.both(f)
    labels = set()
    seen = set()
    for i, (a, x) in enumerate(c.aligned(r, e)):
        if a is None:
            continue
        fields = FIELDS if i < len(e.records) - 1 else ("rules",)
        if i == 0:
            fields = ("speed", "altitude", "rules")
        d = c.diff_fields(a, x, fields, tol=1.0 - 1e-6)
        if d:
            c.show(f, d)
        seen.add((x["speed"], x["altitude"], x["rules"]))
        labels.add("rules " + x["rules"])
    if r.records[-1]["name"] == "ADES" and len(r.records) > 1 and r.records[-1]["rules"] != r.records[-2]["rules"]:
        c.show(f, "the ADES has rules %r and the record before it %r" % (r.records[-1]["rules"], r.records[-2]["rules"]))
    if len(seen) > 2:
        labels.add("!")
    return labels
