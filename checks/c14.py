"""C14: every well-formed route is accepted and extracted exactly."""
import itertools
from hypothesis import strategies as st
from lib import compare as c, gen, refmodel as m, spaces
from lib.fieldcheck import shrink

PID = "C14"
RULE = ("A case is a field built by the documented grammar in any layout: generated from the grammar (up to 100 elements), and every member of the enumerated spaces that the grammar (reference model) accepts; all routes of up to 4 "
        "segments from 13 kinds are enumerated. The field must be accepted without errors and every attribute of every record must be the expected one. Non-trivial: three records or more between ADEP and ADES.")
EXAMPLES = {"quick": 12000, "thorough": 250000}
FIELDS = ("name", "start", "end", "base", "sub", "altitude", "altitude_si", "speed", "speed_si", "rules", "stay", "break_text", "error_text", "cruise_to", "cruise_to_si", "lat", "lon", "valid")
SEG = ["DEF", "DCT GHI", "B9 JKL", "00N001E", "DCT 0130S00230W", "/N0440F340 MNO", "STAY1/0130 PQR", "C/STU/M082F310F350", "C/01N002E/K0800S1100PLUS", "VFR X IFR VWX/N0450F350", "OAT B9 GAT YZA", "IFPSTOP IFPSTART BCD", "C EFG", "/N0100VFR T IFR HIJ/M080A100",
       "NATA KLM", "01N002E090050 NOP"]
HEAD = ["N0450F350 ABC", "M082S1130 SID ABC", "K0800M0840 ABC1A ABC", "N0450A045 DCT ABC", "N0100VFR IFR ABC/N0450F350", "N0450F350 KONAN1 B9 ABC", "N0450F350 EGLL"]
END = ["", "T", "STAR", "KONAN9Z", "VFR", "OAT TXT", "IFPSTOP", "STAY9/2359", "/N0100VFR TXT", "VFR X IFR VWX/N0100VFR", "B9", "DCT", "C", "/N0300F100"]


def enum(tier):
    def ok(f):
        return m.Model(f).ok
    for h in HEAD:
        for k in range(0, 3 if tier == "quick" else 4):
            for s in itertools.product(SEG, repeat=k):
                for e in END if k < 2 or tier == "thorough" else END[:5]:
                    f = " ".join((h,) + s + (e,)).strip()
                    if ok(f):
                        yield {"field": f}
    for s in itertools.product(SEG, repeat=3):
        f = " ".join(("N0450F350 ABC",) + s)
        if ok(f):
            yield {"field": f}
    for f in itertools.chain(spaces.composed(tier), spaces.pairs(gen.REPS_CORE, spaces.CONTEXTS[:12], length=2)):
        if ok(f):
            yield {"field": f}
    for f in ["N0450F350 ABC " + "DEF " * 97, "N0450F350 " + "ABC B9 " * 49, "N0450F350 " + "00N001E DCT 01N001E " * 33, "N0100VFR " + "TEXT " * 98, "N0450F350 ABC VFR " + "B9 " * 95 + "IFR XYZ/N0450F350"]:
        yield {"field": f.strip()}


def strategy(tier):
    return gen.laid_out(st.one_of(gen.valid_route(), gen.valid_route(max_legs=15), gen.long_route(), gen.valid_route(coords=False))).map(lambda f: {"field": f})


def check(case):
    f = case["field"]
    r, e = c.both(f)
    if not e.ok:
        return {"not well-formed"}          # only while shrinking
    if not r.ok or r.n_errors or r.errors:
        c.show(f, "a well-formed route is rejected: %r" % [x["error_text"] for x in r.errors])
    if len(r.records) != len(e.records):
        c.show(f, "records %r instead of %r" % (c.names(r.records), c.names(e.records)))
    for a, x in zip(r.records, e.records):
        d = c.diff_fields(a, x, FIELDS, 1e-6)
        if d:
            c.show(f, d)
    labels = {"has " + x for x in set(e.trace)}
    labels.add("records:%d" % (len(e.records) // 5 * 5))
    if len(e.records) > 4:
        labels.add("!")
    return labels
