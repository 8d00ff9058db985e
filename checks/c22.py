"""C22: the XML output is well formed and says what the result holds."""
import xml.etree.ElementTree as ET
import itertools
from hypothesis import strategies as st
from lib import compare as c, dictionary, gen, spaces, sut
from lib.sut import Violation

PID = "C22"
RULE = ("A case is a field, or a sequence of records built through the setters with arbitrary values. The XML is read back with an independent parser and compared element by element and attribute by attribute with what the result's getters hold. Enumerated: "
        "every context with every element type and with 60 odd texts (markup, quotes, control characters, non-BMP), in routes, break texts and errors; every element type, segment and part repeated up to 98 times, results of 300 records; every constant of the code under test as element, text and value. Generated: arbitrary fields and records. Characters XML cannot "
        "express must come back as U+FFFD. Non-trivial: a break text, an error, coordinates or a markup character is present.")
EXAMPLES = {"quick": 6000, "thorough": 100000}
ODD = ["<", ">", "&", "\"", "'", "&amp;", "<b>", "]]>", "</ers>", "<!--", "-->", "<![CDATA[", "<?x?>", "&#65;", "&lt;&gt;", "a<b>&\"c'", "A&B", "\x00", "\x01\x1f", "\x0b\x0c", "\x7f", "\x85", "\u2028", "\u00e9", "\u20ac", "\U0001f600", "\ufffe", "\uffff",
       "%%", "X" * 26, "<" * 30, "&" * 26, "\"" * 27, "A=\"B\"", "%s", "{0}", "\\", "!", "a!b<c", "\u0000A", "\ud7ff", "\ue000"]
ATTRS = [("start_index", "start", "%d"), ("end_index", "end", "%d"), ("speed", "speed", None), ("speed_si", "speed_si", "%.2f"), ("altitude", "altitude", None), ("altitude_si", "altitude_si", "%.2f"), ("bearing", "bearing", "%.2f"), ("distance", "distance", "%.2f"),
         ("flight_rules", "rules", None), ("stay_time", "stay", "%d"), ("altitude_cruise_to", "cruise_to", None), ("altitude_cruise_to_si", "cruise_to_si", "%.2f"), ("latitude", "lat", "%.2f"), ("longitude", "lon", "%.2f")]


def enum(tier):
    R = gen.REPS + gen.KEYWORDS
    for x in spaces.CONTEXTS:
        for t in ODD + R:
            yield {"field": " ".join(x + [t, "DEF", t])}
    for a in ODD:
        for b in ODD[:12]:
            yield {"field": "N0450F350 ABC VFR %s %s IFR DEF/N0400F300 %s" % (a, b, a)}
    yield {"field": ""}
    for f in spaces.repeated(tier):
        yield {"field": f}
    for f in itertools.chain(dictionary.fields(tier), spaces.mixtures(tier), spaces.varied(tier), spaces.odd(tier)):
        yield {"field": f}
    yield from pairwise()
    for i, t in enumerate(dictionary.texts()):
        yield {"records": [dict(FULL, name=t, start=1, end=2, text=t, stay=i % 1440, error=e) for e in (False, True)]}
    for n in dictionary.numbers(20000):
        yield {"records": [dict(FULL, name="ABC", start=n, end=n + 1, text="", stay=n % 1440, error=e, **{k: n * q for k in NUM}) for e in (False, True) for q in (1, -1, 0.01)]}
    for n in (1, 30, 300):
        for a in ODD[:16]:
            yield {"records": [dict(FULL, name="%s%d" % (a, i), start=i, end=i + 3, text=a * (i % 7), stay=i % 1440, error=i % 3 == 0) for i in range(n)]}
            yield {"field": "N0450F350 ABC VFR " + (a + "X ") * min(n, 90) + "IFR DEF/N0400F300 GHI"}
    if tier == "thorough":
        for f in spaces.pairs(gen.REPS_CORE, spaces.CONTEXTS, length=2):
            yield {"field": f}
        for i in range(0x10000):
            if not 0xd800 <= i < 0xe000 and chr(i) not in sut.WS:
                yield {"field": "N0450F350 ABC VFR %s A%sB IFR DEF/N0400F300 %s" % ((chr(i),) * 3)}


odd_text = st.one_of(st.sampled_from(ODD), st.text(st.one_of(st.sampled_from("<>&\"'ABC!#;"), st.characters(blacklist_characters=" \n\t\r/", blacklist_categories=("Cs",))), min_size=1, max_size=30))


@st.composite
def odd_route(draw):
    toks = list(draw(gen.rare_long()))
    for _ in range(draw(st.integers(1, 4))):
        toks.insert(draw(st.integers(0, len(toks))), draw(odd_text))
    return toks


num = st.one_of(st.integers(-1000, 10 ** 6), st.floats(-1e6, 1e6), st.sampled_from([0.005, 0.015, -0.004, 1.0, 359.995, 0.125, 99999.994, 12.345678]))
rec = st.fixed_dictionaries(dict(name=odd_text, start=st.integers(0, 9999), end=st.integers(0, 9999), speed_si=num, altitude_si=num, bearing=num, distance=num, cruise_to_si=num, lat=num, lon=num, speed=st.sampled_from(["", "N0450", "M082"]),
                                 altitude=st.sampled_from(["", "F350"]), cruise_to=st.sampled_from(["", "PLUS", "F370"]), rules=st.sampled_from(["", "IFR", "VFR", "OAT", "IFPS"]), stay=st.integers(0, 1439), text=st.one_of(st.just(""), st.text(st.characters(blacklist_categories=("Cs",)), max_size=20), odd_text),
                                 error=st.booleans()))


NUM = ("speed_si", "altitude_si", "bearing", "distance", "cruise_to_si", "lat", "lon")
FULL = dict(speed_si=12.345, altitude_si=0, bearing=359.996, distance=100, cruise_to_si=-0.5, lat=-89.999, lon=180, speed="N0450", altitude="F350", cruise_to="PLUS", rules="IFR")


VALUES = dict(name=["A", "KONAN", "<&" * 9 + '"', "Q" * 40], start=[9, 100, 1000], end=[10, 123456], speed_si=[0.004, 99, 299.996, 1e6], altitude_si=[0, 10668, 99999.99], bearing=[-0.004, -179.999, 90, 359.5], distance=[0.5, 1000, 123456.789, 19999999.25], cruise_to_si=[1, 11887],
              lat=[-45.5, 0.25, 90], lon=[-180, -0.75, 99.5, 180], speed=["M082", "K0830", "N0000"], altitude=["A045", "S1130", "M0840"], cruise_to=["PLUS", "F390", "S1190"], rules=["VFR", "OAT", "IFPS"], stay=[1, 60, 599, 600, 1439],
              text=["X", "A & <B> 'C' \"D\"", "W " * 50 + "E", "Z" * 200])
ZERO = dict(name="ABC", start=1, end=4, speed="", speed_si=0, altitude="", altitude_si=0, bearing=0, distance=0, cruise_to="", cruise_to_si=0, lat=0, lon=0, rules="IFR", stay=0, text="")


def pairwise():
    """Records with every two attributes at every two of their values, as records and as errors, ten in a sequence."""
    recs = []
    for base in (ZERO, dict(ZERO, **FULL)):
        for a, b in itertools.combinations(sorted(VALUES), 2):
            for x in VALUES[a]:
                for y in VALUES[b]:
                    recs += [dict(base, **{a: x, b: y, "error": e}) for e in (False, True)]
    for i in range(0, len(recs), 10):
        yield {"records": recs[i:i + 10]}


def strategy(tier):
    fields = st.one_of(gen.laid_out(odd_route()), gen.laid_out(odd_route()), gen.field(), gen.raw_text)
    return st.one_of(fields.map(lambda f: {"field": f}), fields.map(lambda f: {"field": f}), st.lists(rec, max_size=4).map(lambda l: {"records": l}))


def shrink(case):
    if "field" in case:
        yield from c.shrink_field(case)


def legal(s):
    return "".join(ch if ch in "\t\n\r" or "\x20" <= ch <= "\ud7ff" or "\ue000" <= ch <= "\ufffd" or ch >= "\U00010000" else "\ufffd" for ch in s)


def build(recs):
    ers = sut.ExtractedRouteSequence()
    for d in recs:
        if d["error"]:
            ers.add_error(d["name"], d["start"], d["end"], sut.TokenBaseType.F15_POINT, sut.TokenSubType.F15_SB_PRP, "X")
            r = ers.get_all_errors()[-1]
            r.set_error_text(d["text"])
        else:
            r = ers.create_append_element(d["name"], d["start"], d["end"], sut.TokenBaseType.F15_POINT, sut.TokenSubType.F15_SB_PRP)
            r.set_break_text(d["text"])
        r.set_speed_si(d["speed_si"])
        r.set_altitude_si(d["altitude_si"])
        r.set_bearing(d["bearing"])
        r.set_distance(d["distance"])
        r.set_altitude_cruise_to_si(d["cruise_to_si"])
        r.set_latitude(d["lat"])
        r.set_longitude(d["lon"])
        r.set_speed(d["speed"])
        r.set_altitude(d["altitude"])
        r.set_altitude_cruise_to(d["cruise_to"])
        r.set_flight_rules(d["rules"])
        r.set_stay_time("%02d%02d" % divmod(d["stay"], 60))
    return ers


def check(case):
    if "field" in case:
        what = "field %r" % case["field"]
        r = sut.parse(case["field"])
    else:
        what = "records %r" % case["records"]
        ers = sut.guard(build, case["records"], what="building " + what)
        r = sut.snapshot(ers, True)
    xml = sut.guard(r.ers.as_xml, what="as_xml for " + what)
    for text in (xml, xml.encode("utf-8")):
        try:
            root = ET.fromstring(text)
        except (ET.ParseError, ValueError, UnicodeError) as x:
            raise Violation("%s: the XML is not well formed (%s)" % (what, x))
    if xml != r.ers.as_xml():
        raise Violation("%s: a second as_xml differs" % what)
    kids = list(root)
    if root.tag != "ers" or not kids or kids[0].tag != "derived_flight_rules" or (kids[0].text or "") != r.derived:
        raise Violation("%s: the document starts with %r" % (what, [(k.tag, k.text) for k in kids[:1]]))
    recs = kids[1:]
    errors = []
    if recs and recs[-1].tag == "ers_errors":
        errors = list(recs.pop())
    if bool(errors) != bool(r.errors) and not (r.errors == [] and errors == []):
        raise Violation("%s: %d errors in the XML instead of %d" % (what, len(errors), len(r.errors)))
    labels = set()
    for nodes, objs, tag, attr, raw in ((recs, r.records, "ers_record", "break_text", r.ers.get_all_elements()), (errors, r.errors, "error_record", "error_text", r.ers.get_all_errors())):
        if [n.tag for n in nodes] != [tag] * len(objs):
            raise Violation("%s: elements %r instead of %d times %s" % (what, [n.tag for n in nodes], len(objs), tag))
        for n, x, o in zip(nodes, objs, raw):
            if (n.text or "") != legal(x["name"]) or len(n):
                raise Violation("%s: the XML has %r instead of the name %r" % (what, n.text, x["name"]))
            want = {k: (x[f] if p is None else p % x[f]) for k, f, p in ATTRS}
            want["base_type"], want["sub_type"] = "%d" % o.get_base_type(), "%d" % o.get_sub_type()
            want[attr] = legal(x[attr])
            for k in want:
                got = n.get(k)
                if got != want[k] and not (k in ("base_type", "sub_type") and got == str(getattr(o, "get_" + k)())) and not zero(got, want[k]):
                    raise Violation("%s: attribute %s of %s is %r instead of %r" % (what, k, c.brief(x), got, want[k]))
            if set(n.keys()) != set(want):
                raise Violation("%s: attributes %r of %s" % (what, sorted(set(n.keys()) ^ set(want)), c.brief(x)))
            if x[attr] or x["valid"]:
                labels |= {"!", "has " + attr if x[attr] else "coordinates"}
            if any(ch in x["name"] + x[attr] for ch in "<>&\"'"):
                labels |= {"!", "markup in " + tag}
            if legal(x["name"]) != x["name"]:
                labels.add("character XML cannot express")
    return labels


def zero(a, b):
    return a in ("0.00", "-0.00") and b in ("0.00", "-0.00")
