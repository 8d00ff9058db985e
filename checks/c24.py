"""C24: the result containers return exactly what was put in."""
import itertools
from hypothesis import strategies as st
from lib import dictionary, spaces, sut
from lib.sut import Violation, ExtractedRouteRecord, ExtractedRouteSequence, TokenBaseType, TokenSubType

PID = "C24"
RULE = ("A case is a history of operations on up to four route sequences and the records in them: new and re-initialised sequences, appending and creating elements, dummy aerodromes, errors, every setter of a record, appending break and error text, positional and first/last/"
        "previous-to-last reads at any index. After every step the sequence touched, and at the end every sequence ever made, is compared with lists of plain values. Enumerated: all histories of up to 4 (5) operations of a small alphabet with every index around the ends, sequences of up to 300 records or errors, records appended twice or to two sequences, every constant of the code under test as text, message, value and index. "
        "Non-trivial: an index outside the list is asked for, a text is appended to twice, two sequences are in use, or a setter follows another.")
EXAMPLES = {"quick": 12000, "thorough": 300000}
BASES, SUBS = list(TokenBaseType), list(TokenSubType)
SETTERS = {"altitude": "altitude", "altitude_cruise_to": "cruise_to", "altitude_cruise_to_si": "cruise_to_si", "altitude_si": "altitude_si", "bearing": "bearing", "distance": "distance", "break_text": "break_text", "error_text": "error_text", "end_index": "end",
           "start_index": "start", "flight_rules": "rules", "latitude": "lat", "longitude": "lon", "lat_long_valid": "valid", "name": "name", "speed": "speed", "speed_si": "speed_si", "base_type": "base", "sub_type": "sub"}
NUMERIC = {"altitude_cruise_to_si", "altitude_si", "bearing", "distance", "latitude", "longitude", "speed_si"}

text = st.one_of(st.sampled_from(["ABC", "", "/", "N0450F350", "!", "a b", "PLUS", "F350", " ", "VFR"]), st.text(max_size=6))
num = st.one_of(st.integers(-10, 10), st.floats(allow_nan=False), st.integers(-10 ** 7, 10 ** 7))
idx = st.integers(-3, 9)
bt, sb = st.integers(0, len(BASES) - 1), st.integers(0, len(SUBS) - 1)
seq_ = st.integers(0, 3)


def value(k):
    return num if k in NUMERIC else st.booleans() if k == "lat_long_valid" else idx if k.endswith("_index") else bt if k == "base_type" else sb if k == "sub_type" else text


setter = st.sampled_from(sorted(SETTERS)).flatmap(lambda k: st.tuples(st.just("set"), seq_, idx, st.just(k), value(k)))
op = st.one_of(st.tuples(st.sampled_from(["new", "new", "reinit", "ades", "first", "last", "prev"]), seq_), st.tuples(st.just("create"), seq_, text, idx, idx, bt, sb), st.tuples(st.just("create"), seq_, text, idx, idx, bt, sb),
               st.tuples(st.just("append"), seq_, text, idx, idx, bt, sb), st.tuples(st.just("error"), seq_, text, idx, idx, bt, sb, st.one_of(st.sampled_from(["bad '!'", "", "! and !", "no mark"]), text)),
               st.tuples(st.just("at"), seq_, idx), setter, setter, setter, st.tuples(st.just("stay"), seq_, idx, st.integers(0, 1439)), st.tuples(st.sampled_from(["break+", "error+"]), seq_, idx, text), st.tuples(st.sampled_from(["break+", "error+"]), seq_, idx, text),
               st.tuples(st.just("again"), seq_, seq_, idx), st.tuples(st.just("rules"), seq_, st.sampled_from(["", "I", "V", "Y", "Z"])))


def strategy(tier):
    return st.lists(op, max_size=40).map(lambda o: {"ops": [list(x) for x in o]})


SMALL = [["new", 1], ["create", 0, "A", 1, 2, 1, 1], ["error", 0, "B", 3, 4, 2, 2, "bad '!'"], ["ades", 0], ["break+", 0, -1, "X"], ["error+", 0, -1, "Y"], ["create", 1, "Z", 5, 6, 3, 3], ["reinit", 0]]


def enum(tier):
    for k in range(0, 5 if tier == "quick" else 6):
        for s in itertools.product(SMALL, repeat=k):
            yield {"ops": [list(x) for x in s]}
    for n in range(0, 6):
        for i in range(-8, 12):
            yield {"ops": [["create", 0, "P%d" % j, j, j + 1, 1, 1] for j in range(n)] + [["at", 0, i], ["first", 0], ["last", 0], ["prev", 0]]}
    for a in sorted(SETTERS):
        for b in sorted(SETTERS):
            v = {"a": "Q", "b": "R"}
            yield {"ops": [["create", 0, "A", 1, 2, 1, 1], ["set", 0, 1, a, sample(a, 1)], ["set", 0, 1, b, sample(b, 2)], ["set", 0, 0, a, sample(a, 3)]]}
    # Every operation on a record whose attributes have been set, one at a time, to each of several values.
    for a in sorted(STATES):
        for x in STATES[a]:
            for b in sorted(STATES):
                for y in STATES[b][:2]:
                    yield {"ops": [["create", 0, "A", 1, 2, 1, 1], ["error", 0, "B", 3, 4, 2, 2, "bad '!'"]] + [o for i in (1, 2) for o in (["set", 0, i, a, x], ["set", 0, i, b, y], ["break+", 0, i, "U"], ["break+", 0, i, "V"], ["error+", 0, i, "W"], ["stay", 0, i, 75])]
                           + [["create", 0, "C", 5, 6, 1, 1], ["error", 0, "A", 1, 2, 1, 1, "'!' again"], ["prev", 0], ["ades", 0], ["last", 0]]}
    for n in range(1, 5):
        for i in range(n + 1):
            for t in (0, 1):
                yield {"ops": [["new", 1]] + [["create", 0, "P%d" % j, j, j + 1, 1, 1] for j in range(n)] + [["again", t, 0, i], ["prev", t], ["last", t], ["first", t], ["ades", t], ["prev", t], ["last", t], ["set", 0, i, "name", "NEW"], ["again", 1 - t, t, -1], ["prev", 1 - t]]
                       + [["at", t, j] for j in range(-1, n + 3)]}
                yield {"ops": [["create", 0, "SAME", 3, 7, 1, 1]] * n + [["prev", 0], ["last", 0], ["set", 0, i, "name", "NEW"], ["error", 0, "SAME", 3, 7, 1, 1, "bad '!'"], ["prev", 0], ["create", 0, "SAME", 3, 7, 1, 1], ["prev", 0], ["at", 0, n]]}
    for n in (10, 33, 65, 100, 129, 257, 300):
        yield {"ops": [["create", 0, "P%d" % j, j, j + 1, j % 9, j % 11] for j in range(n)] + [["at", 0, i] for i in range(-2, n + 4)] + [["prev", 0], ["ades", 0], ["last", 0], ["prev", 0]]}
        yield {"ops": [["error", 0, "E%d" % j, j, j + 1, j % 9, j % 11, "bad '!' %d" % j] for j in range(n)] + [["create", 0, "A", 1, 2, 1, 1], ["prev", 0]]}
        yield {"ops": [["create", 0, "A", 1, 2, 1, 1]] + [x for j in range(n) for x in (["break+", 0, 1, "W%d" % j], ["error+", 0, 1, "E%d" % j])]}
        yield {"ops": [["create", 0, "A" * n, n * 10, n * 1000, 1, 1], ["set", 0, 1, "name", "B" * n], ["set", 0, 1, "break_text", "C " * n], ["break+", 0, 1, "D" * n], ["set", 0, 1, "speed", "N" * n]]}
    for i, t in enumerate(dictionary.texts() + dictionary.words() + spaces.ODD):
        yield {"ops": [["create", 0, t, 1, 2, 1, 1], ["error", 0, t, 1, 2, 1, 1, t + " '!' " + t], ["error", 0, "X", 1, 2, 1, 1, t], ["set", 0, 0, "name", t], ["set", 0, 1, "break_text", t], ["break+", 0, 1, t], ["error+", 0, 2, t], ["error+", 0, 1, t], ["break+", 0, 0, t], ["break+", 0, 0, t]]
               + [["set", 0, i % 3, k, t] for k in sorted(SETTERS) if k not in NUMERIC and value(k) is text] + [["rules", 0, t], ["prev", 0], ["at", 0, 1]]}
    for n in dictionary.numbers(20000):
        yield {"ops": [["create", 0, "A", n, n + 1, n % len(BASES), n % len(SUBS)], ["error", 0, "B", n, n, 1, 1, "bad '!'"]] + [["set", 0, i, k, n * q] for i in (1, 2) for q in (1, -1, 0.01) for k in sorted(NUMERIC)] + [["set", 0, 1, "end_index", n], ["at", 0, n], ["prev", 0]]}
    for t in range(1440):
        yield {"ops": [["stay", 0, 0, t]]}


STATES = dict(altitude=["S1130", "A045", "M0840", "F350"], altitude_cruise_to=["PLUS", "F390"], altitude_cruise_to_si=[11887, 1], altitude_si=[13000, 0, 1524], bearing=[-179.5, 90], distance=[0.5, 123456.75], break_text=["X Y", "", "Z " * 60], error_text=["!", "E " * 60],
              end_index=[9, 1000], start_index=[9, 1000], flight_rules=["VFR", "OAT", "IFPS", "IFR", ""], latitude=[-45.5, 89.25, 0], longitude=[-179.5, 99.75], lat_long_valid=[True, False], name=["ADES", "B", "X" * 40, ""], speed=["M082", "K0830", "N0000"], speed_si=[299.5, 0],
              base_type=[3, 9], sub_type=[5, 30])


def sample(k, n):
    return n * 1.25 if k in NUMERIC else bool(n % 2) if k == "lat_long_valid" else n if k.endswith("_index") or k.endswith("_type") else "TXT%d" % n


BLANK = dict(altitude="", altitude_si=0, speed="", speed_si=0, rules="", stay=0, break_text="", error_text="", cruise_to="", cruise_to_si=0, lat=0, lon=0, bearing=0, distance=0, valid=False)


def blank(name, start, end, b, s):
    return dict(BLANK, name=name, start=start, end=end, base=sut.base_name(BASES[b]), sub=sut.sub_name(SUBS[s]))


class Model:
    """One sequence: real object, records and errors as (real record, expected values)."""

    def __init__(self, real):
        self.real, self.recs, self.errs, self.rules = real, [], [], ""
        self.start()

    def start(self):
        self.recs, self.errs, self.rules = [self.adep("ADEP", 0)], [], ""

    def adep(self, name, i):
        got = self.real.get_all_elements()
        return [got[i] if i < len(got) else None, dict(BLANK, name=name, start=0, end=0, base="POINT", sub="PRP_AERO")]

    def compare(self, what):
        r = self.real
        for kind, mine, got, n in (("elements", self.recs, r.get_all_elements(), r.get_number_of_elements()), ("errors", self.errs, r.get_all_errors(), r.get_number_of_errors())):
            if n != len(mine) or len(got) != len(mine):
                raise Violation("%s: %r %s (%d in the list) instead of %d" % (what, n, kind, len(got), len(mine)))
            for i, (o, want) in enumerate(mine):
                if got[i] is not o:
                    raise Violation("%s: item %d of the %s is not the one put in" % (what, i, kind))
                d = sut.snap_record(o)
                for k in want:
                    if d[k] != want[k] or (k not in ("start", "end", "stay", "valid") and isinstance(want[k], str) != isinstance(d[k], str)):
                        raise Violation("%s: %s of item %d of the %s is %r instead of %r" % (what, k, i, kind, d[k], want[k]))
        if r.get_derived_flight_rules() != self.rules:
            raise Violation("%s: the derived rules are %r instead of %r" % (what, r.get_derived_flight_rules(), self.rules))


def joined(a, b):
    return b if a == "" else a + " " + b


def check(case):
    labels, live, ever = set(), [], []

    def new(i):
        x = Model(sut.guard(ExtractedRouteSequence, what="creating a sequence"))
        ever.append(x)
        if i < len(live):
            live[i] = x
        else:
            live.append(x)
        x.compare("a new sequence")
        return x
    new(0)
    touched, inter = set(), set()
    for step, op in enumerate(case["ops"]):
        o, what = op[0], "step %d %s" % (step, op)
        if o == "new":
            new(min(op[1], len(live)))
            labels.add("several sequences")
            continue
        mo = live[op[1] % len(live)]
        r = mo.real
        inter.add(id(mo))
        if o == "reinit":
            sut.guard(r.__init__, what=what)
            mo.start()
            labels.add("re-initialised")
        elif o == "ades":
            got = sut.guard(r.add_dummy_ades, what=what)
            mo.recs.append(mo.adep("ADES", len(mo.recs)))
            if got is not mo.recs[-1][0]:
                raise Violation("%s: did not return the record appended" % what)
        elif o in ("create", "append"):
            name, s, e, b, u = op[2:7]
            if o == "create":
                got = sut.guard(r.create_append_element, name, s, e, BASES[b], SUBS[u], what=what)
            else:
                x = sut.guard(ExtractedRouteRecord, name, s, e, BASES[b], SUBS[u], what=what)
                got = sut.guard(r.append_element, x, what=what)
                if got is not x:
                    raise Violation("%s: did not return the record appended" % what)
            mo.recs.append([got, blank(name, s, e, b, u)])
        elif o == "again":
            # a record that is already in a sequence, this one or another
            src = live[op[2] % len(live)]
            it = src.recs[op[3] % len(src.recs)]
            got = sut.guard(r.append_element, it[0], what=what)
            if got is not it[0]:
                raise Violation("%s: did not return the record appended" % what)
            mo.recs.append(it)
            labels |= {"!", "appended twice"}
        elif o == "error":
            name, s, e, b, u, msg = op[2:8]
            sut.guard(r.add_error, name, s, e, BASES[b], SUBS[u], msg, what=what)
            got = r.get_all_errors()
            mo.errs.append([got[-1] if got else None, dict(blank(name, s, e, b, u), error_text=msg.replace("!", name))])
            labels.add("error")
        elif o == "rules":
            sut.guard(r.set_derived_flight_rules, op[2], what=what)
            mo.rules = op[2]
        elif o in ("at", "first", "last", "prev"):
            n = len(mo.recs)
            i = {"at": op[2] if o == "at" else 0, "first": 0, "last": n - 1, "prev": n - 2}[o]
            want = mo.recs[i][0] if 0 <= i < n else None
            got = sut.guard(r.get_element_at, i, what=what) if o == "at" else sut.guard({"first": r.get_first_element, "last": r.get_last_element, "prev": r.get_previous_to_last_element}[o], what=what)
            if got is not want:
                raise Violation("%s of %d: returned %s instead of %s" % (what, n, got and sut.snap_record(got)["name"], want and sut.snap_record(want)["name"]))
            labels |= {"!", "outside"} if want is None else {"inside"}
        else:
            items = mo.recs + mo.errs
            x, want = items[op[2] % len(items)]
            if id(want) in touched:
                labels.add("!")
            touched.add(id(want))
            if o == "stay":
                sut.guard(x.set_stay_time, "%02d%02d" % divmod(op[3], 60), what=what)
                want["stay"] = op[3]
            elif o in ("break+", "error+"):
                k = {"break+": "break_text", "error+": "error_text"}[o]
                sut.guard(x.append_break_text if o == "break+" else x.append_error_text, op[3], what=what)
                labels.add("text appended to text" if want[k] else "text")
                want[k] = joined(want[k], op[3])
            else:
                k, v = op[3], op[4]
                v2 = BASES[v % len(BASES)] if k == "base_type" else SUBS[v % len(SUBS)] if k == "sub_type" else v
                sut.guard(getattr(x, "set_" + k), v2, what=what)
                want[SETTERS[k]] = sut.base_name(v2) if k == "base_type" else sut.sub_name(v2) if k == "sub_type" else v2
                labels.add("setter")
        mo.compare(what)
    for x in ever:
        x.compare("at the end, a sequence")
    fresh = Model(sut.guard(ExtractedRouteSequence, what="creating a sequence"))
    fresh.compare("at the end, a new sequence")
    if len(inter) > 1:
        labels.add("!")
    return labels
