"""C03: every token string is classified as exactly its Field 15 element type."""
import itertools
from hypothesis import strategies as st
from lib import dictionary, gen, refmodel as m, sut
from lib.sut import Violation

PID = "C03"
RULE = ("A case is a list of strings given to the parser as one field; each token's base type and subtype after the parse, and get_token_type of the string, are compared with an "
        "independent hand-written recognizer. Enumerated: all strings of 1 or 2 characters of a 44 character alphabet, all letter/digit shapes up to 9 characters in 3 fills, all "
        "4-digit strings, all 3-letter strings, all names of one letter and a number, all NAT/PTS forms, all speed/level unit combinations with every digit count +-1, and every one-character edit (delete, replace, insert, 12 characters) "
        "of every representative, one valid string per row of the syntax with every character replaced by a look-alike and other edits, every constant of the code under test with edits, lengths 20 to 30, runs of 8 characters from 4 planes at lengths to 5000. Non-trivial: the list holds a string the recognizer puts in some class other than unknown.")
EXAMPLES = {"quick": 6000, "thorough": 120000}
EDIT = "AZFNT059/a!\u0663"
ALPHA = gen.CAPS + "0123456789" + "az!-/\u00c9\u0663\n"


def edits(t, alphabet=EDIT):
    for i in range(len(t) + 1):
        for c in alphabet:
            yield t[:i] + c + t[i:]
            if i < len(t):
                yield t[:i] + c + t[i + 1:]
        if i < len(t):
            yield t[:i] + t[i + 1:]
            yield t[:i] + t[i].lower() + t[i + 1:]
            yield t[:i] + t[i] + t[i:]


def strings(tier):
    yield from ALPHA
    for a in itertools.product(ALPHA, repeat=2):
        yield "".join(a)
    fills = ["".join(x) for x in ("QRJHGXZLP", "ABCDEFGHI", "NNNNNNNNN", "KFMASTVCW")]
    for n in range(1, 10):
        for shape in itertools.product("L9", repeat=n):
            for k, f in enumerate(fills):
                if n > 7 and k > 1 and tier == "quick":
                    continue
                yield "".join(f[i] if s == "L" else "0123456789"[(i * 3 + k) % 10] for i, s in enumerate(shape))
    for i in range(10000):
        yield "%04d" % i
    for p in ("NAT", "PTS", "STAY", "NAT0", "NATA", "PTSA", "PTS0", "STA", "NA", "PT", "nat", "Nat"):
        for c in gen.CAPS + "0123456789":
            yield p + c
            yield p + c + "0"
            yield p + c + "9"
            yield p + c + "A"
    for s in "NKMF":
        for nd in range(1, 6):
            sp = s + "0482367"[:nd]
            yield sp
            for tail in ("VFR", "PLUS", "V", "VF", "PLU", "VFRX", "IFR", "OAT", "vfr"):
                yield sp + tail
            for u in "FASMK":
                for ld in range(0, 6):
                    lv = u + "351840"[:ld]
                    yield sp + lv
                    if abs(nd - m.SDIG.get(s, 4)) > 1 or abs(ld - m.NDIG.get(u, 3)) > 1:
                        continue
                    for tail in ("VFR", "PLUS", "P", "PLU", "PLUSX", "plus", "PLUSPLUS"):
                        yield sp + lv + tail
                    for u2 in "FASMK":
                        for ld2 in range(1, 6):
                            yield sp + lv + u2 + "190840"[:ld2]
                            if ld2 == m.NDIG.get(u2, 3):
                                yield sp + lv + u2 + "190840"[:ld2] + "PLUS"
                                yield sp + lv + u2 + "190840"[:ld2] + u2 + "190840"[:ld2]
    for t in forms():
        yield t
        yield from lookalikes(t)
        yield from edits(t, "A0\u0663" if tier == "quick" else EDIT)
    for la in range(1, 6):
        for lo in range(1, 7):
            for ns in "NSEX":
                for ew in "EWNX":
                    for bd in ("", "09005", "090050", "0900500"):
                        if abs(la - 2) <= 1 and abs(lo - 3) <= 1 or abs(la - 4) <= 1 and abs(lo - 5) <= 1:
                            yield "123456"[:la] + ns + "012345"[:lo] + ew + bd
    for n in range(1, 8):
        for d in range(4, 9):
            yield "ABCDEFG"[:n] + "12345678"[:d]
    for t in sorted(set(gen.REPS + gen.KEYWORDS + gen.STAYS + gen.ROUTES + gen.SIDSTARS)):
        yield t
        if tier == "thorough" or t in gen.REPS or t in gen.KEYWORDS:
            yield from edits(t, EDIT if tier == "quick" else gen.CAPS + "0123456789!a\u0663\n.+*")
    for t in dictionary.words():
        yield t
        for k in dictionary.kin(t):
            yield k
        if len(t) <= (9 if tier == "quick" else 30):
            yield from edits(t, EDIT if tier == "thorough" else "A0/")
    for n in range(20, 31):
        for t in ("A" * n, "0" * n, "!" * n, "N0450" + "F350" * 8, "VFR" * 10, "00N001E090050" * 3):
            yield t[:n]
    for n in list(range(1, 31)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000]:
        for ch in "\u00e9\uff21\U0001f600\u0663A7<%":
            yield ch * n
            yield "A" * (n // 2) + ch * (n - n // 2)
            if n < 31:
                yield ch + "N0450F350VFRSTAY1DCTNATABCDEFGH"[:n - 1]
                yield "N0450F350VFRSTAY1DCTNATABCDEFGH"[:n - 1] + ch
    for t in itertools.product(gen.CAPS, repeat=3):
        yield "".join(t)
    for a in gen.CAPS:
        for n in range(1, 4):
            for i in range(10 ** n):
                yield a + "%0*d" % (n, i)
        for b in gen.CAPS:
            for i in (0, 1, 9, 10, 55, 99, 100, 555, 999) if tier == "quick" else range(1000):
                yield "%s%s%d" % (a, b, i)
    if tier == "thorough":
        for n in range(10, 13):
            for shape in itertools.product("L9", repeat=n):
                yield "".join("NFQWERTYUIOP"[i] if s == "L" else "0123456789"[i % 10] for i, s in enumerate(shape))
        for t in itertools.product("AN9/!", repeat=6):
            yield "".join(t)


LOOKALIKE = dict(zip("0123456789", "\u0660\u0661\u0662\u0663\u0664\u0665\u0666\u0667\u0668\u0669"))
LOOKALIKE.update(zip("ABEKMNPSTWFVLU", "\u0410\u0412\u0395\u212a\u041c\uff2e\u0420\u0405\u0422\u051c\uff26\u2164\u216c\uff35"))
FULLWIDTH = {c: chr(ord(c) + 0xfee0) for c in gen.CAPS + "0123456789"}


def forms():
    """One valid string for every row of the syntax: every combination of units, with and without PLUS and VFR."""
    sp, lv = ["N0482", "K0482", "M082"], ["F350", "A045", "S1130", "M0840"]
    yield from (s + "VFR" for s in sp)
    for s in sp:
        for a in lv:
            yield s + a
            yield s + a + "PLUS"
            yield s + a + "VFR"
            yield s + a + "VFRPLUS"
            for b in lv:
                yield s + a + b
                yield s + a + b + "PLUS"
    yield from ("STAY1", "STAY9", "STAY1/0130", "NATA", "NATX12", "NAT1", "PTS0", "PTS1", "PTSA", "UL620", "L9", "A1", "UM5A", "ABCDE1A", "DET2J", "CPT3X", "DCT", "VFR", "IFR", "OAT",
                "GAT", "BREAK", "IFPSTOP", "IFPSTART", "KFDBK", "00N001E", "50N020W", "5010N02030W", "5010S02030E", "50N020W090050", "5010N02030W180010", "KONAN", "EGLL", "LON", "AB", "A", "KOK090050", "KONAN180100")


def lookalikes(t):
    for i, c in enumerate(t):
        for table in (LOOKALIKE, FULLWIDTH):
            if c in table:
                yield t[:i] + table[c] + t[i + 1:]
        yield t[:i] + c.lower() + t[i + 1:]
        yield t[:i] + ("\u00b2" if c.isdigit() else "\u00c9") + t[i + 1:]
    yield t + "\u0301"
    for table in (LOOKALIKE, FULLWIDTH):
        yield "".join(table.get(c, c) for c in t)


def enum(tier):
    it = (s for s in strings(tier) if s and s != "\x01")
    while True:
        c = list(itertools.islice(it, 40))
        if not c:
            return
        yield {"strings": c}


valid_one = st.one_of(gen.point_any, gen.route, gen.sid_star, gen.speed_level_any, gen.speed_vfr, gen.climb_any, gen.stay_time, st.sampled_from(gen.STAYS + gen.KEYWORDS))


@st.composite
def near_miss(draw):
    t = draw(valid_one)
    for _ in range(draw(st.integers(1, 2))):
        i, c = draw(st.integers(0, max(0, len(t) - 1))), draw(st.one_of(st.sampled_from("ABCFKMNSTVEWPLU0123456789"), gen.word_chars))
        k = draw(st.integers(0, 4))
        t = t[:i] + c + t[i:] if k == 0 else t[:i] + c + t[i + 1:] if k == 1 else t[:i] + t[i + 1:] if k == 2 else t + c if k == 3 else t[:i].lower() + t[i:]
    return t


def strategy(tier):
    one = st.one_of(valid_one, near_miss(), near_miss(), st.text(min_size=1, max_size=8), st.text("ABCNSEWFVKM0123456789", min_size=1, max_size=14),
                    st.text("A0!", min_size=24, max_size=28), st.tuples(valid_one, valid_one).map("".join), st.tuples(valid_one, st.sampled_from(["\n", " ", "\r", "\u2028"])).map("".join))
    return st.lists(one.filter(lambda s: s and "\x01" not in s), min_size=1, max_size=12).map(lambda l: {"strings": l})


def shrink(case):
    s = case["strings"]
    for x in s:
        if len(s) > 1:
            yield {"strings": [x]}


def check(case):
    strs, labels = case["strings"], set()
    special = any(c in sut.WS for s in strs for c in s)
    sep = "\x01" if special else " "
    res = sut.parse(sep.join(strs), sep)
    if [t["name"] for t in res.tokens] != strs:
        raise Violation("the tokens of %r with separator %r are %r" % (sep.join(strs), sep, [t["name"] for t in res.tokens]))
    d = sut.F15TokenSyntaxDefinition()
    for t, s in zip(res.tokens, strs):
        want = m.classify(s)
        if (t["base"], t["sub"]) != want:
            raise Violation("%r is classified as %s/%s instead of %s/%s" % (s, t["base"], t["sub"], *want))
        if want[0] != "TOO_LONG":
            got = sut.guard(d.get_token_type, s, what="get_token_type(%r)" % s)
            got = sut.base_name(got[1]), sut.sub_name(got[2])
            if got != want:
                raise Violation("get_token_type(%r) gives %s/%s instead of %s/%s" % (s, *got, *want))
            if want[0] != "UNKNOWN":
                labels.add("!")
        labels.add("%s/%s" % want)
        if not s.isascii() or not s.isupper() and s.upper() != s:
            labels.add("lower case or not ASCII")
    return labels
