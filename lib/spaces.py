"""Finite spaces of fields that the checks enumerate completely."""
import itertools, os, random
from . import dictionary, gen

# One prefix for every situation the parser can be in before the next element.
CONTEXTS = [[], ["N0450F350"], ["N0450F350", "ABC"], ["N0450F350", "00N001E"], ["N0450F350", "ABC", "B9"], ["N0450F350", "DCT"], ["N0450F350", "ABC", "DCT"],
            ["N0450F350", "ABC", "/"], ["N0450F350", "ABC", "/", "M080F310"], ["N0450F350", "ABC1A"], ["N0450F350", "SID"], ["N0450F350", "SID", "B9"],
            ["N0450F350", "ABC", "STAY1"], ["N0450F350", "ABC", "STAY1", "/"], ["N0450F350", "ABC", "STAY1", "/", "0130"], ["N0450F350", "ABC", "C"],
            ["N0450F350", "ABC", "C", "/"], ["N0450F350", "ABC", "C", "/", "DEF"], ["N0450F350", "ABC", "C", "/", "DEF", "/"],
            ["N0450F350", "ABC", "C", "/", "00N002E", "/", "K0800S1100A050"], ["N0450F350", "ABC", "VFR"], ["N0450F350", "ABC", "OAT", "TEXT"],
            ["N0450F350", "ABC", "IFPSTOP"], ["N0450F350", "ABC", "VFR", "IFR"], ["N0450F350", "ABC", "VFR", "IFR", "DEF"], ["N0450F350", "ABC", "VFR", "IFR", "DEF", "/"],
            ["N0450F350", "ABC", "OAT", "GAT"], ["N0450F350", "ABC", "OAT", "GAT", "00N002E"], ["N0450F350", "ABC", "IFPSTOP", "IFPSTART"], ["N0450F350", "ABC", "/", "N0100VFR"],
            ["N0100VFR"], ["N0100VFR", "TEXT", "IFR", "00N003W", "/", "N0450F350"], ["N0450F350", "ABC", "T"], ["N0450F350", "ABC", "STAR"], ["N0450F350", "ABC", "ABC1A"],
            ["N0450F350", "ABC", "%%"], ["N0450F350", "ABC", "%%", "/"], ["N0450F350", "ABC", "B9", "B9"], ["N0450F350", "00N001E", "DCT"], ["N0450F350", "00N001E", "B9", "01N001E"],
            ["N0450F350", "01N002E090050", "ABC"], ["N0450F350", "ABC", "DEF", "IFR"]]
TAILS = [[], ["DEF"], ["00N009E", "DCT", "00N010E"], ["DEF", "B9", "GHI"]]


def fields(groups):
    for g in groups:
        yield " ".join(g)


def pairs(reps=None, contexts=None, tails=((),), length=2):
    """Every context followed by every sequence of at most `length` element types."""
    reps = reps or gen.REPS
    for k in range(0, length + 1):
        for c in contexts or CONTEXTS:
            for p in itertools.product(reps, repeat=k):
                for t in tails:
                    yield " ".join(list(c) + list(p) + list(t))


# a field as head, finished segment, possibly unfinished segment, next element
HEADS = ["", "N0450F350", "N0450F350 ABC", "M082S1130 SID", "K0800M0840 ABC1A ABC", "N0450F350 KONAN1 B9 ABC", "N0100VFR", "N0100VFR TXT", "N0450F350 00N001E", "N0450F350 %%"]
SEGMENTS = ["", "DEF", "DCT GHI", "B9 JKL", "00N001E", "DCT 0130S00230W", "/N0440F340 MNO", "/M080A100", "STAY1/0130", "STAY1/0130 PQR", "C/STU/M082F310F350", "C/01N002E/K0800S1100PLUS", "VFR X IFR VWX/N0450F350",
            "VFR IFR 00N004E/N0450F350", "OAT B9 GAT YZA", "IFPSTOP IFPSTART BCD", "C", "/N0100VFR T IFR HIJ/M080A100", "/M070VFR", "VFR X IFR KLM/N0090VFR", "01N002E090050", "%%", "IFR", "DCT B9 DEF", "B9 00N003E", "T"]
PARTS = ["C", "C C", "C/", "C/DEF", "C/DEF/", "C/DEF/N0450F350F390", "C/00N002E/M080S1000PLUS", "C/DEF/N0450F350", "STAY1", "STAY1/", "STAY1/0130", "STAY1 STAY2/0100", "/", "//", "/N0440F340", "/M079VFR", "/DEF", "VFR", "VFR X", "VFR IFR", "VFR IFR DEF",
         "VFR IFR DEF/", "VFR X IFR DEF/N0450F350", "VFR IFR 00N004E/N0100VFR", "IFR", "IFR DEF", "IFR DEF/", "IFR DEF/N0450F350", "IFR 00N004E/N0100VFR", "OAT", "OAT GAT", "OAT/X GAT DEF", "GAT", "GAT DEF", "IFPSTOP", "IFPSTOP IFPSTART", "IFPSTOP GAT DEF",
         "IFPSTART", "IFPSTART DEF", "DCT", "DCT 00N002E", "B9", "B9 DEF", "NATA 00N002E", "DEF", "00N002E", "ABC370050", "SID", "STAR", "ABC1A", "T", "%%", "%%/", "N0450F350", "M080VFR"]


def repeated(tier, most=110):
    """Every element type, segment and part many times over (sizes, counters, limits)."""
    for i, u in enumerate(dict.fromkeys(gen.REPS + SEGMENTS[1:] + PARTS)):
        size = len(u.replace("/", " / ").split())
        for j, k in enumerate((2, 3, 4, 5, 7, 9, 11, 17, 26, 33, 51, 66, 98) if tier == "quick" else range(2, 101)):
            if k * size > most and k > 3:
                continue
            for h in range(2 if k < 6 else 1) if tier == "quick" else range(3):
                yield " ".join([("N0450F350 ABC", "N0100VFR TXT IFR ABC", "%%")[(i + j + h) % 3 if tier == "quick" else h]] + [u] * k + ["DEF"])


FILLERS = [("ABC", ""), ("ABC B9", "DEF"), ("00N001E DCT", "01N001E"), ("%%", ""), ("VFR X IFR 00N004E/N0430F330", ""), ("ABC/N0440F340", ""), ("B9 JKL STAY1/0010", ""), ("ABC C/DEF/M080F310F350 GHI", "")]
SECTIONS = [("N0450F350 ABC VFR", "IFR"), ("N0450F350 ABC OAT", "GAT"), ("N0450F350 ABC IFPSTOP", "IFPSTART"), ("N0100VFR", "IFR"), ("N0450F350 ABC/N0100VFR", "IFR")]


def late(tier):
    """Long beginnings, of one kind of element, before every segment and part; long break sections of every element type, and their ends."""
    sizes = (3, 6, 9, 14, 17, 26, 33, 47) if tier == "quick" else range(2, 48)
    for i, u in enumerate(dict.fromkeys(SEGMENTS[1:] + PARTS)):
        for j, (f, end) in enumerate(FILLERS):
            for k in sizes:
                if k * len(f.replace("/", " / ").split()) <= 96 and (tier == "thorough" or (i + j + k) % 2):
                    for tail in ("DEF", "") if tier == "thorough" else ("DEF" if (i + j + k) % 4 == 1 else "",):
                        yield " ".join(" ".join(["N0450F350", "MNO"] + [f] * k + [end, u, tail]).split())
    for i, u in enumerate(gen.REPS):
        for j, (head, end) in enumerate(SECTIONS):
            for k in (1, 2, 3, 5, 9, 17, 33, 65, 90):
                if tier == "thorough" or (i + j + k) % 3 == 0:
                    for tail in ("DEF/N0440F340 GHI", "00N002E", "/ X %s DEF/N0440F340 GHI" % end, ""):
                        yield " ".join([head] + [u] * k + [end] + ([tail] if tail else []))


def revisits():
    """Segments one after another in which every named point, and every coordinate point, is the same one."""
    def same(s):
        return " ".join("/".join(("ABC" if w.isalpha() and len(w) == 3 and w not in gen.KEYWORDS else "00N001E" if w[:2].isdigit() and w[2:3] in "NS" and len(w) == 7 else w) for w in x.split("/")) for x in s.split())
    for a in SEGMENTS:
        for b in SEGMENTS:
            for c in ("", "DCT 00N001E", "/M080F310", "STAY2/0001"):
                yield " ".join(same(" ".join(("N0450F350 ABC", a, b, c))).split())


# what sets a speed, level or stay at a point, with ordinary, extreme and zero values
SETTERS = ["/N0450F350", "/N0440F345", "/N0000F000", "/M082S1130", "/M000M0000", "/K0800A045", "/M000A000", "STAY1/0130", "STAY2/0000", "STAY3/0001", "STAY4/2359", "/N0450F350F390", "/N0000F000F000",
           "/K0800S1130PLUS", "/M000A000PLUS", "/N0100VFR", "/M000VFR", "C/{0}/N0450F350F390", "C/{0}/M000A000PLUS", "C/{0}/N0000F000F000", "C/{0}/N0450F350"]


def resets():
    """Two settings of the same point, directly and with something between and after them."""
    for p in ("ABC", "00N001E", "C", "ABC370050", "DEF/N0440F340"):
        for a in SETTERS:
            for b in SETTERS:
                for sep in ("", "%%", "//", "/", "%% /", "DEF", p.split("/")[0]):
                    if sep not in ("", "%%") and p not in ("ABC", "00N001E"):
                        continue
                    yield " ".join(("N0450F350", p, a.format(p), sep, b.format(p), "DEF" if sep else "GHI B9 DEF")).replace("  ", " ")


ERRORS = ["%%", "0102", "/", "N0450F350", "DCT T", "B9 B9", "GAT", "N0450F350F390", "X" * 26, "STAY1/X"]


def recovering(tier):
    """Every finished segment, then an error, then every part: what the parser does after the error must not depend on what was before it."""
    for i, s in enumerate(SEGMENTS):
        for j, e in enumerate(ERRORS):
            for k, p in enumerate(PARTS):
                for h in (HEADS[2], HEADS[(i + j + k) % len(HEADS)]) if tier == "quick" else HEADS:
                    yield " ".join(" ".join((h, s, e, p, ("", "DEF", "%%", "/N0440F340")[(i + j + k) // 3 % 4])).split())


# Texts that change under some operation on strings (normalisation, case, width, byte lengths, display) that a field must not undergo.
ODD = ["U\u0308", "\u00dc", "e\u0301", "\u1112\u1161\u11ab", "\ud55c", "\ufb01", "\uff21\uff22", "\u00b2", "\u2460", "\u2164", "\u212a", "\u212b", "\u017fTAR", "\u0131FR", "\u00df", "\u1e9e", "\u0130", "\u0149", "\u01c5", "\u03c2", "\u0660\u0661",
       "\u0967", "\u200b", "\u200d", "\u00ad", "\ufeff", "\u2060", "\u202e", "\u200f", "\ufe0f", "\U0001f468\u200d\U0001f469", "\U0001f1e9\U0001f1ea", "\U0001d400", "\U0001d7d8", "\U00020000", "\u0301", "\u0e33", "\u00a0", "\u2003", "\u3000", "\u1680",
       "\u180e", "\x1c", "\x1f", "\x0b", "\x0c", "\x85", "\u2028", "\u2029", "\x00", "\x1b[1m", "\x08", "\x7f", "\ue000", "\ufffd", "\ufffe", "\uffff", "\U0010ffff", "\u0378", "%s", "%d", "{}", "{0}", "{name}", "\\n", "\\", "\\1", "$1", "''", "\"", "`", "~", "#", ";", "--", "&amp;", "+", "\u2215", "\uff0f", "\u2044"]


def odd(tier):
    """Odd texts alone and inside words, at the start and in the middle of a field, in errors and in sections."""
    for o in ODD:
        for w in (o, "AB" + o, o + "AB", "A" + o + "B", o + o, "N0450F350" + o, o + "1"):
            yield "N0450F350 ABC %s DEF" % w
            yield "N0450F350 ABC VFR %s TXT %s IFR DEF/N0400F300 GHI" % (w, w)
            if tier == "thorough" or w == o or w[0] == "A":
                for f in ("%s", "%s ABC", "N0450F350 %s", "N0450F350 %s ABC B9 %s", "N0450F350 ABC/%s DEF", "N0450F350 ABC STAY1/%s DEF", "N0450F350 C/%s/N0400F300F350 DEF", "N0100VFR %s", "N0450F350 ABC OAT %s GAT DEF", "N0450F350 ABC OAT TXT %s GAT DEF %s GHI",
                          "N0450F350 %s %s %s 00N001E 00N002E", "N0450F350 ABC T %s", "N0450F350 ABC B9 DEF %s"):
                    yield f.replace("%s", w)


def composed(tier, heads=None, nexts=None, wide=True):
    """Every finished segment at every head before every part, with some next elements; for two heads with every next element; repetitions, long beginnings and sections, names revisited, two settings of one point; the automatic dictionary."""
    yield from repeated(tier)
    yield from resets()
    yield from late(tier)
    yield from revisits()
    yield from dictionary.fields(tier)
    yield from recovering(tier)
    yield from mixtures(tier)
    yield from varied(tier)
    yield from odd(tier)
    yield from far(tier)
    nexts = nexts or ["", "DEF", "%%", "/"]
    seen = set()
    for hs, ns in ((heads or HEADS, nexts), (["N0450F350 ABC", "N0100VFR TXT"] if tier == "quick" else HEADS, gen.REPS_CORE if wide else [])):
        for h in hs:
            for s in SEGMENTS:
                for p in PARTS:
                    for n in ns:
                        f = " ".join(" ".join((h, s, p, n)).split())
                        if f not in seen:
                            seen.add(f)
                            yield f
    if wide:
        for i, s in enumerate(SEGMENTS):
            for j, q in enumerate(SEGMENTS):
                for k, p in enumerate(PARTS):
                    for n in nexts if tier == "thorough" else ("",) if (i + j + k) % 2 else ():
                        f = " ".join(" ".join((HEADS[2], s, q, p, n)).split())
                        if f not in seen:
                            seen.add(f)
                            yield f


EXTREMES = [{"ABC": "8959S17959W", "00N001E": "5010S17830E", "N0450F350": "M199F600"}, {"ABC": "89S179W", "DEF": "0000N00000E", "N0450F350": "K1999M1799"}, {"ABC": "KONAN090999", "00N001E": "90N180E", "N0450F350": "N0000A000"},
            {"ABC": "70N170E180999", "00N001E": "0001S00001W", "N0450F350": "M082S1130"}, {"ABC": "C", "DEF": "C", "00N001E": "00S000W", "N0450F350": "M001A999"}, {"ABC": "EGLL", "DEF": "EGLL", "00N001E": "70S170E"}, {"ABC": "70S170E", "N0450F350": "K0800F050"}, {"ABC": "4559N12359E", "DEF": "ABCDE"}]
LONG = [["DEF"] * 45, ["00N002E", "DCT", "01N002E"] * 15, ["%%"] * 40, ["DEF", "B9"] * 20 + ["GHI"], ["DEF", "STAY1", "/", "0010"] * 11, ["DEF", "OAT", "X", "GAT"] * 11 + ["DEF"], ["DEF", "C", "/", "GHI", "/", "M080F310F350"] * 8]


FAR_UNIT = [1, 3, 1, 2, 4, 4, 6]


def varied(tier):
    """Every element type in every context with extreme points, speeds and levels, and late in a long field."""
    for i, c in enumerate(CONTEXTS):
        for j, x in enumerate(gen.REPS):
            for k, v in enumerate(EXTREMES):
                for tail in ([], ["DEF"]) if tier == "thorough" else (["DEF"],) if (i + j + k) % 2 else ([],):
                    yield " ".join([v.get(t, t) for t in c + [x] + tail])
            for k, l in enumerate(LONG):
                if (tier == "thorough" or (i + j + k) % 4 == 0) and c[1:2] not in ([], ["SID"], ["ABC1A"]):
                    yield " ".join([c[0]] + l + c[1:] + [x, "DEF"])


MIX = [["ABC"], ["DEF"], ["50N020W"], ["5010S02030W"], ["70S170E"], ["00N180E"], ["KONAN"], ["50N020W090050"], ["5010N17930E090150"], ["AB"], ["EGLL"], ["KONAN180100"], ["C"]]
MIX_AFTER = [[], [], [], ["DCT"], ["B9"], ["UL123"], ["NATA"], ["/", "N0450F350"], ["/", "M082F390"], ["/", "K0830S1130"], ["/", "N0100A015"], ["STAY1", "/", "0130"], ["/", "N0120VFR"], ["/", "M070VFR"], ["VFR", "X"], ["VFR"], ["OAT", "Y"], ["IFPSTOP"], ["IFPSTOP", "/", "Z"],
             ["C", "/", "GHI", "/", "N0450F350F390"], ["C", "/", "51N021W", "/", "M082F350PLUS"], ["C", "/", "JKL", "/", "K0800S1130S1190"]]
def far(tier):
    """Fields of more than a hundred elements (parsed with a higher recursion limit, see sut.parse): beginnings of each kind before every segment and part."""
    for i, u in enumerate(dict.fromkeys(SEGMENTS[1:] + PARTS)):
        for j, (f, end) in enumerate(FILLERS):
            for k in (105, 140, 270, 420):
                if tier == "thorough" or (i + j * 5 + k) % 16 == 0:
                    yield " ".join(" ".join(["N0450F350", "MNO"] + [f] * (k // len(f.replace("/", " / ").split())) + [end, u, ("DEF", "")[(i + j) % 2]]).split())
    for i, u in enumerate(gen.REPS):
        for j, (head, end) in enumerate(SECTIONS):
            for k in (130, 300):
                if tier == "thorough" or (i + j) % 3 == 0:
                    yield " ".join([head] + [u] * k + [end, ("DEF/N0440F340 GHI", "DEF", "")[(i + k) % 3]])
    for i, c in enumerate(CONTEXTS):
        for j, x in enumerate(gen.REPS_CORE if tier == "quick" else gen.REPS):
            for k, (l, n) in enumerate(zip(LONG, (300, 80, 370, 120, 80, 60, 50))):
                if (tier == "thorough" or (i + j) % 7 == k) and c[1:2] not in ([], ["SID"], ["ABC1A"]):
                    yield " ".join([c[0]] + (l * n)[:n * FAR_UNIT[k]] + c[1:] + [x, "DEF"])


MIX_END = [["IFR", "ABC", "/", "N0450F350"], ["IFR", "50N030W", "/", "M080S1100"], ["GAT", "ABC"], ["GAT", "50N040W"], ["IFPSTART", "50N020W"], ["IFPSTART", "MNO"], ["IFR", "ABC"], ["IFR", "ABC", "/", "N0450VFR"], ["IFR"], ["GAT"]]


def mixtures(tier):
    """Long random mixtures of everything, more or less well formed; VERIF_SEED chooses them."""
    rnd = random.Random("mixtures %s" % os.environ.get("VERIF_SEED", "1"))
    heads = [["N0450F350"], ["M082F360"], ["K0830M0840"], ["N0150VFR"], ["M070VFR", "X"], ["N0450F351"], ["N0450F350", "SID"], ["M082F350", "ABC1A"], []]
    bad = [[x] for x in gen.REPS] + [["%%"], ["0102"], ["X" * 26], ["/"], ["STAY1", "/"], ["C", "/"], ["STAY2"]]
    few = 8000 if tier == "quick" else 150000
    for i in range(few + few // 20):
        good = rnd.choice((0.5, 0.7, 0.85, 0.95, 1.0))
        toks = list(rnd.choice(heads))
        size = rnd.choice((8, 15, 30, 50, 70, 95) if i < few else (110, 140, 270, 400))
        while len(toks) < size:
            r = rnd.random()
            if r > good:
                toks += rnd.choice(bad)
            elif rnd.random() < 0.15:
                toks += rnd.choice(MIX_END)
            else:
                toks += rnd.choice(MIX) + rnd.choice(MIX_AFTER)
        yield " ".join(toks + rnd.choice(([], [], ["STAR"], ["T"], ["ABC1A"], ["VFR"], ["/"])))


def ahead(tier):
    """Every element type in every context with every element type as second (third) one after it."""
    n = len(gen.REPS_CORE)
    for i, c in enumerate(CONTEXTS):
        for j, x in enumerate(gen.REPS):
            for k, y in enumerate(gen.REPS_CORE):
                a, b = gen.REPS_CORE[(i * 5 + j * 7 + k * 4) % n], gen.REPS_CORE[(i + j * 11 + k * 2) % n]
                yield " ".join(c + [x, a, y])
                if tier == "thorough":
                    yield " ".join(c + [x, a, b, y])
                    yield " ".join(c + [x, b, y, a])


def small_scope(tier):
    """Shared space: all pairs of all representatives after every context; all triples of core
    representatives after three contexts; thorough: triples of all representatives after those and
    quadruples of core representatives."""
    yield from pairs(gen.REPS, CONTEXTS, length=1)
    yield from pairs(gen.REPS_CORE, CONTEXTS, length=2)
    yield from pairs(gen.REPS, CONTEXTS[1:3], length=2)
    yield from pairs(gen.REPS_CORE, CONTEXTS[1:3], length=3)
    yield from composed(tier)
    yield from ahead(tier)
    if tier == "thorough":
        yield from pairs(gen.REPS, CONTEXTS, length=2)
        yield from pairs(gen.REPS, CONTEXTS[:3], length=3)
        yield from pairs(gen.REPS_CORE, CONTEXTS[3:], length=3)
        yield from pairs(gen.REPS_CORE, CONTEXTS[1:3], length=4)


def slots(templates, values, shifts=(0, 3571, 7919, 12347, 1013)):
    """Every value of a finite list in every slot ({0}, {1}, ...) of every template."""
    n = len(values)
    for t in templates:
        for i in range(n):
            yield t.format(*[values[(i + s) % n] for s in shifts])


ALL_LEVELS = [gen.lv(u, n) for u in "FASM" for n in range(10 ** {"F": 3, "A": 3, "S": 4, "M": 4}[u])]
ALL_SPEEDS = [gen.sp(u, n) for u in "NKM" for n in range(10 ** {"N": 4, "K": 4, "M": 3}[u])]
# every place a speed/level can be given; {L..} levels, {S..} speeds
PLACES = ["{s}{l}", "{s}{l} ABC", "N0400F300 ABC/{s}{l} DEF", "N0400F300 00N001E/{s}{l} DEF", "N0400F300 ABC B9 DEF/{s}{l} B9 GHI", "N0400F300 ABC DCT DEF/{s}{l} DCT GHI",
          "N0400F300 ABC VFR TXT IFR DEF/{s}{l} GHI", "N0100VFR IFR DEF/{s}{l} GHI", "N0400F300 ABC OAT X GAT DEF/{s}{l} GHI", "N0400F300 ABC IFPSTOP X IFPSTART DEF/{s}{l} GHI",
          "N0400F300 ABC C/DEF/{s}{l}F350 GHI", "N0400F300 ABC C/00N001E/{s}{l}PLUS GHI", "N0400F300 ABC C/DEF/M080A045{l} GHI", "N0400F300 ABC B9 DEF C/GHI/{s}S1130{l} B9 JKL",
          "N0400F300 ABC/{s}{l} %% DEF", "N0400F300 ABC %% /{s}{l} DEF", "N0400F300 ABC %% {s}{l} DEF", "N0400F300 ABC %% {s}{l}F350 DEF", "N0400F300 ABC STAY1/0100 DEF/{s}{l}",
          "N0400F300 ABC1A DEF/{s}{l} GHI", "N0400F300 ABC DEF/{s}{l} STAR", "N0400F300 ABC/{s}{l}/N0400F300 DEF", "N0400F300 ABC/N0450F350 DEF/{s}{l}", "N0400F300 ABC090050/{s}{l} DEF",
          "N0400F300 ABC VFR IFR 00N001E/{s}{l} 00N002E", "N0400F300 ABC/{s}VFR IFR DEF/{s}{l} GHI", "{s}VFR TXT IFR DEF/{s}{l}", "N0400F300 ABC/{s}VFR", "{s}VFR", "%% ABC/{s}{l} DEF",
          "N0400F300 ABC C DEF/{s}{l} GHI", "N0400F300 ABC C/DEF/{s}{l}{l} C/GHI/{s}{l}{l} JKL", "N0400F300 ABC/{s}{l} T", "N0400F300 ABC VFR IFR DEF/{s}VFR X IFR GHI/{s}{l}"]
