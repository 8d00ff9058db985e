"""Generators. Cases are plain JSON values; every random choice is a Hypothesis draw.

Pools hold systematically built representatives (simplest first, so drawing from them shrinks
towards simple tokens); the constructed strategies cover the rest of each syntactic class."""
import functools
from hypothesis import strategies as st
from . import refmodel as m

CAPS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
caps = functools.lru_cache(None)(lambda lo, hi: st.text(CAPS, min_size=lo, max_size=hi))
num = functools.lru_cache(None)(lambda n, hi=None: st.integers(0, hi if hi is not None else 10 ** n - 1).map(lambda x: "%0*d" % (n, x)))


def of_base(s, *bases):
    return s.filter(lambda t: m.classify(t)[0] in bases)


# ---- speeds and levels
LEVEL_NUM = {"F": (330, 0, 5, 10, 50, 100, 350, 355, 360, 361, 365, 410, 660, 999, 995, 1, 3, 4, 354, 100, 18),
             "A": (45, 0, 1, 3, 7, 50, 100, 361, 999, 123, 18),
             "S": (1130, 0, 1, 5, 50, 840, 1099, 1100, 1101, 1500, 9999, 12),
             "M": (840, 0, 1, 5, 82, 500, 1099, 1100, 1101, 2000, 9999, 12)}
SPEED_NUM = {"N": (450, 0, 1, 50, 100, 250, 999, 1000, 9999, 3, 487), "K": (800, 0, 1, 50, 900, 999, 1000, 9999, 3, 877),
             "M": (82, 0, 1, 50, 78, 84, 100, 205, 999, 7)}


def lv(u, n):
    return u + "%0*d" % (m.NDIG[u], n)


def sp(u, n):
    return u + "%0*d" % (m.SDIG[u], n)


LEVELS = [lv(u, n) for u in "FASM" for n in LEVEL_NUM[u]]
SPEEDS = [sp(u, n) for u in "NKM" for n in SPEED_NUM[u]]
level_any = st.one_of(st.sampled_from(LEVELS), *[num(m.NDIG[u]).map(lambda d, u=u: u + d) for u in "FASM"])
level = level_any.map(lambda l: l if l[0] != "F" else "F%03d" % (int(l[1:]) // 5 * 5))      # flight levels end in 0 or 5
speed = st.one_of(st.sampled_from(SPEEDS), *[num(m.SDIG[u]).map(lambda d, u=u: u + d) for u in "NKM"])
cat = lambda *s: st.tuples(*s).map("".join)
speed_level = cat(speed, level)
speed_level_any = cat(speed, level_any)
speed_vfr = speed.map(lambda s: s + "VFR")
climb = st.one_of(cat(speed, level, level), speed_level.map(lambda s: s + "PLUS"))
climb_any = st.one_of(cat(speed, level_any, level_any), speed_level_any.map(lambda s: s + "PLUS"))

# ---- points
PRPS = ["ABC", "A", "AB", "DEF", "EGLL", "KONAN", "LAMSO", "B", "NS", "XX", "EDDF", "VFRA", "CC", "ZZZZZ", "SPY", "SIDS", "TT", "STAY", "NAT",
        "PTS", "IFRX", "DCTS", "OATS", "PLUS", "E", "N", "S", "W", "ADEP", "ADES", "NULL", "IFPS", "STARS", "NATAL", "FIR", "CT"]
prp = st.one_of(st.sampled_from(PRPS), of_base(caps(1, 5), "POINT"))
LATD = [0, 1, 45, 89, 90, 12, 60]
LOND = [0, 1, 45, 179, 180, 120, 90, 7]
MINS = [0, 1, 30, 59, 15]
LLS = ["%02d%s%03d%s" % (a, n, o, e) for a, o in zip(LATD, LOND[:7]) for n in "NS" for e in "EW"] + \
      ["%02d%02d%s%03d%02d%s" % (a, mi, n, o, mo, e) for (a, mi, o, mo) in ((0, 30, 0, 15), (45, 59, 120, 1), (89, 1, 179, 59), (90, 0, 180, 0), (12, 34, 7, 56))
       for n in "NS" for e in "EW"]
ns, ew = st.sampled_from("NS"), st.sampled_from("EW")
ll_deg = cat(num(2, 90), ns, num(3, 180), ew)
ll_min = cat(num(2, 89), num(2, 59), ns, num(3, 179), num(2, 59), ew)
ll_deg_any = cat(num(2), ns, num(3), ew)
ll_min_any = cat(num(4), ns, num(5), ew)
bearing_dist = cat(num(3, 360), num(3))
ll = st.one_of(st.sampled_from(LLS), ll_deg, ll_min)
llbd = cat(ll, bearing_dist)
bd = cat(prp.filter(lambda t: len(t) <= 5), bearing_dist)
ll_any = st.one_of(ll, ll_deg_any, ll_min_any)
edge_num = lambda n, vals: st.sampled_from(vals).map(lambda x: "%0*d" % (n, x))
ll_edge = st.one_of(cat(edge_num(2, [90, 91, 89, 99]), ns, edge_num(3, [180, 181, 179, 190, 360, 999]), ew),
                    cat(edge_num(4, [8959, 8960, 9000, 9001, 9059, 9100, 1060, 1099, 59, 60]), ns,
                        edge_num(5, [17959, 17960, 18000, 18001, 18059, 18100, 1060, 99, 59, 60, 36000]), ew))
brg_any = st.one_of(edge_num(3, [0, 359, 360, 361, 400, 999, 36, 180]), num(3))
coord_any = st.one_of(ll_any, ll_edge, cat(st.one_of(ll_any, ll_edge), brg_any, num(3)))
bd_any = cat(prp, brg_any, num(3))
coord = st.one_of(ll, llbd)
point_name = prp                                    # no coordinates and no lat/long restriction
point = st.one_of(prp, prp, coord, bd)
point_any = st.one_of(prp, coord_any, bd_any)

# ---- routes, SID/STAR
ROUTES = ["B9", "UL9", "A1B", "A12B", "A123B", "A12", "A123", "ABC123", "ABC1", "ABC12", "UL1A", "UL12", "UL123", "ABCD1", "ABCD12", "UL12A",
          "UL123A", "NATA", "NATZ", "NATA1", "PTS1", "PTSA", "T1", "C1", "V9", "N123", "M12", "K12A"]
route = st.one_of(st.sampled_from(ROUTES), of_base(cat(caps(1, 4), st.text("0123456789", min_size=1, max_size=3), caps(0, 1)), "ROUTE"))
SIDSTARS = ["ABC1A", "ABC12A", "ABCDE1", "ABCDE12", "ABCD1A", "ABCDE1A", "ABCDEF1A", "ABCDE12A", "SID1A", "KONAN9Z", "NATAB1"]
sid_star = st.one_of(st.sampled_from(SIDSTARS), of_base(cat(caps(3, 6), st.text("0123456789", min_size=1, max_size=2), caps(0, 1)), "SID_STAR"))

# ---- the rest
STAYS = ["STAY%d" % i for i in range(10)]
TIMES = ["0000", "0001", "0059", "0100", "0130", "1259", "2359", "2300", "0200", "1001"]
stay_time = st.one_of(st.sampled_from(TIMES), st.integers(0, 1439).map(lambda x: "%02d%02d" % divmod(x, 60)))
UNKNOWN = ["%%", "1", "@", "ABCDEF", "2400", "0060", "N045", "F350", "N0450F35", "N0450F3500", "M82F350", "B9B9B9", "abc", "STAY", "STAY10",
           "91N", "1N1E", "n0450f350", "-", "!", "A!B", "?!?!", "DEF.", "Ä", "٣٤", "N0450", "C1234567", "00N001X", "vfr", "VFRVFR", "<b>", "&amp;", "\"", "12345", "123",
           "N0450VF", "00n001e", "0000N0000E", "KONANN"]
UNKNOWN = [u for u in UNKNOWN if m.classify(u)[0] == "UNKNOWN"]
TOO_LONG = ["A" * 26, "N0450F350N0450F350N0450F350", "X" * 60, "VFRVFRVFRVFRVFRVFRVFRVFRVFR", "!" * 26, "12N123E" * 4]
word_chars = st.characters(blacklist_characters=" \n\t\r/", blacklist_categories=("Cs",))
unknown = st.one_of(st.sampled_from(UNKNOWN), of_base(st.text(st.one_of(st.sampled_from("ABCNSEW0123456789!%<&"), word_chars), min_size=1, max_size=10), "UNKNOWN"))
too_long = st.one_of(st.sampled_from(TOO_LONG), st.integers(26, 40).map(lambda n: "ABCDEFGHIJ0123456789KLMNOPQRSTUVWXYZ98765"[:n]))
KEYWORDS = ["VFR", "IFR", "OAT", "GAT", "IFPSTOP", "IFPSTART", "DCT", "T", "C", "SID", "STAR", "/"]

# representative of every element type and subtype group, for exhaustive small scope enumeration
REPS = ["ABC", "EGLL", "00N001E", "0130S00230W", "ABC370050", "01N002E090050", "0130S00230W180100", "B9", "ABC123", "ABC12", "ABCD1", "NATA", "PTS1",
        "ABC1A", "KONAN1", "SID", "STAR", "DCT", "/", "VFR", "OAT", "IFPSTOP", "IFR", "GAT", "IFPSTART", "N0100VFR", "M080VFR", "K0300VFR",
        "N0450F351", "K0800S1100", "M082F350", "M080A010", "K0800S1100A050", "N0450F350F371", "M082F350PLUS", "STAY1", "0102", "T", "C",
        "%%", "A!B", "X" * 26]
REPS_CORE = ["ABC", "00N001E", "ABC370050", "01N002E090050", "B9", "NATA", "ABC1A", "SID", "STAR", "DCT", "/", "VFR", "OAT", "IFPSTOP", "IFR", "GAT",
             "IFPSTART", "N0100VFR", "N0450F351", "K0800S1100A050", "M082F350PLUS", "STAY1", "0102", "T", "C", "%%", "X" * 26]
any_token = st.one_of(st.sampled_from(REPS), st.sampled_from(KEYWORDS), point_any, route, sid_star, speed_level_any, speed_vfr, climb_any, stay_time,
                      st.sampled_from(STAYS), unknown, too_long, st.sampled_from(["/", "/", "C", "IFR", "VFR", "GAT", "OAT"]))
start_token = st.one_of(speed_level, speed_level, speed_vfr)

# ---- well-formed routes: lists of elements (each a list of tokens), by construction


@st.composite
def stay_el(draw):
    return [draw(st.sampled_from(STAYS)), "/", draw(stay_time)]


@st.composite
def climb_el(draw, pt=None):
    return ["C", "/", draw(pt if pt is not None else point), "/", draw(climb)]


BREAKWORD = st.one_of(st.sampled_from(["TEXT", "FREE", "VIA", "ABC", "B9", "DCT", "/", "N0450F350", "00N001E", "VFR", "SID", "STAR", "T", "C", "0102", "STAY1",
                                       "%%", "N0100VFR", "OAT", "IFPSTOP", "IFPSTART", "GAT", "IFR"]), st.sampled_from(REPS), unknown)


def break_text_ok(words, kind):
    """No proper (or incomplete) end of a `kind` section inside words, whatever follows them."""
    end = {"VFR": "IFR", "OAT": "GAT", "IFPSTOP": "IFPSTART"}[kind]
    return [w for i, w in enumerate(words) if not (w == end and (i + 1 == len(words) or m.classify(words[i + 1])[0] == "POINT")) and len(w) <= 25]


@st.composite
def break_words(draw, kind, max_size=6):
    ws = draw(st.lists(BREAKWORD, max_size=max_size))
    prev = None
    while ws != prev:                      # dropping a word can bring a terminator next to a point
        prev, ws = ws, break_text_ok(ws, kind)
    return ws


@st.composite
def valid_route(draw, max_legs=7, min_legs=0, with_breaks=True, with_climb=True, with_stay=True, points=None, coords=True):
    """A well-formed field as a flat token list. Grammar: see DESIGN.md."""
    pt = points if points is not None else (point if coords else prp)
    named = prp if points is None else points.filter(lambda t: m.classify(t)[1] not in m.LATLON)
    toks = []
    start_vfr = with_breaks and draw(st.integers(0, 9)) == 9
    state = None                            # what may follow: see below
    if start_vfr:
        toks.append(draw(speed_vfr))
        toks += draw(break_words("VFR"))
        if draw(st.integers(0, 3)) == 0:
            return toks
        toks += ["IFR", draw(pt), "/", draw(speed_level)]
        last = toks[-3]
    else:
        toks.append(draw(speed_level))
        k = draw(st.integers(0, 9))
        last = None
        if k >= 7:
            toks.append("SID" if k == 7 else draw(sid_star))
            last = "SID"
            if k == 9 and draw(st.integers(0, 2)) == 0:           # SID followed by a route
                toks.append(draw(route))
                last = "ROUTE"
        elif k == 6:
            toks.append("DCT")
            last = "DCT"
        if last == "ROUTE":
            toks.append(draw(named))
        else:
            toks.append(draw(pt))
        last = toks[-1]
    seen_stay = True       # STAY directly after the first point is fine too, kept simple
    for _ in range(draw(st.integers(min_legs, max_legs))):
        latlon = m.classify(last)[1] in m.LATLON
        k = draw(st.integers(0, 19))
        if k in (0, 1, 2):                                          # adjacent point
            last = draw(pt)
            toks.append(last)
        elif k in (3, 4, 5):
            last = draw(pt)
            toks += ["DCT", last]
        elif k in (6, 7, 8, 9) and not latlon:                      # ATS route to a named point
            last = draw(named)
            toks += [draw(route), last]
        elif k in (10, 11, 12):                                     # speed/level change at the last point
            last = draw(pt)
            toks += ["/", draw(speed_level), last]
        elif k in (13,) and with_stay:
            toks += draw(stay_el())
            last = draw(pt)
            toks.append(last)
        elif k in (14, 15) and with_climb:
            el = draw(climb_el(pt))
            toks += el
            last = el[2]
        elif k in (16, 17, 18) and with_breaks:
            kind = draw(st.sampled_from(["VFR", "OAT", "IFPSTOP", "SVFR"]))
            if kind == "SVFR":
                toks += ["/", draw(speed_vfr)]
                kind = "VFR"
            else:
                toks.append(kind)
            toks += draw(break_words(kind))
            if draw(st.integers(0, 4)) == 0:
                return toks
            last = draw(pt)
            if kind == "VFR":
                if draw(st.integers(0, 4)) == 0:                    # one point IFR section
                    toks += ["IFR", last, "/", draw(speed_vfr)] + draw(break_words("VFR"))
                    return toks
                toks += ["IFR", last, "/", draw(speed_level)]
            else:
                toks += [{"OAT": "GAT", "IFPSTOP": "IFPSTART"}[kind], last]
        elif k == 19:
            toks.append("C")                                        # a point called C
            last = draw(pt)
            toks.append(last)
    k = draw(st.integers(0, 9))
    if k == 7:
        toks.append("T")
    elif k == 8:
        toks.append("STAR")
    elif k == 9:
        toks.append(draw(sid_star))
    elif k == 6 and toks and m.classify(last)[1] not in m.LATLON and with_stay:
        toks += draw(stay_el())
    return toks


@st.composite
def mutated_route(draw, base=None, max_edits=3, **kw):
    toks = list(draw(base if base is not None else valid_route(**kw)))
    for _ in range(draw(st.integers(1, max_edits))):
        k = draw(st.integers(0, 3))
        i = draw(st.integers(0, max(0, len(toks) - 1)))
        if k == 0:
            toks.insert(i, draw(any_token))
        elif k == 1 and toks:
            toks[i] = draw(any_token)
        elif k == 2 and toks:
            del toks[i]
        elif toks:
            j = draw(st.integers(0, len(toks) - 1))
            toks[i], toks[j] = toks[j], toks[i]
    return toks


@st.composite
def cut_route(draw, **kw):
    """A well-formed route that ends anywhere, also in the middle of an element, perhaps with something after it."""
    toks = draw(valid_route(**kw))
    return toks[:draw(st.integers(0, len(toks)))] + draw(st.lists(st.sampled_from(REPS_CORE), max_size=2))


@st.composite
def composed(draw, max_segments=4):
    """Head, finished segments, part, next elements: the enumerated space at a greater depth."""
    from . import spaces
    pick = lambda pool: m.tokenize(draw(st.sampled_from(pool)))
    toks = pick(spaces.HEADS)
    for _ in range(draw(st.integers(0, max_segments))):
        toks = toks + pick(spaces.SEGMENTS)
    return [t[0] if isinstance(t, tuple) else getattr(t, "name", t) for t in toks + pick(spaces.PARTS)] + draw(st.lists(st.sampled_from(REPS_CORE), max_size=2))


@st.composite
def soup(draw, max_size=14):
    s = draw(st.one_of(start_token.map(lambda t: [t]), st.just([])))
    return s + draw(st.lists(any_token, max_size=max_size))


@st.composite
def core_soup(draw, max_size=10):
    """Dense in state interactions: only one representative per element type."""
    s = draw(st.sampled_from([["N0450F350"], ["N0450F350", "ABC"], ["N0100VFR"], []]))
    return s + draw(st.lists(st.sampled_from(REPS_CORE), max_size=max_size))


def long_route(lo=8, hi=28, **kw):
    """Well-formed routes of up to about 100 elements."""
    return valid_route(max_legs=hi, min_legs=lo, **kw).map(lambda t: t[:100])


def route_tokens(tier="quick", **kw):
    return st.one_of(valid_route(**kw), mutated_route(**kw), cut_route(**kw), composed(), soup(), core_soup())


def rare_long(**kw):
    """Mostly short routes, one in eight long."""
    return st.integers(0, 7).flatmap(lambda k: long_route(**kw) if k == 7 else route_tokens(**kw))


# ---- layout

SEP = st.one_of(st.just(" "), st.just(" "), st.text(" \t\n\r", min_size=1, max_size=3))


def join(toks, seps=None):
    """Join tokens; '/' may touch its neighbours (separator ''), anything else gets a separator."""
    out = []
    for i, t in enumerate(toks):
        if i:
            s = seps[i - 1] if seps and i - 1 < len(seps) else (" " if not seps else "")
            if not s and t != "/" and toks[i - 1] != "/":
                s = " "
            out.append(s)
        out.append(t)
    return "".join(out)


def plain(toks):
    """Usual layout: '/' written without spaces."""
    return join(toks, [""] * len(toks))


@st.composite
def laid_out(draw, toks_strategy):
    toks = draw(toks_strategy)
    k = draw(st.integers(0, 3))
    if k < 2:
        return plain(toks)
    seps = draw(st.lists(st.one_of(st.just(""), SEP), min_size=len(toks), max_size=len(toks)))
    pre, post = ("", "") if k == 2 else (draw(st.text(" \t\n\r", max_size=2)), draw(st.text(" \t\n\r", max_size=2)))
    return pre + join(toks, seps) + post


def field(tier="quick", **kw):
    return laid_out(rare_long(**kw))


raw_text = st.one_of(st.text(max_size=60), st.text(" /ABCNSEWVFRITDM0123456789!\n\t", max_size=60), st.text(" /NC0IFRV", max_size=30),
                     st.text("/ \t\n\r", max_size=12))
