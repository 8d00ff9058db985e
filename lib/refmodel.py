"""Reference model of Field 15 extraction, written from the documentation and the documented state
tables as an explicit iterative state machine. It shares no code with /repo and only uses
geographiclib's WGS84 solver (a dependency, trusted) for geodesics."""
import math
import sys
if "/opt/venv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/venv/lib/python3.12/site-packages")
from geographiclib.geodesic import Geodesic

GEOD = Geodesic(6378137.0, 1 / 298.257223563)
DIG = frozenset("0123456789")
CAP = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZ")

MESSAGES = {
    1: "The first Field 15 element must be a SPEED/LEVEL and not '!'",
    3: "The element '!' is an unrecognised Field 15 element",
    4: "Element '!' is too long for a Field 15 Element",
    5: "Expecting '/' before '!'",
    6: "No VFR section preceding this '!' rule change indicator",
    7: "No OAT section preceding this '!' rule change indicator",
    8: "No IFPSTART preceding this '!' indicator",
    9: "Expecting 'C/POINT/' before '!'",
    10: "Expecting the keyword 'STAY' before '!'",
    11: "'/' not expected preceding '!'",
    12: "Expecting a PRP after an ATS route instead of '!'",
    13: "Rule change '!' cannot occur following an ATS route element",
    14: "Cannot go direct ('!') from an ATS route element, must be preceded by a point",
    15: "'!' must be preceded by a point",
    16: "'!' cannot follow a '/'",
    18: "Expecting cruise climb point name before '!'",
    19: "Expecting end of field 15 after truncation indicator 'T' instead od '!'",
    20: "Field 15 is incomplete, expecting additional data after the final '!'",
    21: "A 'DCT' must be followed by a point instead of '!'",
    22: "Expecting '/SPEED/LEVEL' following '!' to complete rule change to IFR",
    23: "The first SPEED/LEVEL cannot be followed by the element '!'",
    24: "Expecting SID or DPF after first SPEED/LEVEL element instead of '!'",
    25: "Field 15 cannot end with the '!' element",
    26: "Expecting '/' after cruise / climb 'C/POINT' instead of '!'",
    27: "Expecting point / speed / altitude / altitude after start of Cruise/Climb indicator 'C/!'",
    28: "Expecting speed / altitude / altitude after start of Cruise/Climb indicator 'C/!/'",
    29: "Expecting Cruise/Climb 'SPEED/ALTITUDE/ALTITUDE' or 'SPEED/ALTITUDE/PLUS' instead of '!'",
    30: "SID '!' must follow the first SPEED/ALTITUDE and cannot appear anywhere else in field 15",
    31: "The SID must be followed by a point or STAR, cannot be followed with '!'",
    32: "The SID cannot be followed by another SID '!'",
    34: "A STAR must be the last element in field 15 and cannot be followed with '!'",
    35: "Expecting STAY time as '/HHMM' after '!'",
    36: "Expecting forward slash '/' after STAY instead of '!'",
    37: "Time value as HHMM token missing after '!'",
    38: "Expecting HHMM token following STAYx/ element",
    39: "'!' Cannot follow a STAY/HHMM' element",
    40: "The flight level '!' must end in a zero or 5",
    41: "Field 15 is empty",
    42: "Latitude degree value must be 0 to 90 instead of '!'",
    43: "Latitude degree/minute value must be 0 to 9000 with minutes < 60 instead of '!'",
    44: "Longitude degree value must be 0 to 180 instead of '!'",
    45: "Longitude degree/minute value must be 0 to 18000 with minutes < 60 instead of '!'",
    46: "Bearing degree value must be 0 to 360 instead of '!'",
    47: "ATS route '!' cannot follow a Lat/Long point",
    48: "Lat/Long '!' cannot follow an ATS route",
    49: "Field 15 contains no route description",
    50: "Expecting SPEED/LEVEL or SPEED/VFR after '/' instead of '!'",
    52: "Expecting point / speed / altitude / altitude after start of Cruise/Climb indicator 'C!'",
    53: "Add crossing point between previous ATS route and '!'",
    54: "Add APF between previous ATS route and STAR '!'",
    55: "The SPEED/LEVEL '!' cannot follow an ATS route",
}

# ---------------------------------------------------------------- tokenizing


def tokenize(field, ws=" \n\t\r/"):
    """[(text, start, end)]: maximal runs of non separators, and each separating '/'."""
    out, start = [], None
    for i, ch in enumerate(field + "\0"):
        end = i == len(field)
        if end or ch in ws:
            if start is not None:
                out.append((field[start:i], start, i))
                start = None
            if not end and ch == "/":
                out.append(("/", i, i + 1))
        elif start is None:
            start = i
    return out


# ---------------------------------------------------------------- classification

FIXED = {"/": ("SLASH", "SLASH"), "VFR": ("BREAK_START", "VFR"), "OAT": ("BREAK_START", "OAT"), "IFPSTOP": ("BREAK_START", "IFPSTOP"),
         "IFR": ("BREAK_END", "IFR"), "GAT": ("BREAK_END", "GAT"), "IFPSTART": ("BREAK_END", "IFPSTART"), "DCT": ("DCT", "DCT"),
         "T": ("TRUNCATE", "TRUNCATE"), "C": ("C", "C"), "SID": ("SID", "SID_LITERAL"), "STAR": ("STAR", "STAR_LITERAL")}
UNKNOWN = ("UNKNOWN", "UNKNOWN")
MAXLEN = 25
NDIG = {"F": 3, "A": 3, "S": 4, "M": 4}          # digits of a level, by its unit
SDIG = {"K": 4, "N": 4, "M": 3}                  # digits of a speed, by its unit


def digits(s):
    return len(s) > 0 and all(c in DIG for c in s)


def caps(s):
    return len(s) > 0 and all(c in CAP for c in s)


def take_level(s):
    """Split a leading level off s: (level, rest) or None."""
    if s and s[0] in NDIG:
        n = NDIG[s[0]]
        if len(s) >= 1 + n and digits(s[1:1 + n]):
            return s[:1 + n], s[1 + n:]
    return None


def split_speed(t):
    """(speed, [levels], tail) of a speed form, or None; tail is '', 'VFR' or 'PLUS'."""
    if not t or t[0] not in SDIG:
        return None
    n = SDIG[t[0]]
    if len(t) < 1 + n or not digits(t[1:1 + n]):
        return None
    speed, rest, levels = t[:1 + n], t[1 + n:], []
    while len(levels) < 2:
        x = take_level(rest)
        if not x:
            break
        levels.append(x[0])
        rest = x[1]
    if rest == "VFR" and not levels or rest == "PLUS" and len(levels) == 1 or rest == "" and levels:
        return speed, levels, rest
    return None


def split_coord(t):
    """(latdeg, latmin, ns, londeg, lonmin, ew, bd) of a coordinate form as strings, or None."""
    for dl, dm in ((2, 0), (2, 2)):
        n1 = dl + dm
        n2 = n1 + 1
        if len(t) in (2 * n2 + 1, 2 * n2 + 7):
            la, ns, lo, ew, bd = t[:n1], t[n1:n1 + 1], t[n2:n2 + n2], t[2 * n2:2 * n2 + 1], t[2 * n2 + 1:]
            if digits(la) and ns in ("N", "S") and digits(lo) and len(lo) == n2 and ew in ("E", "W") and (bd == "" or digits(bd) and len(bd) == 6):
                return la[:2], la[2:], ns, lo[:3], lo[3:], ew, bd
    return None


ATS, OLD, TURK, RUS, SS = ("ROUTE", "ATS"), ("ROUTE", "ATS_OLD"), ("ROUTE", "ATS_TURK"), ("ROUTE", "ATS_RUS"), ("SID_STAR", "STAR")
# (number of letters, number of digits, trailing letter) -> type
SHAPES = {(1, 1, 0): ATS, (2, 1, 0): ATS, (1, 1, 1): ATS, (1, 2, 1): ATS, (1, 3, 1): ATS, (1, 2, 0): ATS, (1, 3, 0): ATS,
          (3, 3, 0): TURK, (3, 1, 0): OLD, (3, 2, 0): OLD, (2, 1, 1): ATS, (2, 2, 0): ATS, (2, 3, 0): ATS, (4, 1, 0): RUS,
          (4, 2, 0): RUS, (2, 2, 1): ATS, (2, 3, 1): ATS,
          (3, 1, 1): SS, (3, 2, 1): SS, (5, 1, 0): SS, (5, 2, 0): SS, (4, 1, 1): SS, (5, 1, 1): SS, (6, 1, 1): SS, (5, 2, 1): SS,
          (1, 6, 0): ("POINT", "PRP_BD"), (2, 6, 0): ("POINT", "PRP_BD"), (3, 6, 0): ("POINT", "PRP_BD"),
          (4, 6, 0): ("POINT", "PRP_BD"), (5, 6, 0): ("POINT", "PRP_BD")}


def classify(t):
    if len(t) > MAXLEN:
        return "TOO_LONG", "UNKNOWN"
    if t in FIXED:
        return FIXED[t]
    if len(t) == 5 and t.startswith("STAY") and t[4] in DIG:
        return "STAY", "STAY"
    if len(t) == 4 and digits(t):
        return ("STAY_TIME", "STAY_TIME") if int(t[:2]) < 24 and int(t[2:]) < 60 else UNKNOWN
    if t.startswith("NAT") and (len(t) == 4 and t[3] in CAP or len(t) == 5 and t[3] in CAP and t[4] in DIG):
        return "ROUTE", "NAT"
    if t.startswith("PTS") and len(t) == 4 and (t[3] in CAP or t[3] in DIG):
        return "ROUTE", "PTS"
    if caps(t):
        return {1: ("POINT", "PRP"), 2: ("POINT", "PRP"), 3: ("POINT", "PRP"), 4: ("POINT", "PRP_AERO"), 5: ("POINT", "PRP")}.get(len(t), UNKNOWN)
    c = split_coord(t)
    if c:
        return "POINT", ("LLBD_" if c[6] else "LL_") + ("MIN" if c[1] else "DEG")
    sp = split_speed(t)
    if sp:
        units = sp[0][0] + "".join(l[0] for l in sp[1])
        if sp[2] == "VFR":
            return "SPEED_VFR", units + "V"
        if sp[2] == "PLUS":
            return "SPEED_ALTITUDE_PLUS", units + "_P"
        return ("SPEED_ALTITUDE", units) if len(sp[1]) == 1 else ("SPEED_ALTITUDE_ALTITUDE", units)
    i = 0
    while i < len(t) and t[i] in CAP:
        i += 1
    j = i
    while j < len(t) and t[j] in DIG:
        j += 1
    tail = t[j:]
    if tail == "" or len(tail) == 1 and tail in CAP:
        return SHAPES.get((i, j - i, len(tail)), UNKNOWN)
    return UNKNOWN


LATLON = ("PRP_BD", "LL_DEG", "LL_MIN", "LLBD_DEG", "LLBD_MIN")

# ---------------------------------------------------------------- quantities


def level_exact(level):
    n = int(level[1:])
    return n * 100 * 0.3048 if level[0] in "FA" else float(n * 10)


def rnd(x):
    return int(math.floor(x + 0.5))


def level_si(level):
    return rnd(level_exact(level))


def sound(height):
    t = 15.0 - 0.00645 * min(height, 11000)
    return 331.15 * math.sqrt((t + 273.15) / 273.15)


def speed_exact(speed, alt_si):
    n = int(speed[1:])
    if speed[0] == "K":
        return n * 0.2777778
    if speed[0] == "N":
        return n * 0.514444
    return n / 100 * (343.0 if alt_si == 0 else sound(alt_si))


def speed_si(speed, alt_si):
    return rnd(speed_exact(speed, alt_si))


def coordinates(t):
    """(lat, lon, errors, (bearing, distance NM) or None) of a coordinate form, before projection."""
    la, lam, ns, lo, lom, ew, bd = split_coord(t)
    lat, lon = float(int(la)), float(int(lo))
    errs = []
    if lam:
        lat += int(lam) / 60.0
        lon += int(lom) / 60.0
        if int(la + lam) > 9000 or int(lam) > 59:
            errs.append(43)
        if int(lo + lom) > 18000 or int(lom) > 59:
            errs.append(45)
    else:
        if int(la) > 90:
            errs.append(42)
        if int(lo) > 180:
            errs.append(44)
    b = None
    if bd:
        b = int(bd[:3]), int(bd[3:])
        if b[0] > 360:
            errs.append(46)
    return -lat if ns == "S" else lat, -lon if ew == "W" else lon, errs, b


def project(lat, lon, brg, nm):
    r = GEOD.Direct(lat, lon, brg, nm * 1852.0)
    return r["lat2"], r["lon2"]


def inverse(lat1, lon1, lat2, lon2):
    r = GEOD.Inverse(lat1, lon1, lat2, lon2)
    return r["azi1"], r["s12"]


# ---------------------------------------------------------------- the parser model

class Tok:
    __slots__ = ("name", "start", "end", "base", "sub", "i", "role")

    def __init__(self, name, start, end, i):
        self.name, self.start, self.end, self.i = name, start, end, i
        self.base, self.sub = classify(name)
        self.role = None


def new_record(name, start, end, base, sub):
    return dict(name=name, start=start, end=end, base=base, sub=sub, altitude="", altitude_si=0.0, speed="", speed_si=0.0, rules="",
                stay=0, break_text="", error_text="", cruise_to="", cruise_to_si=0.0, lat=0.0, lon=0.0, bearing=0.0, distance=0.0, valid=False)


class Model:
    """Result attributes: records, errors (with 'num'), derived, ok, toks, trace (states visited)."""

    def __init__(self, field, ws=" \n\t\r/"):
        self.field = field
        self.toks = [Tok(t, s, e, i) for i, (t, s, e) in enumerate(tokenize(field, ws))]
        self.pos = -1
        self.records, self.errors, self.derived, self.trace = [], [], "", []
        self.records.append(new_record("ADEP", 0, 0, "POINT", "PRP_AERO"))
        self.run()
        self.ok = not self.errors

    # -- primitives
    def peek(self, n=1):
        i = self.pos + n
        return self.toks[i] if 0 <= i < len(self.toks) else None

    def next(self):
        self.pos += 1
        return self.peek(0)

    def err(self, tok, num):
        r = new_record(tok.name, tok.start, tok.end, tok.base, tok.sub)
        r["error_text"] = MESSAGES[num].replace("!", tok.name)
        r["num"] = num
        r["state"] = self.trace[-1] if self.trace else "START"
        self.errors.append(r)

    def bad(self, tok, num):
        self.err(tok, num)
        return "RESYNC", None

    def add(self, tok, name=None):
        p = self.records[-1]
        r = new_record(name or tok.name, tok.start, tok.end, tok.base, tok.sub)
        for k in ("altitude", "altitude_si", "speed", "speed_si", "rules"):
            r[k] = p[k]
        r["tok"] = tok.i
        self.records.append(r)
        return r

    def set_speed_level(self, rec, speed, level):
        rec["altitude"], rec["altitude_si"] = level, level_si(level)
        rec["speed"], rec["speed_si"] = speed, speed_si(speed, rec["altitude_si"])
        rec["given"] = True                       # this record carries a speed and level of its own

    def check_level(self, tok, level):
        if level[0] == "F" and int(level[1:]) % 5:
            self.err(tok, 40)

    def leg(self):
        recs = self.records
        if not recs[-1]["valid"]:
            return
        if recs[-2]["valid"]:
            a = recs[-2]
        elif len(recs) > 2 and recs[-2]["base"] not in ("POINT", "C") and recs[-3]["valid"]:
            a = recs[-3]
        else:
            return
        b = recs[-1]
        a["bearing"], a["distance"] = inverse(a["lat"], a["lon"], b["lat"], b["lon"])

    def coords(self, tok, rec):
        if tok.sub == "PRP_BD":
            if int(tok.name[-6:-3]) > 360:
                self.err(tok, 46)
        elif tok.sub in LATLON:
            lat, lon, errs, bd = coordinates(tok.name)
            for e in errs:
                self.err(tok, e)
            if bd:
                lat, lon = project(lat, lon, *bd)
            rec["lat"], rec["lon"], rec["valid"] = lat, lon, True
            self.leg()

    # -- states: each takes a token (or None for RESYNC/POST_SID) and returns (state, token) or None
    def run(self):
        t = self.next()
        if t is None:
            r = new_record("NULL", 0, 0, "UNKNOWN", "UNKNOWN")
            r["error_text"], r["num"], r["state"] = MESSAGES[41], 41, "START"
            self.errors.append(r)
            self.records.append(new_record("ADES", 0, 0, "POINT", "PRP_AERO"))
            return
        if t.base == "SPEED_VFR":
            step = "SVFR", t
        elif t.base == "SPEED_ALTITUDE":
            step = "SA", t
        else:
            step = self.bad(t, 1)
        while step is not None:
            self.trace.append(step[0])
            step = getattr(self, "s_" + step[0])(step[1])
        if t.base == "SPEED_VFR":
            self.records[0]["rules"] = "VFR"
        elif t.base == "SPEED_ALTITUDE" and len(self.toks) == 1:
            self.err(t, 49)
        ades = new_record("ADES", 0, 0, "POINT", "PRP_AERO")
        ades["rules"] = self.records[-1]["rules"]
        self.records.append(ades)
        rules = [r["rules"] for r in self.records]
        if rules[0] == "VFR":
            self.derived = "Z" if "IFR" in rules else "V"
        else:
            self.derived = "Y" if "VFR" in rules else "I"

    def s_SA(self, tok):
        speed, levels, _ = split_speed(tok.name)
        r = self.records[-1]
        self.set_speed_level(r, speed, levels[0])
        self.check_level(tok, levels[0])
        r["rules"] = "IFR"
        tok.role = "speed"
        first = len(self.records) == 1
        n = self.next()
        return n and ("POST_ADEP" if first else "POST_POINT", n)

    def s_CLIMB(self, tok):
        speed, levels, tail = split_speed(tok.name)
        r = self.records[-1]
        self.set_speed_level(r, speed, levels[0])
        self.check_level(tok, levels[0])
        if tail == "PLUS":
            r["cruise_to"], r["cruise_to_si"] = "PLUS", 0.0
        else:
            r["cruise_to"], r["cruise_to_si"] = levels[1], level_si(levels[1])
            self.check_level(tok, levels[1])
        r["rules"] = "IFR"
        tok.role = "climb"
        n = self.next()
        return n and ("POST_POINT", n)

    def s_SVFR(self, tok):
        p = self.records[-1]
        r = self.add(tok, "VFR")
        self.set_speed_level(r, split_speed(tok.name)[0], "F050")
        r["rules"] = "VFR"
        for k in ("altitude", "altitude_si", "speed", "speed_si"):
            p[k] = r[k]
        p["given"] = True
        n = self.next()
        return n and ("TEXT", n)

    def s_BREAK(self, tok):
        self.add(tok)["rules"] = {"VFR": "VFR", "OAT": "OAT", "IFPSTOP": "IFPS"}[tok.sub]
        n = self.next()
        return n and ("TEXT", n)

    def s_TEXT(self, tok):
        r = self.records[-1]
        if tok.base == "TOO_LONG":
            self.err(tok, 4)
        r["break_text"] = tok.name if r["break_text"] == "" else r["break_text"] + " " + tok.name
        tok.role = "text"
        r["words"] = r.get("words", 0) + 1
        if (tok.sub, r["rules"]) in (("IFR", "VFR"), ("GAT", "OAT"), ("IFPSTART", "IFPS")):
            step = self.break_end(tok)
            if step:
                return step
        n = self.next()
        return n and ("TEXT", n)

    def break_end(self, tok):
        """A state to go to, or None when this is not the end of the section."""
        p = self.peek(1)
        if p is None or p.base != "POINT":
            return None
        if tok.sub != "IFR":
            return "POINT", self.next()
        s, lv = self.peek(2), self.peek(3)
        if s is None:
            return self.bad(p, 22)
        if s.base != "SLASH":
            return None
        if lv is None or lv.base not in ("SPEED_ALTITUDE", "SPEED_VFR"):
            return self.bad(p, 22)
        self.next()
        r = self.add(p)
        self.coords(p, r)
        r["rules"] = "IFR"
        self.next()
        return "SA" if lv.base == "SPEED_ALTITUDE" else "SVFR", self.next()

    def end_error(self, tok):
        return self.bad(tok, {"IFR": 6, "GAT": 7, "IFPSTART": 8}[tok.sub])

    def s_RESYNC(self, _):
        t = self.next()
        if t is None:
            return None
        b = t.base
        if b in ("UNKNOWN", "TOO_LONG", "STAY_TIME"):
            return self.bad(t, {"UNKNOWN": 3, "TOO_LONG": 4, "STAY_TIME": 10}[b])
        if b == "SLASH":
            n = self.next()
            if n is None:
                return self.bad(t, 25)
            d = {"SPEED_VFR": "SVFR", "POINT": "POINT", "SPEED_ALTITUDE": "SA", "SPEED_ALTITUDE_ALTITUDE": "CLIMB", "SPEED_ALTITUDE_PLUS": "CLIMB"}
            return (d[n.base], n) if n.base in d else self.bad(n, 11)
        if b == "BREAK_END":
            t.role = "skipped"
            return self.break_end(t) or ("RESYNC", None)
        return {"BREAK_START": "BREAK", "SPEED_VFR": "SVFR", "DCT": "DCT", "STAY": "STAY", "TRUNCATE": "TRUNC", "C": "C", "POINT": "POINT",
                "ROUTE": "ROUTE", "SID_STAR": "SID_STAR", "SPEED_ALTITUDE": "SA", "SPEED_ALTITUDE_ALTITUDE": "CLIMB",
                "SPEED_ALTITUDE_PLUS": "CLIMB", "SID": "SID", "STAR": "STAR"}[b], t

    def s_POST_ADEP(self, t):
        b = t.base
        num = {"UNKNOWN": 3, "SLASH": 23, "BREAK_START": 23, "SPEED_VFR": 23, "SPEED_ALTITUDE": 23, "BREAK_END": 23, "STAY": 23, "C": 23,
               "ROUTE": 24, "SPEED_ALTITUDE_ALTITUDE": 9, "SPEED_ALTITUDE_PLUS": 9, "TOO_LONG": 4, "STAY_TIME": 10}.get(b)
        if num:
            return self.bad(t, num)
        return {"DCT": "DCT", "TRUNCATE": "TRUNC", "POINT": "POINT", "SID_STAR": "SID_STAR", "SID": "SID", "STAR": "STAR"}[b], t

    def s_POST_POINT(self, t):
        b = t.base
        num = {"UNKNOWN": 3, "SPEED_VFR": 5, "SPEED_ALTITUDE": 5, "SPEED_ALTITUDE_ALTITUDE": 9, "SPEED_ALTITUDE_PLUS": 9, "TOO_LONG": 4,
               "STAY_TIME": 10}.get(b)
        if b == "BREAK_END":
            return self.end_error(t)
        if b == "ROUTE" and self.records[-1]["sub"] in LATLON:
            num = 47
        if num:
            return self.bad(t, num)
        return {"SLASH": "AFTER_SLASH", "BREAK_START": "BREAK", "DCT": "DCT", "STAY": "STAY", "TRUNCATE": "TRUNC", "C": "C", "POINT": "POINT",
                "ROUTE": "ROUTE", "SID_STAR": "SID_STAR", "SID": "SID", "STAR": "STAR"}[b], t

    def s_POINT(self, t):
        r = self.add(t)
        r["rules"] = "IFR"
        self.coords(t, r)
        n = self.next()
        return n and ("POST_POINT", n)

    def s_ROUTE(self, t):
        self.add(t)["rules"] = "IFR"
        n = self.next()
        if n is None:
            return None
        b = n.base
        if b == "BREAK_END":
            return self.end_error(n)
        if b == "POINT":
            if n.sub in LATLON:
                self.err(n, 48)
            return "POINT", n
        if b == "TRUNCATE":
            return "TRUNC", n
        if b == "C":
            return "C", n
        return self.bad(n, {"UNKNOWN": 3, "SLASH": 12, "BREAK_START": 13, "SPEED_VFR": 13, "SPEED_ALTITUDE": 55, "DCT": 14, "STAY": 15,
                            "ROUTE": 53, "SID_STAR": 54, "STAR": 54, "SPEED_ALTITUDE_ALTITUDE": 9, "SPEED_ALTITUDE_PLUS": 9, "TOO_LONG": 4,
                            "STAY_TIME": 10, "SID": 30}[b])

    def s_DCT(self, t):
        self.add(t)
        n = self.next()
        if n is None:
            return None
        d = {"TRUNCATE": "TRUNC", "POINT": "POINT", "C": "C"}
        return (d[n.base], n) if n.base in d else self.bad(n, 21)

    def s_AFTER_SLASH(self, t):
        n = self.next()
        if n is None:
            return self.bad(t, 20)
        if n.base == "SPEED_VFR":
            return "SVFR", n
        if n.base == "SPEED_ALTITUDE":
            return "SA", n
        return self.bad(n, {"UNKNOWN": 3, "SLASH": 16, "TOO_LONG": 4}.get(n.base, 50))

    def s_TRUNC(self, t):
        n = self.next()
        return n and self.bad(n, 19)

    def s_C(self, t):
        n = self.next()
        if n is None:
            self.add(t)
            return None
        b = n.base
        if b == "SLASH":
            n2 = self.next()
            if n2 is None:
                self.add(t)
                return self.bad(n, 52)
            t.role = "climb"
            return "CPOINT", n2
        num = {"UNKNOWN": 3, "SPEED_VFR": 5, "SPEED_ALTITUDE": 5, "SPEED_ALTITUDE_ALTITUDE": 9, "SPEED_ALTITUDE_PLUS": 9, "TOO_LONG": 4, "STAY_TIME": 10}.get(b)
        if b == "BREAK_END":
            return self.end_error(n)
        if num:
            return self.bad(n, num)
        self.add(t)
        return {"BREAK_START": "BREAK", "DCT": "DCT", "STAY": "STAY", "TRUNCATE": "TRUNC", "C": "C", "POINT": "POINT", "ROUTE": "ROUTE",
                "SID_STAR": "SID_STAR", "SID": "SID", "STAR": "STAR"}[b], n

    def s_CPOINT(self, t):
        if t.base not in ("POINT", "C"):
            return self.bad(t, 18)
        if self.records[-1]["base"] == "ROUTE" and t.sub in LATLON:
            self.err(t, 48)
        self.coords(t, self.add(t))
        n = self.next()
        if n is None:
            return self.bad(t, 27)
        if n.base != "SLASH":
            return self.bad(n, 26)
        n = self.next()
        if n is None:
            return self.bad(t, 28)
        if n.base in ("SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"):
            return "CLIMB", n
        return self.bad(n, 29)

    def s_SID(self, t):
        r = self.add(t)
        if len(self.records) == 2:
            r["base"], r["sub"] = "SID", "SID_LITERAL"
            return "POST_SID", None
        return self.bad(t, 30)

    def s_SID_STAR(self, t):
        r = self.add(t)
        if len(self.records) == 2:
            r["base"], r["sub"] = "SID", "SID"
            return "POST_SID", None
        if self.peek(1) is None:
            r["base"], r["sub"] = "STAR", "STAR"
            return None
        return self.bad(self.peek(1), 34)

    def s_STAR(self, t):
        r = self.add(t)
        if self.peek(1) is None:
            r["base"], r["sub"] = "STAR", "STAR_LITERAL"
            return None
        return self.bad(self.peek(1), 34)

    def s_POST_SID(self, _):
        n = self.next()
        if n is None:
            return None
        d = {"TRUNCATE": "TRUNC", "POINT": "POINT", "ROUTE": "ROUTE", "SID_STAR": "SID_STAR", "STAR": "STAR"}
        if n.base in d:
            return d[n.base], n
        return self.bad(n, {"TOO_LONG": 4, "SID": 32}.get(n.base, 31))

    def s_STAY(self, t):
        n = self.next()
        if n is None:
            return self.bad(t, 35)
        if n.base != "SLASH":
            return self.bad(n, 36)
        tm = self.next()
        if tm is None:
            return self.bad(n, 37)
        if tm.base != "STAY_TIME":
            return self.bad(tm, 38)
        self.records[-1]["stay"] = int(tm.name[:2]) * 60 + int(tm.name[2:])
        t.role = tm.role = "stay"
        n = self.next()
        if n is None:
            return None
        b = n.base
        if b == "BREAK_END":
            return self.end_error(n)
        if b == "ROUTE":
            return "POST_POINT", n
        d = {"BREAK_START": "BREAK", "DCT": "DCT", "TRUNCATE": "TRUNC", "C": "C", "POINT": "POINT", "SID_STAR": "SID_STAR", "SID": "SID", "STAR": "STAR"}
        if b in d:
            return d[b], n
        return self.bad(n, {"UNKNOWN": 3, "TOO_LONG": 4}.get(b, 39))
