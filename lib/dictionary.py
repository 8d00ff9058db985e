"""An automatic dictionary, as fuzzers use: words and numbers that occur as constants in the code under test, for use as
elements, texts and values of generated cases. Only inputs come from here, never a verdict."""
import ast, functools, itertools, os, re
from re import _parser
from . import gen, refmodel as m, sut

DIRS = ("F15_Parser", "Tokenizer", "Utilities")


def sources():
    for d in DIRS:
        for base, dirs, files in os.walk(os.path.join(sut.REPO, d)):
            dirs[:] = sorted(x for x in dirs if not x.startswith((".", "__")))
            for f in sorted(files):
                if f.endswith(".py"):
                    yield os.path.join(base, f)


@functools.lru_cache(None)
def constants():
    strings, numbers = {}, {}
    for path in sources():
        try:
            with open(path, encoding="utf-8", errors="replace") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            continue
        docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                if isinstance(n.value, str) and 0 < len(n.value) <= 200:
                    strings[n.value] = True
                elif isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and abs(n.value) < 10 ** 7:
                    numbers[abs(n.value)] = True
    return sorted(strings), sorted(numbers)


def matches(pattern, pick):
    """A string that matches a simple regular expression, or None; pick selects among its alternatives."""
    def gen_(items):
        out = ""
        for op, av in items:
            name = str(op)
            if name == "LITERAL":
                out += chr(av)
            elif name == "IN":
                chars = []
                for o, a in av:
                    if str(o) == "LITERAL":
                        chars.append(chr(a))
                    elif str(o) == "RANGE":
                        chars += [chr(x) for x in range(a[0], min(a[1], a[0] + 200) + 1)]
                    elif str(o) == "CATEGORY":
                        chars += list("0123456789" if "DIGIT" in str(a) else "AB1 ")
                out += chars[pick * 7 % len(chars)] if pick != 1 else chars[-1]
            elif name in ("MAX_REPEAT", "MIN_REPEAT"):
                lo, hi, sub = av
                k = lo if pick % 2 == 0 else min(int(hi), lo + 5)
                out += "".join(gen_(sub) for _ in range(k))
            elif name == "SUBPATTERN":
                out += gen_(av[-1])
            elif name == "BRANCH":
                out += gen_(av[1][pick % len(av[1])])
            elif name == "ANY":
                out += "X"
            elif name == "AT":
                pass
            else:
                raise ValueError(name)
        return out
    try:
        return gen_(_parser.parse(pattern))
    except Exception:
        return None


@functools.lru_cache(None)
def words():
    """Element-like texts: the words of string constants, and texts that match those that are regular expressions."""
    out = {}
    for s in constants()[0]:
        if re.search(r"[\[\\]|\{\d", s):
            for k in range(3):
                w = matches(s, k)
                if w:
                    out[w] = True
            continue
        for w in re.split(r"[\s/]+", s):
            w = w.strip("\"'<>=,.;:()") if len(w) > 3 else w
            if 0 < len(w) <= 60:
                out[w] = True
    for n in constants()[1]:
        out[str(n)] = True
    return list(out)


@functools.lru_cache(None)
def texts():
    """Whole constants as free text."""
    return [s for s in constants()[0]]


PLACES = ["{0}", "N0450F350 {0}", "N0450F350 ABC {0} DEF", "N0450F350 ABC {0}", "N0450F350 {0} {0}", "N0450F350 00N001E {0} 00N002E", "N0450F350 ABC B9 {0} B9 DEF", "N0450F350 {0} DCT {1}/N0440F340 {0} GHI", "N0450F350 ABC C/{0}/N0450F350F390 DEF",
          "N0450F350 ABC VFR {0} {1} IFR {0}/N0440F340 {1}", "N0450F350 ABC OAT {0} GAT {0} {1}", "N0450F350 ABC IFPSTOP {1} {0} IFPSTART {0}", "N0100VFR {0} IFR {0}/N0440F340 {0}", "N0450F350 {0} STAY1/0130 {1}", "N0450F350 ABC/{0} DEF", "%% {0} {1}", "N0450F350 {0} VFR {1}",
          "N0450F350 ABC STAY1/{0} {1}"]
SHORT = ["N0450F350 {0}", "N0450F350 ABC {0} DEF", "N0450F350 {0} DCT GHI", "N0450F350 ABC VFR {0} IFR DEF/N0440F340 {0}", "%% {0}"]


def kin(w):
    return [w + "A", "A" + w, w + "1", w + "1A", w.lower(), w[:-1]]


def numbers(limit):
    out = set()
    for n in constants()[1]:
        for k in (n, n * 10, n / 10, n / 100, n / 30.48, n / 0.3048, n * 60, n / 60):
            out |= {x for x in (int(k) - 1, int(k), int(k) + 1) if 0 <= x <= limit}
    return sorted(out)


def fields(tier):
    ws = words()
    n = len(ws)
    for i, w in enumerate(ws):
        plain = tier == "quick" and (w.islower() or not w.isalnum() or not w.isascii() or w.isdigit() and len(w) < 3)
        for p in SHORT if plain else PLACES:
            for s in (1,) if tier == "quick" else (1, 7, 31, 101, 211):
                yield p.format(w, ws[(i + s) % n])
        if len(w) <= 25 and w.isalnum() and not plain:
            for k in kin(w):
                if k:
                    for p in SHORT[:3] if tier == "quick" else SHORT + PLACES:
                        yield p.format(k, w)
    few = [x for x in numbers(999) if x in constants()[1] or x < 12]
    i = 0
    for a in few:
        for b in few:
            i += 1
            sp, lv = gen.sp("NKM"[i % 3], a), gen.lv("FASM"[i % 4], b)
            one = (
                "%s%s ABC C/DEF/%s%s GHI" % (sp, lv, sp, lv + gen.lv("FASM"[i // 4 % 4], a) if i % 5 else lv + "PLUS"),
                "N0450F350 %02d%s%03d%s %02d%02d%s%03d%02d%s%03d%03d DCT 10N010E" % (a % 91, "NS"[i % 2], b % 181, "EW"[i // 2 % 2], b % 90, a % 60, "NS"[i // 3 % 2], a % 180, b % 60, "EW"[i // 5 % 2], b % 361, a),
                "N0450F350 ABC%03d%03d STAY%d/%02d%02d UL%d %s%d GHI" % (a % 361, b, a % 10, a % 24, b % 60, b % 1000, "ABCDE"[:1 + i % 5], a % 100))
            yield from one[i % 3:i % 3 + 1] if tier == "quick" else one
    for a in few:
        if 0 < a <= 48:
            for u in ("ABC", "%%", "DCT DEF", "/N0440F340 ABC", "VFR X IFR DEF/N0430F330"):
                if a * len(u.replace("/", " / ").split()) <= 96:
                    yield " ".join(["N0450F350 MNO"] + [u] * a)
        if 0 < a <= 120:
            yield "N0450F350 " + "A" * a + " ABC VFR " + "X" * a + " IFR DEF/N0440F340"
