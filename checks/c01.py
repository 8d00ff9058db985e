"""C01: tokenizing loses nothing and locates every token exactly."""
import itertools
from hypothesis import strategies as st
from lib import dictionary, gen, refmodel as m, spaces, sut
from lib.sut import Violation

PID = "C01"
RULE = ("A case is a history of uses of one tokenizer, or of two in turn: strings, separator sets and (re)tokenizing in any order; enumerated: all strings up to length 6 "
        "over {A, '/', space, newline} for 4 separator sets, all histories of two short strings, also on two tokenizers in turn; strings of up to 1500 tokens, tokens of up to 5000 characters and positions to 20,000, at every power of two; every constant of the code under test as text, separators, length and count. Non-trivial: a string with two tokens or more or "
        "with a separator at an end, or a tokenizer used twice. Oracle: independent scanner, and the partition law on source positions.")
EXAMPLES = {"quick": 12000, "thorough": 300000}
WS = [" \n\t\r/", " \n\t\r", "/", " "]


def enum(tier):
    for n in range(0, 7 if tier == "quick" else 9):
        for s in itertools.product("A/ \n", repeat=n):
            for ws in WS if n < 6 else WS[:1]:
                yield {"ops": [["ws", ws], ["s", "".join(s)], ["t"]]}
    for big in ("AB " * 400, "A" * 3000, "/" * 300, " " * 500 + "X", "ABC/DEF\n" * 200, "A/" * 1500, "N0450F350 " + "DCT ABC " * 700 + "B" * 5000 + " C", "\u00e9" * 300 + " \U0001f600" * 300, " " * 20000 + "A B",
                "".join("P%d/Q%d " % (i, i) for i in range(1200)), "".join("X" * (i % 300) + " \n" for i in range(600))):
        yield {"ops": [["ws", WS[0]], ["s", big], ["t"]]}
    short = ["".join(s) for n in range(0, 3) for s in itertools.product("B /", repeat=n)] + ["AB CD/EF", "N0450F350 ABC/N0400F300"]
    for a in short:
        for b in short:
            yield {"ops": [["ws", WS[0]], ["s", a], ["t"], ["s", b], ["t"]]}
            yield {"ops": [["ws", WS[1]], ["s", a], ["t"], ["ws", WS[0]], ["t"], ["t"], ["s", b], ["t"]]}
            yield {"ops": [["s", a], ["t"], ["new"], ["s", b], ["t"]]}
            yield {"ops": [["ws", WS[0]], ["s", a], ["swap"], ["s", b], ["ws", WS[1]], ["swap"], ["t"], ["swap"], ["t"], ["swap"], ["s", b], ["swap"], ["t"], ["swap"], ["t"]]}
    for n in sorted(set([2 ** k + d for k in range(2, 11) for d in (-1, 0, 1)] + [100, 999, 1000])):
        for unit in ("A ", "/", "AB/", "ABC\n", "ABCDE \t"):
            yield {"ops": [["ws", WS[0]], ["s", unit * n + "Z"], ["t"]]}
        yield {"ops": [["ws", WS[0]], ["s", "A" * n + " B" * 3 + "/" + "C" * n], ["t"]]}
    for t in dictionary.words() + dictionary.texts():
        for s in ("%s", "A %s/B", "%s%s ", "A\n%s %s/"):
            yield {"ops": [["ws", WS[0]], ["s", s.replace("%s", t)], ["t"]]}
        if len(t) < 12:
            yield {"ops": [["ws", t], ["s", "AB %sCD/%s E\n" % (t, t[:1])], ["t"], ["ws", WS[0]], ["t"]]}
    for o in spaces.ODD:
        for s in ("%s", "A%sB", "A%s B", "A %s/B", "%s%s ", "/%s A", " %s", "A %s%s\n%s A%s"):
            yield {"ops": [["ws", WS[0]], ["s", s.replace("%s", o)], ["t"]]}
        yield {"ops": [["ws", o], ["s", "AB %sCD/%s E\n" % (o, o[:1])], ["t"], ["ws", WS[0]], ["t"]]}
        yield {"ops": [["ws", WS[0] + o], ["s", "AB %sCD/%s E%sF\n" % (o, o[:1], o)], ["t"]]}
    for n in dictionary.numbers(3000):
        yield {"ops": [["ws", WS[0]], ["s", "A" * n + " " + "B/" * 3], ["t"]]}
        yield {"ops": [["ws", WS[0]], ["s", "A " * n + "B"], ["t"]]}
    yield {"ops": [["ws", WS[0]]] + [x for i in range(300) for x in (["s", "A%d/B %d" % (i, i)], ["t"])]}


text = st.one_of(gen.field(), gen.raw_text, st.text("AB /\n\t\r", max_size=20), st.text(max_size=30), st.lists(st.sampled_from(spaces.ODD + ["A", " ", "/", "BC"]), max_size=10).map("".join), st.text("abcAB01 /.-\\*\n\u00a0\x00\x0b\x0c\u2028\u3000", max_size=30))
seps = st.one_of(st.just(" \n\t\r/"), st.just(" \n\t\r/"), st.sampled_from(WS + ["", "\n/", "ABC", "-", "/A", "\t", "\u00a0 ", "//  "]), st.text(max_size=4),
                 st.text(" /ANB0\n\\.[]^", max_size=4))
op = st.one_of(st.tuples(st.just("s"), text), st.tuples(st.just("s"), text), st.tuples(st.just("ws"), seps), st.tuples(st.just("t")), st.tuples(st.just("t")), st.tuples(st.just("swap")), st.tuples(st.just("new")))


def strategy(tier):
    return st.one_of(st.tuples(seps, text).map(lambda x: {"ops": [["ws", x[0]], ["s", x[1]], ["t"]]}),
                     st.lists(op, min_size=1, max_size=10).map(lambda o: {"ops": [list(x) for x in o] + [["t"]]}))


def partition(toks, s, ws):
    """The documented law itself, independent of any scanner."""
    pos = 0
    for i, t in enumerate(toks):
        if not (isinstance(t["start"], int) and isinstance(t["end"], int) and pos <= t["start"] < t["end"] <= len(s)):
            return "token %d has span %r:%r after position %d" % (i, t["start"], t["end"], pos)
        if s[t["start"]:t["end"]] != t["name"]:
            return "token %r is not the text at its position %d:%d" % (t["name"], t["start"], t["end"])
        slash = t["name"] == "/" and "/" in ws
        if not slash and any(c in ws for c in t["name"]):
            return "token %r contains a separator" % t["name"]
        if not slash and (t["start"] > 0 and s[t["start"] - 1] not in ws or t["end"] < len(s) and s[t["end"]] not in ws):
            return "token %r is not maximal" % t["name"]
        gap = s[pos:t["start"]]
        if any(c not in ws or c == "/" for c in gap):
            return "text %r before token %d is lost" % (gap, i)
        pos = t["end"]
    if any(c not in ws or c == "/" for c in s[pos:]):
        return "text %r at the end is lost" % s[pos:]
    return None


def check(case):
    labels, s, ws, uses = set(), "", " \n\t\r", 0
    tk = sut.guard(sut.Tokenize, what="creating a tokenizer")
    earlier, others = [], []
    for op in case["ops"]:
        if op[0] == "swap":
            # put this tokenizer aside and go on with an earlier one, or a new one
            others.append((tk, s, ws))
            if len(others) > 1:
                tk, s, ws = others.pop(0)
            else:
                tk, s, ws = sut.guard(sut.Tokenize, what="creating a tokenizer"), "", " \n\t\r"
            if sut.guard(tk.get_string_to_tokenize) != s or sut.guard(tk.get_whitespace) != ws:
                raise Violation("a tokenizer for %r with separators %r has %r and %r after another one was used" % (s, ws, tk.get_string_to_tokenize(), tk.get_whitespace()))
            labels.add("two tokenizers in turn")
        elif op[0] == "new":
            tk = sut.guard(sut.Tokenize, what="creating a tokenizer")
            s, ws = "", " \n\t\r"
            labels.add("second tokenizer")
        elif op[0] == "s":
            s = op[1]
            sut.guard(tk.set_string_to_tokenize, s, what="set_string_to_tokenize")
            if sut.guard(tk.get_string_to_tokenize) != s:
                raise Violation("get_string_to_tokenize does not return the string %r" % s)
        elif op[0] == "ws":
            ws = op[1]
            sut.guard(tk.set_whitespace, ws, what="set_whitespace")
            if sut.guard(tk.get_whitespace) != ws:
                raise Violation("get_whitespace does not return %r" % ws)
        else:
            uses += 1
            sut.guard(tk.tokenize, what="tokenizing %r" % s)
            obj = sut.guard(tk.get_tokens)
            toks = sut.snap_tokens(obj)
            got, want = [(t["name"], t["start"], t["end"]) for t in toks], m.tokenize(s, ws)
            if got != want:
                raise Violation("tokenizing %r with separators %r gives %r instead of %r" % (s, ws, got, want))
            bad = partition(toks, s, ws)
            if bad:
                raise Violation("tokenizing %r with separators %r: %s" % (s, ws, bad))
            if obj.get_number_of_tokens() != len(want):
                raise Violation("tokenizing %r: %d tokens counted instead of %d" % (s, obj.get_number_of_tokens(), len(want)))
            if len(want) > 1 or s and (s[0] in ws or s[-1] in ws):
                labels.add("!")
            labels.add("tokens:%s" % min(len(want), 5))
            if "/" in s:
                labels.add("slash %s" % ("separator" if "/" in ws else "ordinary"))
            earlier.append((obj, got, s))
    for obj, got, s0 in earlier:
        now = [(t["name"], t["start"], t["end"]) for t in sut.snap_tokens(obj)]
        if now != got:
            raise Violation("the tokens of %r changed to %r when the tokenizer was used again" % (s0, now))
    if uses > 1:
        labels |= {"!", "reused"}
    return labels
