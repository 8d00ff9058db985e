"""C02: the token list cursor navigates exactly as documented."""
import itertools
from hypothesis import strategies as st
from lib import sut
from lib.sut import Violation, Token, Tokens

PID = "C02"
RULE = ("A case is a history of operations on a token list (append, create and append, insert, the same token again, setters of a token, truncate, first/last/next/previous, peeks at any distance, positional "
        "access, current), or on two lists in turn, compared after every step with a Python list and an integer cursor each; enumerated: all navigation sequences of length 4 (5) on lists of 0 to 3 "
        "tokens; three steps over two lists; every position, walk and far peek on lists of up to 1024 tokens. Non-trivial: the list changes and the cursor moves, or a position outside the list is asked for.")
EXAMPLES = {"quick": 12000, "thorough": 400000}
BASES, SUBS = list(sut.TokenBaseType), list(sut.TokenSubType)
ATTRS = ["string", "start_index", "end_index", "base_type", "sub_type"]
NAV = [["first"], ["last"], ["next"], ["prev"], ["peekn"], ["peekp"], ["cur"], ["at", 0], ["at", 1], ["at", -1], ["at", 99]]


def enum(tier):
    for n in range(0, 4):
        for k in range(0, 5 if tier == "quick" else 6):
            for seq in itertools.product(NAV[:5] if k > 3 else NAV[:7], repeat=k):
                yield {"ops": [["append", "T%d" % i] for i in range(n)] + [list(x) for x in seq]}
    for n in range(0, 4):
        for i in range(0, n + 4):
            for nav in (["first"], ["last"], ["next"]):
                for j in range(-1, n + 3):
                    yield {"ops": [["append", "T%d" % x] for x in range(n)] + [nav, ["insert", "NEW", i], ["cur"], ["next"], ["trunc", j], ["cur"], ["last"], ["prev"]]}
    for n in range(1, 4):
        for k in range(2 * n):
            for i in [None] + list(range(n + 2)):
                put = [["append", "T%d" % x] for x in range(n)]
                yield {"ops": put + [["use", 1]] + put + [["use", 0], ["last"], ["again", k, i], ["cur"], ["next"], ["again", k, i], ["first"], ["trunc", n], ["prev"]]}
    # The cursor in every position, before and beyond the list too, then every operation and what it leaves behind.
    every = NAV[:7] + [["peekn", k] for k in (-2, 2, 7)] + [["peekp", k] for k in (-2, 2, 7)] + [["at", k] for k in (-1, 0, 2, 50)] + [["append", "/"], ["create", "NEW", 3, 6], ["insert", "NEW", 0], ["insert", "/", 2], ["insert", "NEW", 60], ["trunc", -1], ["trunc", 0], ["trunc", 2], ["trunc", 60], ["again", 0, None], ["again", 1, 0]]
    for n in (0, 1, 2, 5, 21, 50):
        put = [["append", "T%d" % x if x % 4 else "/"] for x in range(n)]
        for walk in sorted({-n - 2, -2, -1, 0, 1, n // 2, n - 1, n, n + 1, n + 6}):
            go = [["first"]] + [["next" if walk > 0 else "prev"]] * abs(walk)
            for x in every:
                yield {"ops": put + go + [x, ["cur"], ["next"], ["cur"], ["prev"], ["prev"], ["last"], ["next"], ["first"]]}
    # Setters of a token: every one after every other, on short and long tokens at early and late positions.
    for a in ATTRS:
        for b in ATTRS:
            for name, start in (("A", 0), ("ABCDEFG", 3), ("X" * 30, 99), ("/", 1000)):
                v = {"string": ["NEW", "Y" * 40], "start_index": [7, 300], "end_index": [9, 3000], "base_type": [3, 8], "sub_type": [4, 30]}
                yield {"ops": [["create", name, start, start + len(name)], ["append", "B"], ["set", 0, a, v[a][0]], ["set", 0, b, v[b][1]], ["set", 1, a, v[a][1]], ["set", 0, a, v[a][1]], ["last"], ["prev"]]}
    # Two lists in turn.
    steps = [["first"], ["last"], ["next"], ["prev"], ["insert", "NEW", 0], ["trunc", 0], ["append", "NEW"]]
    for a, b, c in itertools.product(steps, repeat=3):
        put = [["append", "T%d" % i] for i in range(3)]
        yield {"ops": put + [["use", 1]] + put + [["use", 0], a, ["next"], ["use", 1], b, ["use", 0], ["peekn"], c, ["use", 1], ["next"], ["use", 0], ["next"]]}
    for n in (10, 50, 100) + tuple(2 ** k + d for k in range(4, 11) for d in (-1, 0, 1)) + (1000,):
        if n > 600 and tier == "quick" and n not in (1000, 1024):
            continue
        put = [["append", "T%d" % i] if i % 3 else ["create", "T%d" % i, i, i + 2] for i in range(n)]
        near = sorted({i for p in [0, n // 2, n] + [2 ** k for k in range(11)] for i in range(p - 2, p + 3) if i <= n + 3})
        yield {"ops": put + [["at", i] for i in range(-2, n + 3)]}
        yield {"ops": put + [["first"]] + [["next"] for _ in range(n + 2)] + [["prev"] for _ in range(n + 4)]}
        yield {"ops": put + [["last"]] + [x for i in near for x in (["peekp", i], ["peekn", -i])] + [["first"]] + [x for i in near for x in (["peekn", i], ["peekp", -i])]}
        yield {"ops": put + [x for i in reversed(near) for x in (["trunc", i], ["last"], ["cur"], ["at", i], ["peekp", i], ["next"])]}
        yield {"ops": [x for i in range(n) for x in (["append", "T%d" % i], ["last"], ["peekp"], ["at", i])] + [["insert", "NEW", n // 2], ["cur"], ["prev"], ["at", n], ["at", n + 1]]}


name = st.one_of(st.sampled_from(["A", "B", "/", "ABC", ""]), st.text(max_size=4))
idx = st.integers(-3, 8)
op = st.one_of(st.tuples(st.just("append"), name), st.tuples(st.just("append"), name), st.tuples(st.just("create"), name, st.integers(0, 99), st.integers(0, 99)),
               st.tuples(st.just("insert"), name, st.integers(0, 8)), st.tuples(st.just("trunc"), st.integers(-1, 8)),
               st.sampled_from([("first",), ("last",), ("next",), ("prev",), ("next",), ("prev",), ("cur",)]),
               st.tuples(st.just("set"), st.integers(0, 9), st.sampled_from(ATTRS[1:]), st.integers(0, 400)), st.tuples(st.just("set"), st.integers(0, 9), st.just("string"), name), st.tuples(st.just("again"), st.integers(0, 9), st.none() | st.integers(0, 6)), st.tuples(st.just("use"), st.integers(0, 1)), st.tuples(st.sampled_from(["peekn", "peekp", "at"]), idx), st.sampled_from([("peekn",), ("peekp",)]))


def strategy(tier):
    return st.lists(op, max_size=40).map(lambda o: {"ops": [list(x) for x in o]})


def read(t):
    return {"string": t.get_token_string(), "start_index": t.get_token_start_index(), "end_index": t.get_token_end_index(), "base_type": t.get_token_base_type(), "sub_type": t.get_token_sub_type()}


def check(case):
    labels, lists = set(), [sut.guard(Tokens, what="creating a token list") for _ in range(2)]
    models, curs, use = [[], []], [0, 0], 0
    ts, model, cur = lists[0], models[0], 0
    changed = moved = outside = False
    values = {}                  # what was set on tokens, by identity

    def at(i):
        return model[i] if 0 <= i < len(model) else None

    def tok(n):
        t = Token(n, 0, len(n))
        values[id(t)] = {"string": n, "start_index": 0, "end_index": len(n), "base_type": read(t)["base_type"], "sub_type": read(t)["sub_type"]}
        kept.append(t)
        return t
    kept = []                    # no token is freed, so no identity is used twice
    for step, op in enumerate(case["ops"]):
        o, want, got = op[0], None, None
        what = "step %d %s" % (step, op)
        if o == "use":
            models[use], curs[use], use = model, cur, op[1]
            ts, model, cur = lists[use], models[use], curs[use]
        elif o == "append":
            t = tok(op[1])
            sut.guard(ts.append_token, t, what=what)
            model.append(t)
            changed = True
        elif o == "create":
            sut.guard(ts.create_append_token, op[1], op[2], op[3], what=what)
            got = ts.get_tokens()[-1] if ts.get_tokens() else None
            if got is None or (got.get_token_string(), got.get_token_start_index(), got.get_token_end_index()) != tuple(op[1:4]):
                raise Violation("%s: the token appended is %r" % (what, got and sut.snap_token(got)))
            model.append(got)
            kept.append(got)
            got = None
            changed = True
        elif o == "insert":
            t, i = tok(op[1]), op[2]  # Beyond the end of the list: appended.
            sut.guard(ts.insert_token, t, i, what=what)
            model.insert(i, t)
            changed = True
        elif o == "again":      # The same token object once more; op[1]: which, op[2]: where (None: appended).
            both = models[use] + models[1 - use]
            if both:
                t = both[op[1] % len(both)]
                sut.guard(*([ts.append_token, t] if op[2] is None else [ts.insert_token, t, op[2]]), what=what)
                model.insert(len(model) if op[2] is None else op[2], t)
                changed = True
        elif o == "set":        # A setter of the token itself; op[1]: which token, op[2]: attribute, op[3]: value.
            both = models[use] + models[1 - use]
            if both:
                t, v = both[op[1] % len(both)], op[3]
                v = BASES[v % len(BASES)] if op[2] == "base_type" else SUBS[v % len(SUBS)] if op[2] == "sub_type" else v
                values[id(t)] = dict(values.get(id(t)) or read(t), **{op[2]: v})
                sut.guard(getattr(t, "set_token_" + op[2]), v, what=what)
                labels.add("setter")
        elif o == "trunc":
            sut.guard(ts.remove_tokens_from_end_of_list, op[1], what=what)
            model = model[:op[1] + 1]
            changed = True
        elif o in ("first", "last", "next", "prev"):
            cur = {"first": 0, "last": len(model) - 1, "next": cur + 1, "prev": cur - 1}[o]
            want = at(cur)
            got = sut.guard({"first": ts.get_first_token, "last": ts.get_last_token, "next": ts.get_next_token, "prev": ts.get_previous_token}[o], what=what)
            moved = True
        elif o == "peekn":
            want = at(cur + (op[1] if len(op) > 1 else 1))
            got = sut.guard(ts.peek_next_token, *op[1:], what=what)
        elif o == "peekp":
            want = at(cur - (op[1] if len(op) > 1 else 1))
            got = sut.guard(ts.peek_previous_token, *op[1:], what=what)
        elif o == "at":
            want = at(op[1])
            got = sut.guard(ts.get_token_at, op[1], what=what)
        elif o == "cur":
            want = at(cur)
            got = sut.guard(ts.get_current_token, what=what)
        if o in ("first", "last", "next", "prev", "peekn", "peekp", "at", "cur"):
            outside |= want is None
            if got is not want:
                raise Violation("%s with %d tokens: returned %r instead of %r" % (what, len(model), got and sut.snap_token(got), want and sut.snap_token(want)))
        models[use], curs[use] = model, cur
        for n in (use, 1 - use):
            real, mine, name = sut.guard(lists[n].get_tokens), models[n], "the list" if n == use else "the other list"
            if len(real) != len(mine) or any(a is not b for a, b in zip(real, mine)) or lists[n].get_number_of_tokens() != len(mine):
                raise Violation("%s: %s holds %r instead of %r" % (what, name, [t.get_token_string() for t in real], [t.get_token_string() for t in mine]))
            for t in mine:
                if id(t) in values and read(t) != values[id(t)]:
                    raise Violation("%s: a token holds %r instead of %r" % (what, read(t), values[id(t)]))
            if sut.guard(lists[n].get_current_token) is not (mine[curs[n]] if 0 <= curs[n] < len(mine) else None):
                raise Violation("%s: the current token of %s is not the one at position %d" % (what, name, curs[n]))
        labels.add(o)
    if changed and moved or outside:
        labels.add("!")
    return labels
