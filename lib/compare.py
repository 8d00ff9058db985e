"""Comparing what the code produced with what the reference model expects."""
import math
from . import refmodel as m
from .sut import Violation, WS, parse

KEY = ("name", "start", "end")
LIGHT = ("name", "start", "end")


def key(r):
    return r["name"], r["start"], r["end"]


def both(field, ws=WS):
    return parse(field, ws), m.Model(field, ws)


def show(field, what):
    raise Violation("field %r: %s" % (field, what))


def near(a, b, tol=1e-9):
    if a == b:
        return True
    if not isinstance(a, (int, float)) or isinstance(a, bool):
        return False
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= tol


def integral_near(a, exact):
    """a is exact rounded to the nearest integer (either neighbour of an exact half)."""
    return isinstance(a, (int, float)) and not isinstance(a, bool) and a == a and abs(a) != math.inf and a == int(a) and abs(a - exact) <= 0.5 + 1e-6


def aligned(r, e):
    """[(actual or None, expected)] in expected order; ADEP and ADES are matched by place."""
    by = {}
    for a in r.records[1:-1]:
        by.setdefault(key(a), []).append(a)
    out = []
    for i, x in enumerate(e.records):
        if i == 0:
            out.append((r.records[0] if r.records and r.records[0]["name"] == "ADEP" else None, x))
        elif i == len(e.records) - 1:
            out.append((r.records[-1] if r.records and r.records[-1]["name"] == "ADES" else None, x))
        else:
            c = by.get(key(x))
            out.append((c.pop(0) if c else None, x))
    return out


def extras(r, e):
    """Records the code has and the model has not."""
    left = [key(x) for x in e.records]
    out = []
    for a in r.records:
        if key(a) in left:
            left.remove(key(a))
        else:
            out.append(a)
    return out


def brief(r):
    return "%s[%d:%d]" % (r["name"], r["start"], r["end"])


def names(rs):
    return [brief(r) for r in rs]


def errs(rs):
    return [(r["name"], r["start"], r["end"], r["error_text"]) for r in rs]


def diff_fields(a, x, fields, tol=1e-6):
    for f in fields:
        if not (near(a[f], x[f], tol) if isinstance(x[f], float) else a[f] == x[f]):
            return "%s of %s is %r instead of %r" % (f, brief(a), a[f], x[f])
    return None


def err_nums(e, *nums):
    return [x for x in e.errors if x["num"] in nums]


MSG = {n: t for n, t in m.MESSAGES.items()}


def message_num(rec):
    """Number of the documented message this error record carries, or None."""
    for n, t in MSG.items():
        if rec["error_text"] == t.replace("!", rec["name"]):
            return n
    return None


def errors_with(r, nums):
    """[(name, start, end, num)] of the code's errors carrying one of these messages."""
    out = []
    for x in r.errors:
        n = message_num(x)
        if n in nums:
            out.append((x["name"], x["start"], x["end"], n))
    return out


def model_errors_with(e, nums):
    return [(x["name"], x["start"], x["end"], x["num"]) for x in e.errors if x["num"] in nums]


def model_labels(e):
    """Which parser situations a field visits (for the distribution in the evidence)."""
    out = set(e.trace)
    out |= {"E%d" % x["num"] for x in e.errors}
    out.add("accepted" if e.ok else "rejected")
    return out


def shrink_field(case, name="field"):
    """Smaller fields: elements dropped (in halves, then one by one)."""
    toks = [t for t, _, _ in m.tokenize(case[name])]
    n = len(toks)
    k = n // 2
    while k:
        for i in range(0, n, k):
            c = dict(case)
            c[name] = " ".join(toks[:i] + toks[i + k:])
            yield c
        k //= 2
