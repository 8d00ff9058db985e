"""Access to the code under test in /repo, and plain snapshots of what it produces.

An exception raised by the code under test becomes a Violation (the documented interface has no
exceptions); anything wrong in the harness itself propagates and ends the check with exit code 2."""
import os, signal, sys, threading
sys.dont_write_bytecode = True
REPO = os.environ.get("F15_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if "/opt/venv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/venv/lib/python3.12/site-packages")

from F15_Parser.ExtractedRouteSequence import ExtractedRouteSequence
from F15_Parser.ExtractedRouteRecord import ExtractedRouteRecord
from F15_Parser.F15Parse import ParseF15
from F15_Parser.F15TokenSyntaxDescriptions import TokenBaseType, TokenSubType, F15TokenSyntaxDefinition
from Tokenizer.Tokenize import Tokenize
from Tokenizer.Tokens import Tokens
from Tokenizer.Token import Token
from Utilities.Utils import Utils

WS = " \n\t\r/"          # the separator set the documentation prescribes for field 15


class Violation(Exception):
    """The property does not hold for the case being checked."""


class SutHang(BaseException):
    """The code under test ran into the watchdog."""


def _alarm(signum, frame):
    raise SutHang()


WATCHDOG_S = 10.0
BOUNDED_S = 90.0                # longest real cases take well under a second
LINE_BUDGET = 10_000_000


def guard(fn, *args, what="call"):
    """Run fn of the code under test: exceptions and non-termination are violations.

    The watchdog only suspects: the verdict comes from re-running the call with a deterministic
    budget of executed lines (or, for a call stuck inside one regular expression match, a second
    and longer wait), so a slow machine does not make a violation."""
    main = threading.current_thread() is threading.main_thread()
    if main:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, WATCHDOG_S)
    try:
        return fn(*args)
    except SutHang:
        pass
    except Violation:
        raise
    except Exception as x:     # RecursionError and MemoryError included
        raise Violation("%s raised %s: %s" % (what, type(x).__name__, str(x)[:200])) from None
    finally:
        if main:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return _bounded(fn, args, what)


def _bounded(fn, args, what):
    left = [LINE_BUDGET]

    class Over(BaseException):
        pass

    def tr(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] < 0:
                raise Over()
        return tr
    old = sys.gettrace()
    main = threading.current_thread() is threading.main_thread()
    if main:
        signal.setitimer(signal.ITIMER_REAL, BOUNDED_S)
    sys.settrace(tr)
    try:
        return fn(*args)
    except SutHang:
        raise Violation("%s does not terminate (%d s)" % (what, BOUNDED_S)) from None
    except Over:
        raise Violation("%s does not terminate (%d lines executed)" % (what, LINE_BUDGET)) from None
    except Exception as x:
        raise Violation("%s raised %s: %s" % (what, type(x).__name__, str(x)[:200])) from None
    finally:
        sys.settrace(old)
        if main:
            signal.setitimer(signal.ITIMER_REAL, 0)


def base_name(v):
    try:
        return TokenBaseType(v).name[4:]
    except ValueError:
        return "?%r" % (v,)


def sub_name(v):
    try:
        n = TokenSubType(v).name[7:]
    except ValueError:
        return "?%r" % (v,)
    return n[len("SPEED_ALTITUDE_"):] if n.startswith("SPEED_ALTITUDE_") else n


FIELDS = ("name", "start", "end", "base", "sub", "altitude", "altitude_si", "speed", "speed_si", "rules",
          "stay", "break_text", "error_text", "cruise_to", "cruise_to_si", "lat", "lon", "bearing", "distance", "valid")


def snap_record(r):
    return dict(name=r.get_name(), start=r.get_start_index(), end=r.get_end_index(), base=base_name(r.get_base_type()),
                sub=sub_name(r.get_sub_type()), altitude=r.get_altitude(), altitude_si=r.get_altitude_si(),
                speed=r.get_speed(), speed_si=r.get_speed_si(), rules=r.get_flight_rules(), stay=r.get_stay_time(),
                break_text=r.get_break_text(), error_text=r.get_error_text(), cruise_to=r.get_altitude_cruise_to(),
                cruise_to_si=r.get_altitude_cruise_to_si(), lat=r.get_latitude(), lon=r.get_longitude(),
                bearing=r.get_bearing(), distance=r.get_distance(), valid=r.is_lat_long_valid())


def snap_token(t):
    return dict(name=t.get_token_string(), start=t.get_token_start_index(), end=t.get_token_end_index(),
                base=base_name(t.get_token_base_type()), sub=sub_name(t.get_token_sub_type()))


def snap_tokens(ts):
    return [snap_token(t) for t in ts.get_tokens()]


class Result:
    """Everything observable about one parse."""
    __slots__ = ("field", "ok", "records", "errors", "derived", "n_errors", "n_records", "tokens", "ers", "token_obj")

    def plain(self):
        return dict(ok=self.ok, records=self.records, errors=self.errors, derived=self.derived)


def tokenize(field, ws=WS):
    def run():
        t = Tokenize()
        t.set_whitespace(ws)
        t.set_string_to_tokenize(field)
        t.tokenize()
        return t.get_tokens()
    return guard(run, what="tokenizing %r" % field[:300])


def snapshot(ers, ok, tokens=None, field=None):
    r = Result()
    r.field, r.ok, r.ers, r.token_obj = field, ok, ers, tokens
    r.records = [snap_record(x) for x in ers.get_all_elements()]
    r.errors = [snap_record(x) for x in ers.get_all_errors()]
    r.n_records, r.n_errors = ers.get_number_of_elements(), ers.get_number_of_errors()
    r.derived = ers.get_derived_flight_rules()
    r.tokens = snap_tokens(tokens) if tokens is not None else None
    return r


def parse(field, ws=WS):
    tokens = tokenize(field, ws)
    ers = ExtractedRouteSequence()
    limit = sys.getrecursionlimit()
    if len(field) > 200 and guard(tokens.get_number_of_tokens) > 100:
        sys.setrecursionlimit(max(limit, 20000))           # the parser recurses per element; see the known findings of C17
    try:
        ok = guard(lambda: ParseF15().parse_f15(ers, tokens), what="parsing %r" % field[:300])
    finally:
        sys.setrecursionlimit(limit)
    return snapshot(ers, ok, tokens, field)
