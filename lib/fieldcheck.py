"""Shared pieces of the checks whose cases are fields: {"field": text}."""
from hypothesis import strategies as st
from . import compare as c, gen, refmodel as m, spaces, sut
from .sut import Violation


def cases(fields):
    for f in fields:
        yield {"field": f}


def strategy_of(*toks):
    """Laid out token lists, and a share of entirely general fields."""
    own = st.one_of(*toks) if toks else gen.rare_long()
    return st.integers(0, 4).flatmap(lambda k: gen.field() if k == 4 else gen.laid_out(own)).map(lambda f: {"field": f})


SEPARATORS = [" \n\t\r", " /", " ", "/", " \n\t\r/-.,", "", " \n\t\r/ABC", "0 /"]


def any_separators(fields):
    """One case in ten with another set of separators than the documented one."""
    return st.tuples(fields, st.integers(0, 9), st.one_of(st.sampled_from(SEPARATORS), st.text(" \n\t\r/AN0!", max_size=6))).map(lambda x: dict(x[0], ws=x[2]) if x[1] == 9 else x[0])


def insert_one(toks, element):
    """Toks with one element (a list of tokens) put in somewhere."""
    return st.tuples(toks, element, st.integers(0, 10 ** 6)).map(lambda x: x[0][:x[2] % (len(x[0]) + 1)] + list(x[1]) + x[0][x[2] % (len(x[0]) + 1):])


shrink = c.shrink_field
