"""Counting, coverage and conversion of EojeolCounter; the graph it builds is used through the contracts proved under C19."""
from .counts import *

NOTES = ['str.split() is axiomatised: its words are non-empty and hold no whitespace', 'the preprocessing function is an arbitrary pure function']


def build():
    c = context()
    counter(c, True)
    graph(c, False)
    convert(c, True)
    return c
