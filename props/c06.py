"""MaxScoreTokenizer: tiling and the greedy choice."""
from .maxscore import *

NOTES = []


def build():
    c = context()
    maxscore(c, True)
    return c
