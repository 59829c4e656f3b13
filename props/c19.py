"""Every method of LRGraph keeps the two directions consistent and changes the counts exactly as stated; histories follow by induction."""
from .counts import *


def build():
    c = context()
    graph(c, True)
    return c
