from .core import *
from soynlp.hangle import levenshtein


def dist(a, b, sub, memo=None):
    n, m = len(a), len(b)
    D = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n + 1):
        for j in range(m + 1):
            if i == 0: D[i][j] = j
            elif j == 0: D[i][j] = i
            else: D[i][j] = min(D[i - 1][j] + 1, D[i][j - 1] + 1, D[i - 1][j - 1] + sub(a[i - 1], b[j - 1]))
    return D[n][m]


def check(case):
    a, b = case['a'], case['b']
    cost = {(x, y): v for x, y, v in case['cost']}
    tr = {(y, x): v for (x, y), v in cost.items()}
    sub = lambda x, y: 0 if x == y else cost.get((x, y), 1)
    e = dist(a, b, sub)
    r = levenshtein(a, b, dict(cost)) if cost or case['given'] else levenshtein(a, b)
    if r != e: return 'levenshtein(%r, %r, %r) = %r, least cost %r' % (a, b, cost, r, e)
    r2 = levenshtein(b, a, tr)
    if r2 != e: return 'levenshtein(%r, %r, %r) = %r, least cost %r' % (b, a, tr, r2, e)
    r3 = levenshtein(a, b, cost)
    if r3 != e: return 'levenshtein(%r, %r, %r) = %r on another call, least cost %r' % (a, b, cost, r3, e)


def valid(c):
    return all(len(x) == 1 and len(y) == 1 and v >= 0 and (v * 64).is_integer() for x, y, v in [(x, y, float(v)) for x, y, v in c['cost']]) and len(c['a']) * len(c['b']) < 20000


def fixed(lits):
    ab = ['', 'a', 'b', 'ab', 'ba', 'aab', 'abc', 'cab']
    for x in ab:
        for y in ab:
            for c in ([], [['a', 'b', .5]], [['b', 'a', 3.0], ['a', 'c', 0.0]], [['a', 'a', .25]]):
                yield {'a': x, 'b': y, 'cost': c, 'given': True}


def gen(rng, lits):
    ab = [char(rng, lits) for _ in range(rng.choice([2, 3, 4, 8]))]
    a = text(rng, lits, ab, spaces=.02)
    b = text(rng, lits, ab, spaces=.02) if rng.random() < .7 else mutate(mutate(a, rng, lits), rng, lits)
    cost = {}
    for _ in range(rng.choice([0, 0, 1, 3, 8])): cost[rng.choice(ab), rng.choice(ab)] = rng.choice([0.0, .25, .5, .75, 1.0, 1.5, 2.0, 3.0, .125])
    return {'a': a[:80], 'b': b[:80], 'cost': [[x, y, v] for (x, y), v in cost.items()], 'given': rng.random() < .5}


def trivial(c): return not c['a'] or not c['b'] or c['a'] == c['b']
