from .core import *
from .c03 import dist
from .c01 import CHO, JUNG, JONG
from soynlp.hangle import jamo_levenshtein


def jamo(c):
    o = ord(c)
    if 44032 <= o <= 55203:
        i = o - 44032
        return CHO[i // 588] + JUNG[i % 588 // 28] + JONG[i % 28]
    if 12593 <= o <= 12622: return c + '  '
    if 12623 <= o <= 12643: return ' ' + c + ' '


def sub(x, y):
    if x == y: return 0
    a, b = jamo(x), jamo(y)
    if a is None or b is None: return 1
    return dist(a, b, lambda p, q: 0 if p == q else 1) / 3


def check(case):
    a, b = case['a'], case['b']
    e = dist(a, b, sub)
    for x, y in ((a, b), (b, a), (a, b)):
        r = jamo_levenshtein(x, y)
        if abs(r - e) > 1e-9: return 'jamo_levenshtein(%r, %r) = %r, least cost %r' % (x, y, r, e)
    if jamo_levenshtein(a, a) != 0: return 'jamo_levenshtein(%r, itself) is not 0' % a
    if r > max(len(a), len(b)) + 1e-9: return 'jamo_levenshtein(%r, %r) = %r exceeds the longer length' % (a, b, r)


def valid(c): return len(c['a']) * len(c['b']) < 3000
def fixed(lits):
    ab = ['', '가', '각', '강', 'ㄱ', 'ㅏ', 'a', ' ', '!', 'ㄳ', '갃', 'ㄱㅏ', '가나', '나가', '가a', '값', 'ㄱ ', '힣', 'ㄲ']
    return [{'a': x, 'b': y} for x in ab for y in ab]


def gen(rng, lits):
    ab = [char(rng, lits) for _ in range(rng.choice([2, 3, 6]))] + [rng.choice(SYL), rng.choice(JAMO)]
    a = text(rng, lits, ab, spaces=.05, n=rng.randint(0, 8) if rng.random() < .8 else None)
    b = text(rng, lits, ab, spaces=.05, n=rng.randint(0, 8) if rng.random() < .8 else None) if rng.random() < .6 else mutate(mutate(a, rng, lits), rng, lits)
    return {'a': a[:40], 'b': b[:40]}


def trivial(c): return not c['a'] or not c['b'] or c['a'] == c['b']
