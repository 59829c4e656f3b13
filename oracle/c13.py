from .core import *
from soynlp.lemmatizer import _conjugation as C
from soynlp.lemmatizer import conjugate
from .c01 import CHO, JUNG, JONG


def hang(c): return 44032 <= ord(c) <= 55203 or 12593 <= ord(c) <= 12643
def syl(c): return 44032 <= ord(c) <= 55203
def comp(a, b, c): return chr(44032 + 588 * CHO.index(a) + 28 * JUNG.index(b) + JONG.index(c))


def one(stem, ending, harm):
    r = conjugate(stem, ending, enforce_moum_harmoney=harm) if harm else conjugate(stem, ending)
    ctx = 'conjugate(%r, %r%s) = %r' % (stem, ending, ', enforce_moum_harmoney=True' if harm else '', r)
    if syl(ending[0]) and not r: return ctx + ': no form'
    n = len(stem) + len(ending)
    for f in r:
        if not f: return ctx + ': empty form'
        if not n - 1 <= len(f) <= n: return '%s: length of %r' % (ctx, f)
        if not f.startswith(stem[:-2]): return '%s: %r loses the front of the stem' % (ctx, f)
        if not f.endswith(ending[1:]): return '%s: %r loses the tail of the ending' % (ctx, f)


def check(case):
    if 'grid' in case:
        a, b = case['grid']
        for h in (False, True):
            for s in case['front']:
                for l in a:
                    for r in b:
                        for t in case['tail']:
                            m = one(s + l, r + t, h)
                            if m: return m
        return
    for h in (False, True):
        m = one(case['stem'], case['ending'], h)
        if m: return m


def fixed(lits):
    F = [comp(a, b, c) for a in 'ㅇㄱ' for b in 'ㅏㅑㅓㅕㅗㅛㅜㅠㅡㅣㅝㅐ' for c in ' ㄴㄹㅂㅆ'] + list('러려다라하해르니너거ㄴㄹㅁㅂㅆㄱㄷㅎㅋㅏㅠㅣㄳㅄ') + ['힣', '가']
    L = [comp(a, b, c) for a in 'ㅇㄹㅎㄱㅍ' for b in JUNG for c in JONG]
    for i in range(0, len(L), 30):
        yield {'grid': [L[i:i + 30], F], 'front': ['', '나'], 'tail': ['']}
    yield {'grid': [list('르푸답곱깝롭벗퍼그렇허퍼하해이으우오')+ [comp(a, b, ' ') for a in CHO for b in JUNG], F], 'front': ['푸', '그', '이', '누르', ''], 'tail': ['', '다a']}


def gen(rng, lits):
    k = rng.random()
    syls = [c for c in lits.chars if syl(c)] + list('르푸답벗러하해그렇이우오으다')
    H = [c for c in lits.chars if hang(c)] + list('어아았었ㄴㄹㅂ다러')
    g = lambda: rng.choice(syls) if rng.random() < .4 else chr(rng.randint(44032, 55203))
    stem = ''.join(g() for _ in range(rng.choice([1, 1, 2, 2, 3, 5])))
    e0 = rng.choice(H) if rng.random() < .4 else chr(rng.choice([rng.randint(44032, 55203), rng.randint(12593, 12643)]))
    return {'stem': stem, 'ending': e0 + text(rng, lits, n=rng.choice([0, 1, 2, 5]))}


def valid(c):
    if 'grid' in c: return c['grid'][0] and len(c['grid']) == 2 and all(map(syl, ''.join(c['grid'][0] + c['front']))) and all(len(x) == 1 and hang(x) for x in c['grid'][1]) and all(c['grid'][0])
    return c['stem'] and all(map(syl, c['stem'])) and c['ending'] and hang(c['ending'][0])
