from .core import *
import re
from soynlp.normalizer import emoticon_normalize, repeat_normalize
from .c04 import jamo
W = re.compile(r'\w')


def runs(s): return [(k, len(list(g))) for k, g in itertools.groupby(s)]
def reduce(s, n):
    t = ''.join(k * (n if W.match(k) and m >= 3 else m) for k, m in runs(s)) if n > 0 else s
    return ' '.join(t.split()) if t.split() else ''
def jamos(s):
    out = ''
    for c in s:
        j = jamo(c)
        out += c if j is None else j.replace(' ', '')
    return out


def check(case):
    s = case['s']
    for n in case['ns']:
        r = repeat_normalize(s, n)
        if r != reduce(s, n): return 'repeat_normalize(%r, %d) = %r, not %r' % (s, n, r, reduce(s, n))
    if repeat_normalize(s) != reduce(s, 2): return 'repeat_normalize(%r) = %r' % (s, repeat_normalize(s))
    b = emoticon_normalize(s, num_repeats=0)
    if jamos(b) != ' '.join(jamos(s).split()): return 'emoticon_normalize(%r, num_repeats=0) = %r changes the jamo sequence' % (s, b)
    for n in case['ns']:
        r = emoticon_normalize(s, num_repeats=n)
        if r != reduce(b, n): return 'emoticon_normalize(%r, num_repeats=%d) = %r, repeat reduction of %r is %r' % (s, n, r, b, reduce(b, n))
    if emoticon_normalize(s) != reduce(b, 2): return 'emoticon_normalize(%r) = %r' % (s, emoticon_normalize(s))


def gen(rng, lits):
    ab = rng.choice([None, list('ㅋㅋ쿠ㅜㅠ크쿡ㅡㄱ'), list('하ㅎㅏ핳해ㅐ'), list('ㅇ우ㅜ울ㄹ어ㅓ'), list('aA_가 ㅋ!1-')])
    return {'s': text(rng, lits, ab=ab, spaces=rng.choice([0, .05, .3])), 'ns': sorted({rng.randint(0, 5), rng.randint(1, 3), 2})}
def fixed(lits):
    for n in (1, 2, 3, 4):
        for t in itertools.product('ㅋ쿠ㅜ쿡ㄱ ', repeat=n): yield {'s': ''.join(t), 'ns': [1, 2, 3]}
    # long runs: around every number in the source, and beyond any bound a pattern may have
    for m in sorted({k + d for k in lits.nums if k <= 1000 for d in (-1, 0, 1, 2)} | {2 ** k + d for k in range(4, 13) for d in (0, 1)} | {150, 201, 202, 300, 500, 999, 1001}):
        if m > 0:
            for t in ('a', 'ㅋ', '가', '!'): yield {'s': t * m, 'ns': [1, 2, 3]}
    yield {'s': 'ㅋ' * 70000 + 'x' + '하' * 70000, 'ns': [2]}
def valid(c): return all(0 <= n <= 50 for n in c['ns'])
def trivial(c): return not c['s'].strip()
