from .core import *
from soynlp.tokenizer import RegexTokenizer
T = RegexTokenizer()


def check(case):
    s = case['s']
    parts = s.split()
    r = T.tokenize(s, flatten=False)
    if len(r) != len(parts): return 'tokenize(%r, flatten=False) has %d parts' % (s, len(r))
    for p, ts in zip(parts, r):
        if ''.join(ts) != p: return 'tokenize(%r, flatten=False): part %r gives %r' % (s, p, ts)
        for t in ts:
            if not t or t.split() != [t]: return 'tokenize(%r): token %r is empty or holds whitespace' % (s, t)
    f = T.tokenize(s)
    if f != [t for ts in r for t in ts]: return 'tokenize(%r) = %r, unflattened %r' % (s, f, r)


def gen(rng, lits):
    ab = rng.choice([None, list('+-.12a가ㄱㅏ'), list("a'`[s]é1"), list('3.1-'), list('ㄱㅏ가a1'), list("as'` ")])
    return {'s': text(rng, lits, ab, n=rng.choice([None, None, 40, 90]), spaces=rng.choice([0, .1, .3]))}


def fixed(lits):
    for n in (1, 2, 3, 4):
        for t in itertools.product('1.-가ㄱa\'s', repeat=n): yield {'s': ''.join(t)}


def trivial(c): return not c['s'].split()
