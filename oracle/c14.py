from .core import *
from soynlp import normalizer as N
hg = lambda c: 12593 <= ord(c) <= 12643 or 44032 <= ord(c) <= 55203
dg = lambda c: '0' <= c <= '9'
al = lambda c: 'a' <= c <= 'z' or 'A' <= c <= 'Z'


def ref(s, keep):
    return ' '.join(''.join(c if keep(c) else ' ' for c in s).split(' ')).split() and ' '.join(''.join(c if keep(c) else ' ' for c in s).split()) or ''


def one(name, f, s, keep):
    e = ref(s, keep)
    r = f(s)
    if r != e: return '%s of %r = %r, not %r' % (name, s, r, e)
    if f(r) != r: return '%s of its own result %r = %r' % (name, r, f(r))


def check(case):
    s = case['s']
    m = one('only_hangle', N.only_hangle, s, hg) or one('only_hangle_number', N.only_hangle_number, s, lambda c: hg(c) or dg(c)) \
        or one('only_text', N.only_text, s, lambda c: hg(c) or dg(c) or al(c) or c in ',.?!"\'()[]{}')
    if m: return m
    for a, n, p, y in itertools.product((False, True), repeat=4):
        kw = dict(alphabet=a, number=n, punctuation=p, symbol=y)
        keep = lambda c: hg(c) or (n and dg(c)) or (a and al(c)) or (p and c in ',.?!') or (y and c in '()[]{}') or c in '"\''
        m = one('normalize(%r)' % kw, lambda t: N.normalize(t, **kw), s, keep)
        if m: return m


def gen(rng, lits): return {'s': text(rng, lits, spaces=rng.choice([0, .1, .4]), ab=rng.choice([None, None, list("a1,('\"-&)*가ㄱ [`"), ]))}
def fixed(lits): return [{'s': chr(c) + '가' + chr(c) + chr(c) + 'a'} for c in list(range(0, 0x250)) + list(range(0x3000, 0x3200)) + [44031, 44032, 55203, 55204, 0xfffd, 0xff21, 0xff11]]
def trivial(c): return not c['s'].strip()
