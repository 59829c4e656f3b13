from .core import *
import re
from soynlp.hangle import ConvolutionHangleEncoder
CHO = 'ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ'
enc = ConvolutionHangleEncoder()
ALL = ''.join(map(chr, list(range(12593, 12644)) + list(range(44032, 55204)) + list(range(48, 58))))


def clean(s):
    t = ''.join(c if (12593 <= ord(c) <= 12643 or 44032 <= ord(c) <= 55203 or c in '0123456789 ') else ' ' for c in s)
    return ' '.join(t.split())


def check(case):
    s = case['text']
    e = clean(s)
    codes = enc.sent_to_onehot(s)
    if len(codes) != len(e): return '%d codes for cleaned text %r of %r' % (len(codes), e, s)
    for c, t in zip(e, codes):
        if not all(0 <= int(i) < enc.dim for i in t): return 'code %r of %r out of range (dimension %d)' % (t, c, enc.dim)
    d = enc.onehot_to_sent(codes)
    if d != e: return 'decode(encode(%r)) = %r, not %r' % (s, d, e)
    x = enc.encode(s)
    if x.shape != (len(e), enc.dim): return 'matrix of %r has shape %r' % (s, x.shape)
    for i, t in enumerate(codes):
        if {int(j) for j in x[i].nonzero()[0]} != set(t) or any(x[i, j] != 1 for j in t): return 'row %d of the matrix of %r has ones at %r, not %r' % (i, s, x[i].nonzero()[0].tolist(), t)
    again = enc.sent_to_onehot(s)
    if again != codes: return 'encoding %r twice differs' % s


def fixed(lits): return [{'text': ''}, {'text': ALL}] + [{'text': ALL[i:i + 40]} for i in range(0, 400, 40)]
def gen(rng, lits): return {'text': text(rng, lits, spaces=rng.choice([0, .2, .6]))}
def trivial(case): return not clean(case['text'])
