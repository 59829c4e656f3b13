"""All code points: decompose / compose are inverse, predicates agree with the ranges."""
from .core import *
from soynlp import hangle
from soynlp.hangle import _hangle as H

CHO = 'ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ'
JUNG = 'ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ'
JONG = ' ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ'


def one(c):
    o = ord(c)
    syl, ja, mo = 44032 <= o <= 55203, 12593 <= o <= 12622, 12623 <= o <= 12643
    d = hangle.decompose(c)
    if syl:
        i = o - 44032
        e = (CHO[i // 588], JUNG[i % 588 // 28], JONG[i % 28])
    elif ja: e = (c, ' ', ' ')
    elif mo: e = (' ', c, ' ')
    else: e = None
    if d != e: return 'decompose(%r) = %r, not %r' % (c, d, e)
    if syl and hangle.compose(*d) != c: return 'compose(%r) = %r, not %r' % (d, hangle.compose(*d), c)
    for n, v in (('korean', syl or ja or mo), ('complete_korean', syl), ('jaum', ja), ('moum', mo), ('number', 48 <= o <= 57),
                 ('english', 97 <= o <= 122 or 65 <= o <= 90), ('punctuation', c in '!"\',.?`')):
        f = getattr(hangle, 'character_is_' + n, None) or getattr(H, 'character_is_' + n)
        if bool(f(c)) != v: return 'character_is_%s(%r) = %r' % (n, c, f(c))
    if H.to_base(c) != o: return 'to_base(%r) = %r' % (c, H.to_base(c))


def check(case):
    lo, hi = case['lo'], case['hi']
    for o in range(lo, hi):
        if 0xd800 <= o < 0xe000: continue
        m = one(chr(o))
        if m: return m
    if lo == 44032 and hi > 55203:
        for a in CHO:
            for b in JUNG:
                for c in JONG:
                    s = hangle.compose(a, b, c)
                    if len(s) != 1 or not 44032 <= ord(s) <= 55203 or hangle.decompose(s) != (a, b, c):
                        return 'compose(%r, %r, %r) = %r, decomposed %r' % (a, b, c, s, hangle.decompose(s))


def fixed(lits):
    return [{'lo': 44032, 'hi': 55204}] + [{'lo': a, 'hi': min(a + 4096, 0x110000)} for a in range(0, 0x110000, 4096)]


def gen(rng, lits):
    a = rng.choice([rng.randint(0, 60000), rng.randint(44032, 55203)])
    return {'lo': a, 'hi': a + 50}


def valid(c): return 0 <= c['lo'] <= c['hi'] <= 0x110000
