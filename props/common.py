"""Contracts shared by several properties: Hangul characters."""
from pyvc.spec import Context, Contract, Loop, ClassSpec, SpecFn, Lemma, ty

H = 'soynlp.hangle._hangle:'
# The jamo of the Unicode standard (compatibility letters), independent of the tables in the code.
CHO = 'ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ'
JUNG = 'ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ'
JONG = ' ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ'

COMPOSED = ('forall(lambda a, b, d: implies(0 <= a < 19 and 0 <= b < 21 and 0 <= d < 28 and cho == CHO[a] and jung == JUNG[b] and jong == JONG[d],'
            ' ord(result) == 44032 + 588 * a + 28 * b + d))')


def context():
    c = Context()
    c.specconsts.update(CHO=CHO, JUNG=JUNG, JONG=JONG)
    c.specrefs.update(decompose=H + 'decompose', compose=H + 'compose')
    return c


def hangle(c):
    """decompose / compose as pure functions with the contracts proved under C01 (proved there, used here)"""
    syl, jaum, moum = '44032 <= ord(c) <= 55203', '12593 <= ord(c) <= 12622', '12623 <= ord(c) <= 12643'
    hang = '(%s or %s or %s)' % (syl, jaum, moum)
    c.add(Contract(H + 'decompose', [('c', 'char')], returns='opt[tup[char,char,char]]', pure=True, assumed='C01', ensures=[
        'iff(result is None, not %s)' % hang,
        'implies(%s, result == (c, " ", " "))' % jaum,
        'implies(%s, result == (" ", c, " "))' % moum,
        'implies(%s, result == (CHO[(ord(c) - 44032) // 588], JUNG[(ord(c) - 44032) %% 588 // 28], JONG[(ord(c) - 44032) %% 28]))' % syl,
        'implies(%s, 12593 <= ord(some(result)[0]) <= 12622 and 12623 <= ord(some(result)[1]) <= 12643 and (some(result)[2] == " " or 12593 <= ord(some(result)[2]) <= 12622))' % syl,
        'implies(%s, compose(some(result)[0], some(result)[1], some(result)[2]) == c)' % syl,
    ]))
