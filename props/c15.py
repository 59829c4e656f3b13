"""Emoticon and repeat normalisation.  RR is the property's own definition of repeat reduction, JAMO of the sequence of
jamo letters and other characters of a text."""
from .common import *
import re

N = 'soynlp.normalizer._normalizer:'
NOTES = ['axiom: re.sub(r"(\\w)\\1{2,}", "\\1" * k, s) replaces every maximal run of three or more equal word characters by k copies',
         'axiom: re.sub(r"\\s+", " ", s) turns every whitespace run into one blank (opaque here; its meaning is axiomatised under C14)']


def build():
    c = context()
    hangle(c)
    c.contracts[H + 'decompose'].ensures.pop()
    c.specconsts['WS'] = re.compile(r'\s+')
    c.specconsts['REPEAT'] = re.compile('(\\w)\\1{2,}')
    c.specconsts['CP'] = '\\1'
    c.add(Contract(H + 'compose', [('cho', 'char'), ('jung', 'char'), ('jong', 'char')], returns='char', pure=True, assumed='C01',
                   requires=['cho in CHO', 'jung in JUNG', 'jong in JONG'],
                   ensures=['len(result) == 1', '44032 <= ord(result) <= 55203', 'decompose(result) == (cho, jung, jong)']))
    c.fn('WORDCH', [('ch', 'int')], 'bool')
    c.fn('RUN', [('s', 'str'), ('n', 'int')], 'int', 'ite(n <= 1, n, ite(s[n - 1] == s[n - 2], RUN(s, n - 1) + 1, 1))')
    c.fn('COPIES', [('ch', 'str'), ('k', 'int')], 'str', 'ite(k <= 0, "", COPIES(ch, k - 1) + ch)')
    c.fn('RR', [('s', 'str'), ('n', 'int'), ('k', 'int')], 'str',
         'ite(n <= 0, "", RR(s, n - RUN(s, n), k) + COPIES(s[n - 1], ite(RUN(s, n) >= 3 and WORDCH(ord(s[n - 1])), k, RUN(s, n))))')
    c.lemma('runs reduced', [('s', 'str'), ('k', 'int')], ['k > 0'], ['REPEAT.sub(CP * k, s) == RR(s, len(s), k)'], trig=['REPEAT.sub(CP * k, s)'], assumed=True)
    c.fn('JM', [('ch', 'str')], 'str', 'ite(44032 <= ord(ch) <= 55203, some(decompose(ch))[0] + some(decompose(ch))[1] + ite(some(decompose(ch))[2] == " ", "", some(decompose(ch))[2]), ch)')
    c.fn('JAMO', [('s', 'str'), ('n', 'int')], 'str', 'ite(n <= 0, "", JAMO(s, n - 1) + JM(s[n - 1]))')
    c.lemma('a prefix', [('a', 'str'), ('b', 'str'), ('n', 'int')], ['0 <= n <= len(a)'], ['JAMO(a + b, n) == JAMO(a, n)'], measure='n', trig=['JAMO(a + b, n)'])
    c.lemma('one more', [('a', 'str'), ('x', 'str'), ('n', 'int')], ['len(x) == 1', 'n == len(a) + 1'], ['JAMO(a + x, n) == JAMO(a, len(a)) + JM(x)'], trig=['JAMO(a + x, n)'])
    norm = lambda x: 'WS.sub(" ", ite(num_repeats > 0, RR(%s, len(%s), num_repeats), %s)).strip()' % (x, x, x)
    c.add(Contract(N + 'repeat_normalize', [('sent', 'str'), ('num_repeats', 'int')], returns='str', pure=True, ensures=['result == ' + norm('sent')]))
    c.add(Contract(N + 'emoticon_normalize', [('sent', 'str'), ('num_repeats', 'int')], returns='str', ensures=[
        'exists(lambda y: JAMO(y, len(y)) == JAMO(sent, len(sent)) and result == %s, y="str", trig=JAMO(y, len(y)), wit=sent)' % norm('y')], paths=True))
    c.loops[N + 'emoticon_normalize'] = [Loop(['len(joinl(sent_, len(sent_))) >= 0', 'JAMO(joinl(sent_, len(sent_)), len(joinl(sent_, len(sent_)))) == JAMO(sent, _i)'], types={'sent_': 'list[str]'})]
    return c
