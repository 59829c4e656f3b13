"""Lemmatization: the pairs returned are known and conjugate to the word; every plain split is among them."""
from .common import *
from .c13 import C, SYL, HANG

L = 'soynlp.lemmatizer._lemmatizer:'
K = L + 'Lemmatizer'
NOTES = ['no user-supplied table of predefined lemmas (the built-in one is keyed by words and never matches a pair)', 'debug output off']
PAIRS = 'set[tup[str,str]]'


def build():
    c = context()
    hangle(c)
    c.contracts[H + 'decompose'].ensures.pop()
    c.contracts[H + 'decompose'].params[0] = ('c', ty('char'))
    c.add(Contract(H + 'compose', [('chosung', 'char'), ('jungsung', 'char'), ('jongsung', 'char')], returns='char', pure=True, assumed='C01',
                   requires=['chosung in CHO', 'jungsung in JUNG', 'jongsung in JONG'], ensures=['len(result) == 1', SYL('result'), 'decompose(result) == (chosung, jungsung, jongsung)']))
    c.fn('SYLS', [('s', 'str')], 'bool', 'forall(lambda i: implies(0 <= i < len(s), %s))' % SYL('s[i]'))
    c.lemma('syls', [('s', 'str'), ('t', 'str')], ['SYLS(s)', 'SYLS(t)'], ['SYLS(s + t)'], trig=['SYLS(s + t)'])
    c.lemma('sylsub', [('s', 'str'), ('i', 'int'), ('j', 'int')], ['SYLS(s)', '0 <= i <= j <= len(s)'], ['SYLS(s[i:j])'], trig=['SYLS(s[i:j])'])
    c.add(Contract(C + 'conjugate', [('stem', 'str'), ('ending', 'str'), ('enforce_moum_harmoney', 'bool'), ('debug', 'bool')], returns='set[str]', pure=True, assumed='C13',
        requires=['len(stem) > 0', 'SYLS(stem)', 'len(ending) > 0', HANG('ending[0]'), 'not debug'], ensures=[]))
    c.specrefs['conjugate'] = C + 'conjugate'
    conj = 'conjugate({0}, {1}, False, False)'.format
    c.fn('STEM', [('p', 'tup[str,str]')], 'bool', 'len(p[0]) > 0 and SYLS(p[0]) and (len(p[1]) == 0 or %s)' % HANG('p[1][0]'))
    # p is a lemma of the word w
    c.fn('LEMMA', [('w', 'str'), ('p', 'tup[str,str]')], 'bool', 'len(p[1]) > 0 and len(p[0]) > 0 and w in ' + conj('p[0]', 'p[1]'))
    # l and r are a plain split that must be found
    c.fn('PLAIN', [('l', 'str'), ('r', 'str')], 'bool', 'len(r) > 0 and some(decompose(r[0]))[2] != "ㅎ" and l + r in ' + conj('l', 'r'))
    P = [('l', 'str'), ('r', 'str'), ('predefined', 'dict[str,list[str]]'), ('debug', 'bool')]
    good = 'forall(lambda p: implies(p in {0}, STEM(p)), p="tup[str,str]")'.format
    lem = 'forall(lambda p: implies(p in {0}, LEMMA(l + r, p)), p="tup[str,str]")'.format
    c.add(Contract(L + 'lemma_candidate', P, returns=PAIRS, requires=['len(l) > 0', 'SYLS(l)', 'SYLS(r)', 'not debug'], after={'candidates': (PAIRS, [good('candidates'), '(l, r) in candidates'])},
        ensures=[lem('result'), 'implies(PLAIN(l, r), (l, r) in result)']))
    c.loops[L + 'lemma_candidate'] = [Loop(cut=False), Loop([good('candidates'), '(l, r) in candidates'], types={'candidates': PAIRS}), Loop([lem('candidates_'), 'forall(lambda p: implies(p in candidates and _idx(p) < _i and p == (l, r) and PLAIN(l, r), p in candidates_), p="tup[str,str]")'], types={'candidates_': PAIRS})]
    self = ('self', 'obj ' + K)
    c.cls(K, {'_stems': 'set[str]', '_endings': 'set[str]', '_predefined': 'dict[str,list[str]]'})
    ok = '(LEMMA(word, p) and p[0] in self._stems and (check_only_stem or p[1] in self._endings))'
    every = lambda s, w=ok: 'forall(lambda p: implies(p in %s, %s), p="tup[str,str]")' % (s, w)
    plain = lambda s, n, i='i': 'forall(lambda {2}: implies(1 <= {2} < {1} and PLAIN(word[:{2}], word[{2}:]) and word[:{2}] in self._stems and (check_only_stem or word[{2}:] in self._endings), (word[:{2}], word[{2}:]) in {0}), trig=PLAIN(word[:{2}], word[{2}:]))'.format(s, n, i)
    c.add(Contract(K + '.lemmatize', [self, ('word', 'str'), ('check_only_stem', 'bool')], returns=PAIRS, requires=['SYLS(word)'], ensures=[every('result'), plain('result', 'len(word)')]))
    X = {'candidates': PAIRS}
    inner = 'forall(lambda p: implies(p in lemma_candidate(l, r, self._predefined, False)'
    c.loops[K + '.lemmatize'] = [Loop([every('candidates'), plain('candidates', '_at')], types=X, name='w'),
        Loop([every('candidates'), plain('candidates', 'i', 'j'), 'forall(lambda p: implies(_idx(p) < _i and p == (l, r) and PLAIN(l, r) and p[0] in self._stems and (check_only_stem or p[1] in self._endings), p in candidates), p="tup[str,str]")'], types=X)]
    only = 'LEMMA(word, p)'
    c.add(Contract(K + '.candidates', [self, ('word', 'str')], returns=PAIRS, requires=['SYLS(word)'], ensures=[every('result', only)]))
    c.loops[K + '.candidates'] = [Loop([every('candidates', only)], types=X)]
    c.add(Contract(K + '.__init__', [self, ('stems', 'set[str]'), ('endings', 'set[str]')], ensures=['self._stems == old(stems)', 'self._endings == old(endings)']))
    return c
