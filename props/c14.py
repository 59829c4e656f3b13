"""The text filters.  F is the property's own definition of the filtered text (kept characters in order, one blank for
each maximal run of others between two kept ones); the code's regular expressions are translated from the source."""
from .common import *
import re

N = 'soynlp.normalizer._normalizer:'
NOTES = ['axiom: re.sub(r"\\s+", " ", s).strip() is s with every whitespace run between two other characters turned into one blank and all other whitespace dropped',
         'single-character classes are read from the patterns in the source; \\s is the set of characters of str.isspace']
BOUNDED = ['normalize with remove_repeat > 0 is not part of the property']
FL = [('al', 'bool'), ('nu', 'bool'), ('pu', 'bool'), ('sy', 'bool'), ('qt', 'bool')]


def build():
    c = context()
    c.specconsts['WS'] = re.compile(r'\s+')
    rng = lambda x, *rs: '(' + ' or '.join('%d <= %s <= %d' % (a, x, b) for a, b in rs) + ')'
    one = lambda x, s: '(' + ' or '.join('%s == %d' % (x, ord(ch)) for ch in s) + ')'
    k = '(%s or (nu and %s) or (al and %s) or (pu and %s) or (sy and %s) or (qt and %s))' % (
        rng('ord(ch)', (12593, 12622), (12623, 12643), (44032, 55203)), rng('ord(ch)', (48, 57)), rng('ord(ch)', (65, 90), (97, 122)),
        one('ord(ch)', ',.?!'), one('ord(ch)', '()[]{}'), one('ord(ch)', '"\''))
    c.fn('K', [('ch', 'str')] + FL, 'bool', k)
    fl = ', '.join(n for n, _ in FL)
    K = lambda x: 'K(%s, %s)' % (x, fl)
    rec = 'ite(n <= 0, "", ite({K1}, {F}(s, n - 1{A}) + ite(len({F}(s, n - 1{A})) > 0 and not {K2}, " ", "") + s[n - 1], {F}(s, n - 1{A})))'
    c.fn('F', [('s', 'str'), ('n', 'int')] + FL, 'str', rec.format(F='F', A=', ' + fl, K1=K('s[n - 1]'), K2=K('s[n - 2]')))
    c.fn('FWS', [('s', 'str'), ('n', 'int')], 'str', rec.format(F='FWS', A='', K1='(not isws(s[n - 1]))', K2='(not isws(s[n - 2]))'))
    c.lemma('blanks collapsed and trimmed', [('s', 'str')], [], ['WS.sub(" ", s).strip() == FWS(s, len(s))'], trig=['WS.sub(" ", s).strip()'], assumed=True)
    c.lemma('others to blanks', [('m', 'str'), ('s', 'str'), ('n', 'int')] + FL,
            ['len(m) == len(s)', '0 <= n <= len(s)', 'forall(lambda i: implies(0 <= i < len(s), ord(m[i]) == ite(%s, ord(s[i]), 32)))' % K('s[i]')],
            ['FWS(m, n) == F(s, n, %s)' % fl], measure='n', trig=['(FWS(m, n), F(s, n, %s))' % fl], hints=['implies(n > 0, iff(isws(m[n - 1]), not %s))' % K('s[n - 1]'), 'implies(n > 1, iff(isws(m[n - 2]), not %s))' % K('s[n - 2]'), 'implies(n > 0, FWS(m, n - 1) == F(s, n - 1, %s))' % fl])
    c.lemma('shape', [('s', 'str'), ('n', 'int')] + FL, ['0 <= n <= len(s)'],
            ['implies(len(F(s, n, {0})) > 0, {1})'.format(fl, K('F(s, n, %s)[len(F(s, n, %s)) - 1]' % (fl, fl))),
             'forall(lambda i: implies(0 <= i < len(F(s, n, {0})), {1} or (ord(F(s, n, {0})[i]) == 32 and 0 < i and {2})))'.format(fl, K('F(s, n, %s)[i]' % fl), K('F(s, n, %s)[i - 1]' % fl))],
            measure='n', trig=['F(s, n, %s)' % fl], export=['idempotent'])
    c.lemma('nothing to change', [('y', 'str'), ('k', 'int')] + FL,
            ['0 <= k <= len(y)', 'forall(lambda i: implies(0 <= i < len(y), {0} or (ord(y[i]) == 32 and 0 < i and {1})))'.format(K('y[i]'), K('y[i - 1]'))],
            ['F(y, k, {0}) == ite(k > 0 and not {1}, y[:k - 1], y[:k])'.format(fl, K('y[k - 1]'))], measure='k', trig=['F(y, k, %s)' % fl], export=['idempotent'])
    c.lemma('idempotent', [('s', 'str')] + FL, [], ['F(F(s, len(s), {0}), len(F(s, len(s), {0})), {0}) == F(s, len(s), {0})'.format(fl)], export=False)
    for f, v in (('only_hangle', [0, 0, 0, 0, 0]), ('only_hangle_number', [0, 1, 0, 0, 0]), ('only_text', [1, 1, 1, 1, 1])):
        c.add(Contract(N + f, [('sent', 'str')], returns='str', ensures=['result == F(sent, len(sent), %s)' % ', '.join(str(bool(x)) for x in v)]))
    b = 'bool'
    c.add(Contract(N + 'normalize', [('doc', 'str'), ('alphabet', b), ('number', b), ('punctuation', b), ('symbol', b), ('remove_repeat', lambda ex, st: 0)], returns='str',
                   split=['alphabet', 'number', 'punctuation', 'symbol'],
                   ensures=['result == F(doc, len(doc), alphabet, number, punctuation, symbol, True)']))
    return c
