"""The regex tokenizer keeps the text: NS(s, n) is the first n characters of s without whitespace."""
from .common import *
from pyvc import loader
from pyvc.exec import CPy

R = 'soynlp.tokenizer._tokenizer:RegexTokenizer'
NOTES = ['axioms: the parts of s.split() joined, re.sub(r"\\s+", " ", s) and s.strip() are s up to whitespace',
         'findall returns some strings, none shorter than the shortest match of the pattern in the source; which matches are found does not matter']


def build():
    c = context()
    import re
    c.specconsts['WS'] = re.compile(r'\s+')
    c.fn('NS', [('s', 'str'), ('n', 'int')], 'str', 'ite(n <= 0, "", NS(s, n - 1) + ite(isws(s[n - 1]), "", s[n - 1]))')
    A = lambda s: 'NS(%s, len(%s))' % (s, s)
    c.lemma('nscat1', [('s', 'str'), ('t', 'str'), ('n', 'int')], ['n <= len(s)'], ['NS(s + t, n) == NS(s, n)'], measure='n', trig=['NS(s + t, n)'])
    c.lemma('nscat2', [('s', 'str'), ('t', 'str'), ('k', 'int')], ['0 <= k <= len(t)'], ['NS(s + t, len(s) + k) == %s + NS(t, k)' % A('s')], measure='k', export=['nscat'])
    c.lemma('nscat', [('s', 'str'), ('t', 'str')], [], ['%s == %s + %s' % (A('(s + t)'), A('s'), A('t'))], hints=['NS(s + t, len(s) + len(t)) == %s + %s' % (A('s'), A('t'))], trig=[A('(s + t)')])
    c.lemma('nssub', [('s', 'str'), ('b', 'int'), ('e', 'int'), ('k', 'int')], ['0 <= b', '0 <= k', 'b + k <= e', 'e <= len(s)'], ['NS(s, b + k) == NS(s, b) + NS(s[b:e], k)'], measure='k', hints=['implies(k > 0, NS(s, b + (k - 1)) == NS(s, b) + NS(s[b:e], k - 1))', 'implies(k > 0, NS(s[b:e], k) == NS(s[b:e], k - 1) + ite(isws(s[b + k - 1]), "", s[b + k - 1]))'], trig=['NS(s[b:e], k)'], export=['nspart'])
    c.lemma('nspart', [('s', 'str'), ('b', 'int'), ('e', 'int')], ['0 <= b', 'b <= e', 'e <= len(s)'], ['NS(s, e) == NS(s, b) + %s' % A('s[b:e]')], hints=['NS(s, b + len(s[b:e])) == NS(s, b) + NS(s[b:e], len(s[b:e]))'], trig=['s[b:e]'])
    c.lemma('nsall', [('s', 'str'), ('n', 'int')], ['0 <= n <= len(s)', 'forall(lambda i: implies(0 <= i < len(s), not isws(s[i])))'], ['NS(s, n) == s[:n]'], measure='n', hints=['implies(n > 0, s[:n] == s[:n - 1] + s[n - 1])'], trig=['NS(s, n)'], export=[R + '.tokenize', R + '.__call__', 'parts'])
    c.lemma('split', [('s', 'str')], [], ['joinl(s.split(), len(s.split())) == ' + A('s')], trig=['s.split()'], assumed=True)
    c.lemma('strip', [('s', 'str')], [], [A('s.strip()') + ' == ' + A('s')], trig=['s.strip()'], assumed=True)
    c.lemma('runs', [('s', 'str')], [], [A('WS.sub(" ", s)') + ' == ' + A('s')], trig=['WS.sub(" ", s)'], assumed=True)

    def tok(ex, st):
        return ex.call(loader.resolve(R), [], {}, st, None)
    self = ('self', tok)
    clean = 'CLEAN({0})'.format
    c.fn('WORD', [('w', 'str')], 'bool', 'len(w) > 0 and forall(lambda j: implies(0 <= j < len(w), not isws(w[j])))')
    c.fn('CLEAN', [('p', 'list[str]')], 'bool', 'forall(lambda i: implies(0 <= i < len(p), WORD(p[i])))')
    c.lemma('cleancat', [('p', 'list[str]'), ('q', 'list[str]')], [], ['CLEAN(p + q) == (CLEAN(p) and CLEAN(q))'], trig=['CLEAN(p + q)'])
    c.lemma('cleanpush', [('p', 'list[str]'), ('w', 'str')], [], ['CLEAN(p + [w]) == (CLEAN(p) and WORD(w))'], trig=['CLEAN(p + [w])'])
    c.lemma('cleanpart', [('p', 'list[str]'), ('n', 'int')], ['CLEAN(p)'], ['CLEAN(p[:n])'], trig=['CLEAN(p[:n])'])
    c.add(Contract(R + '._tokenize', [self, ('s', 'str'), ('debug', 'bool')], returns='list[str]', paths=True, ensures=['joinl(result, len(result)) == ' + A('s'), clean('result')]))
    p = 'ite(b > _i, b, _i)'
    c.loops[R + '._tokenize'] = [Loop(['%s == %s' % (A('s'), A('pre(s)'))], types={'s': 'str'}, cut=False), Loop(['len_found == len(found)', 'len_found > 0', '0 <= b <= len(s)', 'NS(s_, len(s_)) == NS(s, %s)' % p,
        'forall(lambda q: implies(0 <= q < len(founds), len(founds[q]) > 0))'], types={'founds': 'list[str]', 'found': 'str', 's_': 'str'})]
    PS = 'list[list[str]]'
    c.fn('FLAT', [('rs', PS), ('n', 'int')], 'list[str]', 'ite(n <= 0, [], FLAT(rs, n - 1) + rs[n - 1])')
    c.lemma('joincat1', [('p', 'list[str]'), ('q', 'list[str]'), ('n', 'int')], ['n <= len(p)'], ['joinl(p + q, n) == joinl(p, n)'], measure='n', hints=['implies(n > 0, (p + q)[n - 1] == p[n - 1])', 'implies(n > 0, joinl(p + q, n - 1) == joinl(p, n - 1))'], trig=['joinl(p + q, n)'])
    c.lemma('joincat2', [('p', 'list[str]'), ('q', 'list[str]'), ('k', 'int')], ['0 <= k <= len(q)'], ['joinl(p + q, len(p) + k) == joinl(p, len(p)) + joinl(q, k)'], measure='k', hints=['implies(k > 0, (p + q)[len(p) + (k - 1)] == q[k - 1])', 'implies(k > 0, joinl(p + q, len(p) + (k - 1)) == joinl(p, len(p)) + joinl(q, k - 1))'], export=['joincat'])
    c.lemma('joincat', [('p', 'list[str]'), ('q', 'list[str]')], [], ['joinl(p + q, len(p + q)) == joinl(p, len(p)) + joinl(q, len(q))'], hints=['joinl(p + q, len(p) + len(q)) == joinl(p, len(p)) + joinl(q, len(q))'], trig=['joinl(p + q, len(p + q))'])
    c.lemma('flat', [('rs', PS), ('ps', 'list[str]'), ('n', 'int')], ['0 <= n <= len(rs)', 'len(ps) == len(rs)', 'forall(lambda k: implies(0 <= k < len(rs), joinl(rs[k], len(rs[k])) == ps[k]))'],
            ['joinl(FLAT(rs, n), len(FLAT(rs, n))) == joinl(ps, n)'], measure='n', hints=['implies(n > 0, joinl(FLAT(rs, n - 1), len(FLAT(rs, n - 1))) == joinl(ps, n - 1))', 'implies(n > 0, FLAT(rs, n) == FLAT(rs, n - 1) + rs[n - 1])'], trig=['FLAT(rs, n), joinl(ps, n)'])
    parts = lambda r: 'len({0}) == len(s.split()) and forall(lambda k: implies(0 <= k < len({0}), joinl({0}[k], len({0}[k])) == s.split()[k] and {1}))'.format(r, clean('%s[k]' % r))
    flat = 'exists(lambda rs: %s and result == FLAT(rs, len(rs)), rs="%s")' % (parts('rs'), PS)
    for m in ('.tokenize', '.__call__'):
        c.add(Contract(R + m, [self, ('s', 'str'), ('debug', 'bool'), ('flatten', 'bool')], split=['flatten'], returns=lambda env: 'list[str]' if env['flatten'] is True else PS if env['flatten'] is False else None, ensures=[
            'implies(not flatten, %s)' % parts('result'),
            'implies(flatten, %s)' % flat,
            'implies(flatten, joinl(result, len(result)) == %s)' % A('s'), 'implies(flatten, %s)' % clean('result')]))
    c.comps[R + '.tokenize'] = (2, {1: [Loop(['_out == FLAT(tokens, _i)', clean('_out')], types={'_out': 'list[str]'}, name='t'), Loop(['_out == FLAT(tokens, _i_t) + token[:_i]', clean('_out')], types={'_out': 'list[str]'})]})
    return c
