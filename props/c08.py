"""Noun tokenizers: the chain of longest nouns from the start, and runs of positive pieces of the max-score tokenizer."""
from .maxscore import *

L = 'soynlp.tokenizer._noun_tokenizer:NounLMatchTokenizer'
N = 'soynlp.tokenizer._noun_tokenizer:NounMatchTokenizer'
NOTES = ['the noun collection of the left-noun tokenizer is a set of non-empty words']


def build():
    c = context()
    maxscore(c, False)
    LS, SS = 'list[str]', 'set[str]'
    # -- longest nouns from the left
    c.fn('CHAIN', [('ns', SS), ('t', 'str'), ('ps', LS), ('n', 'int')], 'bool',
         'implies(n > 0, CHAIN(ns, t, ps, n - 1) and LONGEST(ns, t, len(joinl(ps, n - 1)), len(joinl(ps, n - 1)) + len(ps[n - 1])) and ps[n - 1] == t[len(joinl(ps, n - 1)):len(joinl(ps, n - 1)) + len(ps[n - 1])])')
    c.fn('LONGEST', [('ns', SS), ('t', 'str'), ('b', 'int'), ('e', 'int')], 'bool', 'b < e and e <= len(t) and t[b:e] in ns and forall(lambda x: implies(e < x <= len(t), t[b:x] not in ns))')
    c.fn('END', [('ns', SS), ('t', 'str'), ('b', 'int')], 'bool', 'forall(lambda x: implies(b < x <= len(t), t[b:x] not in ns))')
    c.lemma('chainpush', [('ns', SS), ('t', 'str'), ('ps', LS), ('x', 'str'), ('n', 'int')], ['n <= len(ps)'], ['CHAIN(ns, t, ps + [x], n) == CHAIN(ns, t, ps, n)'], measure='n', trig=['CHAIN(ns, t, ps + [x], n)'],
            hints=['implies(n > 0, joinl(ps + [x], n - 1) == joinl(ps, n - 1))', 'implies(n > 0, CHAIN(ns, t, ps + [x], n - 1) == CHAIN(ns, t, ps, n - 1))', 'implies(n > 0, (ps + [x])[n - 1] == ps[n - 1])', 'implies(n > 0, CHAIN(ns, t, ps, n) == (CHAIN(ns, t, ps, n - 1) and LONGEST(ns, t, len(joinl(ps, n - 1)), len(joinl(ps, n - 1)) + len(ps[n - 1])) and ps[n - 1] == t[len(joinl(ps, n - 1)):len(joinl(ps, n - 1)) + len(ps[n - 1])]))', 'implies(n > 0, CHAIN(ns, t, ps + [x], n) == (CHAIN(ns, t, ps, n - 1) and LONGEST(ns, t, len(joinl(ps, n - 1)), len(joinl(ps, n - 1)) + len(ps[n - 1])) and ps[n - 1] == t[len(joinl(ps, n - 1)):len(joinl(ps, n - 1)) + len(ps[n - 1])]))'])
    c.lemma('prefix', [('ns', SS), ('t', 'str'), ('ps', LS), ('n', 'int')], ['0 <= n <= len(ps)', 'CHAIN(ns, t, ps, n)'], ['len(joinl(ps, n)) <= len(t)', 'joinl(ps, n) == t[:len(joinl(ps, n))]', 'forall(lambda k: implies(0 <= k < n, len(ps[k]) > 0 and ps[k] in ns))'], measure='n', trig=['CHAIN(ns, t, ps, n)'],
            hints=['implies(n > 0, joinl(ps, n) == joinl(ps, n - 1) + ps[n - 1])'])
    c.lemma('sumlen', [('q', 'list[int]'), ('ps', LS), ('k', 'int')], ['0 <= k <= len(ps)', 'len(q) == len(ps)', 'forall(lambda i: implies(0 <= i < len(q), q[i] == len(ps[i])))'], ['sumn(q, k) == len(joinl(ps, k))'], measure='k',
            hints=['implies(k > 0, sumn(q, k) == sumn(q, k - 1) + q[k - 1])', 'implies(k > 0, joinl(ps, k) == joinl(ps, k - 1) + ps[k - 1])'], trig=['sumn(q, k), joinl(ps, k)'])
    self = ('self', 'obj ' + L)
    c.cls(L, {'_nouns': SS}, ['"" not in self._nouns'])
    whole = 'joinl({0}, len({0}))'.format
    found = lambda r, t, ns='self._nouns': 'CHAIN({2}, {1}, {0}, len({0})) and END({2}, {1}, len({3}))'.format(r, t, ns, whole(r))
    c.add(Contract(L + '._max_length_l_tokenize.<locals>.nouns_to_larray_and_r', [('token', 'str'), ('nouns_', LS)], returns='tup[list[str],str]', shares=True, ensures=['result[0] == nouns_', 'result[1] == token[len(%s):]' % whole('nouns_')]))
    CAND = 'tup[str,int,int]'
    c.add(Contract(L + '._max_length_l_tokenize', [self, ('token', 'str')], returns='tup[list[str],str]', paths=True, ensures=[found('result[0]', 'token'), 'result[1] == token[len(%s):]' % whole('result[0]')]))
    c.fn('IN', [('s', 'list[%s]' % CAND), ('b', 'int'), ('e', 'int')], 'bool', some_('s', 's[i][1] == b and s[i][1] + s[i][2] == e'))
    c.lemma('in', [('s', 'list[%s]' % CAND), ('x', CAND), ('b', 'int'), ('e', 'int')], [], ['IN(s + [x], b, e) == (IN(s, b, e) or x[1] == b and x[1] + x[2] == e)'], trig=['IN(s + [x], b, e)'])
    okc = all_('nouns', '0 <= nouns[i][1] and nouns[i][1] <= nouns[i][1] + nouns[i][2] and nouns[i][1] + nouns[i][2] <= len(token) and nouns[i][0] == token[nouns[i][1]:nouns[i][1] + nouns[i][2]] and nouns[i][0] in self._nouns')
    T = {'nouns': 'list[%s]' % CAND}
    c.loops[L + '._max_length_l_tokenize'] = [
        Loop([okc, 'forall(lambda b, e: implies(0 <= b < _at and b < e <= n and token[b:e] in self._nouns, IN(nouns, b, e)))'], types=T, name='b'),
        Loop([okc, 'forall(lambda x, e: implies(0 <= x < b and x < e <= n and token[x:e] in self._nouns, IN(nouns, x, e)))', 'forall(lambda x: implies(b < x < _at and token[b:x] in self._nouns, IN(nouns, b, x)))'], types=T),
        Loop([okc, pairs('nouns', 'nouns[i][1] <= nouns[j][1] and implies(nouns[i][1] == nouns[j][1], nouns[i][2] >= nouns[j][2])'), all_('nouns', 'nouns[i][1] >= e'), 'e == len(%s)' % whole('nouns_'), 'e <= len(token)',
              'CHAIN(self._nouns, token, nouns_, len(nouns_))', 'forall(lambda b, x: implies(e <= b and b < x <= n and token[b:x] in self._nouns, IN(nouns, b, x)))'], types={**T, 'nouns_': LS})]
    TS, LL = 'list[tup[list[str],str]]', 'list[list[str]]'
    rec = lambda a, step: 'ite(n <= 0, [], {0}, n - 1) + {1})'.format(a, step)
    recif = lambda a, cond, x: 'ite(n <= 0, [], ite({1}, {0}, n - 1) + [{2}], {0}, n - 1)))'.format(a, cond, x)
    c.fn('KEEP', [('ts', TS), ('n', 'int')], TS, recif('KEEP(ts', 'len(ts[n - 1][0]) > 0', 'ts[n - 1]'))
    c.fn('HEADS', [('ts', TS), ('n', 'int')], LL, rec('HEADS(ts', '[ts[n - 1][0]]'))
    c.fn('JOINS', [('ps', LL), ('n', 'int')], LS, rec('JOINS(ps', '[%s]' % whole('ps[n - 1]')))
    c.fn('UNITS', [('ps', LL), ('n', 'int')], LS, rec('UNITS(ps', 'ps[n - 1]'))
    c.fn('NONEMPTY', [('ps', LS), ('n', 'int')], LS, recif('NONEMPTY(ps', 'len(ps[n - 1]) > 0', 'ps[n - 1]'))
    c.lemma('headspush', [('ts', TS), ('x', 'tup[list[str],str]'), ('n', 'int')], ['n <= len(ts)'], ['HEADS(ts + [x], n) == HEADS(ts, n)'], measure='n', trig=['HEADS(ts + [x], n)'])
    c.lemma('joinspush', [('ps', LL), ('x', LS), ('n', 'int')], ['n <= len(ps)'], ['JOINS(ps + [x], n) == JOINS(ps, n)'], measure='n', trig=['JOINS(ps + [x], n)'])
    c.lemma('unitspush', [('ps', LL), ('x', LS), ('n', 'int')], ['n <= len(ps)'], ['UNITS(ps + [x], n) == UNITS(ps, n)'], measure='n', trig=['UNITS(ps + [x], n)'])
    c.fn('HK', [('ts', TS), ('n', 'int')], LL, recif('HK(ts', 'len(ts[n - 1][0]) > 0', 'ts[n - 1][0]'))
    c.fn('WHOLE', [('ts', TS), ('n', 'int')], LS, recif('WHOLE(ts', 'len(ts[n - 1][0]) > 0', whole('ts[n - 1][0]')))
    c.fn('FLATU', [('ts', TS), ('n', 'int')], LS, rec('FLATU(ts', 'ts[n - 1][0]'))
    K = 'KEEP(ts, n)'
    H = 'HK(ts, n)'
    c.lemma('hk', [('ts', TS), ('n', 'int')], [], ['HEADS(%s, len(%s)) == HK(ts, n)' % (K, K)], measure='n', pull=True, trig=['HEADS(%s, len(%s))' % (K, K)])
    c.lemma('whole', [('ts', TS), ('n', 'int')], [], ['JOINS(%s, len(%s)) == WHOLE(ts, n)' % (H, H)], measure='n', pull=True, trig=['JOINS(%s, len(%s))' % (H, H)])
    c.lemma('units', [('ts', TS), ('n', 'int')], [], ['UNITS(%s, len(%s)) == FLATU(ts, n)' % (H, H)], measure='n', pull=True, trig=['UNITS(%s, len(%s))' % (H, H)])
    c.fn('ALLW', [('p', LS)], 'bool', all_('p', 'len(p[i]) > 0'))
    c.lemma('allwcat', [('p', LS), ('q', LS)], [], ['ALLW(p + q) == (ALLW(p) and ALLW(q))'], trig=['ALLW(p + q)'])
    c.lemma('allwpush', [('p', LS), ('x', 'str')], [], ['ALLW(p + [x]) == (ALLW(p) and len(x) > 0)'], trig=['ALLW(p + [x])'])
    c.lemma('nonempty', [('p', LS), ('n', 'int')], ['ALLW(p)', '0 <= n <= len(p)'], ['NONEMPTY(p, n) == p[:n]'], measure='n', pull=True, trig=['NONEMPTY(p, n)'], hints=['implies(n > 0, p[:n] == p[:n - 1] + [p[n - 1]])'])
    c.fn('FOUND', [('ns', SS), ('t', 'str'), ('x', 'tup[list[str],str]')], 'bool', found('x[0]', 't', 'ns') + ' and x[1] == t[len(%s):]' % whole('x[0]'))
    c.lemma('words', [('ns', SS), ('t', 'str'), ('x', 'tup[list[str],str]')], ['FOUND(ns, t, x)'], ['ALLW(x[0])', 'implies(len(x[0]) > 0, len(%s) > 0)' % whole('x[0]')], hints=['implies(len(x[0]) > 0, joinl(x[0], len(x[0])) == joinl(x[0], len(x[0]) - 1) + x[0][len(x[0]) - 1])'], trig=['FOUND(ns, t, x)'])
    each = 'len(ts) == len(ks) and forall(lambda k: implies(0 <= k < len(ks), FOUND(ns, ks[k], ts[k])))'
    ap = [('ns', SS), ('ks', LS), ('ts', TS), ('n', 'int')]
    c.fn('EACH', ap[:3], 'bool', each)
    for f in ('WHOLE', 'FLATU'):
        c.lemma('words of ' + f, ap, ['EACH(ns, ks, ts)', '0 <= n <= len(ts)'], ['ALLW(%s(ts, n))' % f], measure='n', trig=['EACH(ns, ks, ts), %s(ts, n)' % f])
    for m in ('.tokenize', '.__call__'):
        c.add(Contract(L + m, [self, ('sentence', 'str'), ('compose_compound', 'bool')], split=['compose_compound'], returns=LS, ensures=[
            'exists(lambda ts: EACH(self._nouns, sentence.split(), ts) and implies(compose_compound, result == WHOLE(ts, len(ts))) and implies(not compose_compound, result == FLATU(ts, len(ts))), trig=[KEEP(ts, len(ts)), EACH(self._nouns, sentence.split(), ts)], ts="%s")' % TS]))
    c.comps[L + '.tokenize'] = (6, {0: [Loop(['len(_out) == _i', 'forall(lambda k: implies(0 <= k < _i, FOUND(self._nouns, sentence.split()[k], _out[k])))'], types={'_out': TS})], 1: [Loop(['_out == KEEP(tokens, _i)'], types={'_out': TS})], 2: [Loop(['_out == HEADS(tokens, _i)'], types={'_out': LL})], 3: [Loop(['_out == JOINS(tokens, _i)'], types={'_out': LS})],
        4: [Loop(['_out == UNITS(tokens, _i)'], types={'_out': LS}, name='t'), Loop(['_out == UNITS(tokens, _i_t) + token[:_i]'], types={'_out': LS})], 5: [Loop(['_out == NONEMPTY(tokens, _i)'], types={'_out': LS})]})
    c.add(Contract(L + '.__init__', [self, ('nouns', SS)], requires=['"" not in nouns'], ensures=['self._nouns == old(nouns)']))
    # -- runs of pieces of positive score
    self = ('self', 'obj ' + N)
    c.cls(N, {'_tokenizer': 'obj ' + M}, ['self._tokenizer._max_length >= 2'])
    W, R = [('words', RECS)], ('r', REC)
    # the words from index i to j follow each other, span r, and r has their greatest score
    c.fn('SPANS', W + [R, ('i', 'int'), ('j', 'int')], 'bool', '0 <= i <= j < len(words) and words[i][1] == r[1] and words[j][2] == r[2] and forall(lambda k: implies(i <= k < j, words[k][2] == words[k + 1][1])) and forall(lambda k: implies(i <= k <= j, words[k][3] <= r[3])) and exists(lambda k: i <= k <= j and words[k][3] == r[3])')
    c.fn('RUN', W + [R], 'bool', 'exists(lambda i, j: SPANS(words, r, i, j), trig=SPANS(words, r, i, j))')
    c.fn('KEPT', [('out', RECS), ('w', REC)], 'bool', some_('out', 'out[i][1] <= w[1] and w[2] <= out[i][2] and w[3] <= out[i][3]'))
    c.lemma('kept', [('out', RECS), ('x', REC), ('w', REC)], [], ['KEPT(out + [x], w) == (KEPT(out, w) or x[1] <= w[1] and w[2] <= x[2] and w[3] <= x[3])'], trig=['KEPT(out + [x], w)'])
    shape = '0 <= {0}[1] and {0}[1] < {0}[2] and {0}[2] <= len(eojeol) and {0}[4] == {0}[2] - {0}[1] and {0}[0] == eojeol[{0}[1]:{0}[2]]'.format
    okw = [all_('words', shape('words[i]') + ' and words[i][3] > 0'), inorder('words')]
    apart = lambda s: pairs(s, '{0}[i][2] < {0}[j][1]'.format(s))
    c.fn('RUNS', [('eojeol', 'str')] + W + [('out', RECS)], 'bool', ' and '.join([all_('out', shape('out[i]') + ' and RUN(words, out[i])'), apart('out'), all_('words', 'KEPT(out, words[m])', 'm')]))
    cc = N + '.tokenize.<locals>.concatenate'
    c.add(Contract(cc, [('eojeol', 'str'), ('words', RECS)], returns=RECS, paths=True, chain=True, requires=okw, ensures=[all_('result', shape('result[i]')), all_('result', 'RUN(words, result[i])'), apart('result'), all_('words', 'KEPT(result, words[m])', 'm'), 'RUNS(eojeol, words, result)']))
    cur = '(eojeol[b:e], b, e, score, e - b)'
    c.loops[cc] = [Loop([all_('words_', shape('words_[i]')), all_('words_', 'RUN(words, words_[i])'), apart('words_'), all_('words_', 'words_[i][2] < b'),
        'implies(_i == 0, b == 0 and e == 0 and score == 0 and len(words_) == 0)', 'implies(_i > 0, 0 <= b and b < e and e <= len(eojeol) and e == words[_i - 1][2] and exists(lambda i: SPANS(words, %s, i, _i - 1), trig=words[i]))' % cur,
        'forall(lambda m: implies(0 <= m < _i, KEPT(words_, words[m]) or b <= words[m][1] and words[m][2] <= e and words[m][3] <= score))'], types={'words_': RECS, 'score': 'real'})]
    c.fn('POS', [('r', RECS), ('n', 'int')], RECS, recif('POS(r', 'r[n - 1][3] > 0', 'r[n - 1]'))
    SF = [('scores', 'dict[str,real]'), ('ds', 'real'), ('ml', 'int'), ('t', 'str')]
    c.fn('NOUNS', SF + [('compose', 'bool'), ('ws', RECS)], 'bool', 'all_nonempty(ws) and exists(lambda r: PIECES(scores, ds, ml, t, r) and ite(compose, RUNS(t, POS(r, len(r)), ws), ws == POS(r, len(r))), trig=[PIECES(scores, ds, ml, t, r), POS(r, len(r))], r="%s")'.replace('all_nonempty(ws)', all_('ws', 'len(ws[i][0]) > 0')) % RECS)
    f = 'self._tokenizer._scores, self._tokenizer._ds, self._tokenizer._max_length, '
    nouns = lambda r, n: 'len({0}) == {1} and forall(lambda k: implies(0 <= k < {1}, NOUNS({2} sentence.split()[k], compose_compound, {0}[k])))'.format(r, n, f)
    RR = 'list[%s]' % RECS
    for m in ('.tokenize', '.__call__'):
        c.add(Contract(N + m, [self, ('sentence', 'str'), ('flatten', 'bool'), ('compose_compound', 'bool')], split=['flatten', 'compose_compound'], paths=True, returns=lambda env: LS if env['flatten'] is True else RR if env['flatten'] is False else None, ensures=[
            'implies(not flatten, %s)' % nouns('result', 'len(sentence.split())'),
            'implies(flatten, exists(lambda ss: %s and result == FLAT(ss, len(ss)), ss="%s"))' % (nouns('ss', 'len(sentence.split())'), RR)]))
    c.loops[N + '.tokenize'] = [Loop([nouns('sentence_', '_i')], types={'sentence_': RR})]
    ends = '(words[_i - 1][2] if _i > 0 else 0)'
    c.comps[N + '.tokenize'] = (2, {0: [Loop(['_out == POS(words, _i)', all_('_out', shape('_out[i]') + ' and _out[i][3] > 0'), inorder('_out'), all_('_out', '_out[i][2] <= ' + ends)], types={'_out': RECS})],
        1: [Loop(['_out == FLAT(sentence_, _i)'], types={'_out': LS}, name='t'), Loop(['_out == FLAT(sentence_, _i_t) + WORDS(words, _i)'], types={'_out': LS})]})
    return c
