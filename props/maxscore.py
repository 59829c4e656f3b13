"""Contracts of MaxScoreTokenizer, shared by the properties that rely on it (proved under C06)."""
from .common import *

M = 'soynlp.tokenizer._tokenizer:MaxScoreTokenizer'
REC = 'tup[str,int,int,real,int]'
RECS = 'list[%s]' % REC
# x ranks at least as high as y: score, then length, then leftmost
RANK = '({0}[3] > {1}[3] or {0}[3] == {1}[3] and ({0}[4] > {1}[4] or {0}[4] == {1}[4] and {0}[1] <= {1}[1]))'
OVER = '({0}[1] < {1}[2] and {1}[1] < {0}[2])'
all_ = lambda s, b, v='i': 'forall(lambda {2}: implies(0 <= {2} and {2} < len({0}), {1}))'.format(s, b, v)
some_ = lambda s, b, v='i': 'exists(lambda {2}: 0 <= {2} and {2} < len({0}) and {1})'.format(s, b, v)
pairs = lambda s, b: 'forall(lambda i, j: implies(0 <= i and i < j and j < len({0}), {1}))'.format(s, b)
rank = lambda x, y: RANK.format(x, y)
over = lambda x, y: OVER.format(x, y)
sc = lambda w, o='self': '({0}._scores[{1}] if {1} in {0}._scores else {0}._ds)'.format(o, w)
ok = lambda r, t='token', o='self': '0 <= {0}[1] and {0}[1] < {0}[2] and {0}[2] <= len({1}) and {0}[4] == {0}[2] - {0}[1] and {0}[0] == {1}[{0}[1]:{0}[2]] and {0}[3] == {2}'.format(r, t, sc(r + '[0]', o))
inorder = lambda s: pairs(s, '{0}[i][2] <= {0}[j][1]'.format(s))


def tiles(r, t, o='self'):
    return ['TILES(%s, len(%s))' % (r, t), all_(r, ok('%s[i]' % r, t, o))]


def greedy(r, t, o='self'):
    # every candidate overlaps a piece of at least two characters that ranks at least as high (a chosen one overlaps itself)
    return 'implies(len({t}) <= 200, forall(lambda b, e: implies(0 <= b and b + 2 <= e and e <= len({t}) and e - b <= {o}._max_length, SERVED({r}, ({t}[b:e], b, e, {s}, e - b)))))'.format(t=t, r=r, o=o, s=sc('%s[b:e]' % t, o))


def maxscore(c, proved, fields={}):
    self = ('self', 'obj ' + M)
    c.cls(M, {'_scores': 'dict[str,real]', '_max_length': 'int', '_ds': 'real'}, ['self._max_length >= 2'])
    a = 'C06' if not proved else False
    tok = ('token', 'str')
    cand = lambda r: '2 <= %s[4] and %s[4] <= range_l' % (r, r)
    c.fn('TILES', [('r', RECS), ('n', 'int')], 'bool', 'len(r) > 0 and r[0][1] == 0 and r[len(r) - 1][2] == n and forall(lambda i: implies(0 <= i < len(r) - 1, r[i][2] == r[i + 1][1]))')
    c.fn('SERVED', [('s', RECS), ('c', REC)], 'bool', some_('s', 's[i][4] >= 2 and ' + over('s[i]', 'c') + ' and ' + rank('s[i]', 'c')))
    if proved:
        # some record spans b to e
        c.fn('SPAN', [('s', RECS), ('b', 'int'), ('e', 'int')], 'bool', some_('s', 's[i][1] == b and s[i][2] == e'))
        c.lemma('span', [('s', RECS), ('x', REC), ('b', 'int'), ('e', 'int')], [], ['SPAN(s + [x], b, e) == (SPAN(s, b, e) or x[1] == b and x[2] == e)'], trig=['SPAN(s + [x], b, e)'])
        c.lemma('spans', [('s', RECS), ('t', RECS), ('b', 'int'), ('e', 'int')], [all_('s', 's[i] in t'), 'SPAN(s, b, e)'], ['SPAN(t, b, e)'], trig=['SPAN(t, b, e), len(s)'])
        c.add(Contract(M + '._initialize', [self, tok, ('range_l', 'int'), ('length', 'int')], returns=RECS, paths=True, requires=['length == len(token)'], ensures=[
            all_('result', ok('result[i]') + ' and ' + cand('result[i]')), pairs('result', rank('result[i]', 'result[j]')),
            'forall(lambda b, e: implies(0 <= b and b + 2 <= e and e <= length and e - b <= range_l, SPAN(result, b, e)), trig=token[b:e])', 'implies(length >= 2 and range_l >= 2, SPAN(result, 0, 2))']))
        has = lambda b, e, s='scores': 'SPAN(%s, %s, %s)' % (s, b, e)
        c.loops[M + '._initialize'] = [
            Loop([all_('scores', ok('scores[i]') + ' and ' + cand('scores[i]')), 'forall(lambda b, e: implies(0 <= b and b < _at and b + 2 <= e and e <= length and e - b <= range_l, %s))' % has('b', 'e')], types={'scores': RECS}, name='b'),
            Loop([all_('scores', ok('scores[i]') + ' and ' + cand('scores[i]')), 'forall(lambda x, y: implies(0 <= x and x < b and x + 2 <= y and y <= length and y - x <= range_l, %s))' % has('x', 'y'),
                  'forall(lambda y: implies(b + 2 <= y and y < b + _at and y <= length, %s))' % has('b', 'y')])]
        o = 'old(scores)'
        mem = lambda r, s=o: all_(r, '%s[i] in %s' % (r, s))
        disj = lambda r: pairs(r, '({0}[i][2] <= {0}[j][1] or {0}[j][2] <= {0}[i][1])'.format(r))
        c.lemma('served', [('s', RECS), ('x', REC), ('c', REC)], [], ['SERVED(s + [x], c) == (SERVED(s, c) or x[4] >= 2 and %s and %s)' % (over('x', 'c'), rank('x', 'c'))], trig=['SERVED(s + [x], c)'])
        c.lemma('serveds', [('s', RECS), ('t', RECS), ('c', REC)], [all_('s', 's[i] in t'), 'SERVED(s, c)'], ['SERVED(t, c)'], trig=['SERVED(t, c), len(s)'])
        c.lemma('servedcat', [('s', RECS), ('t', RECS), ('c', REC)], [], ['SERVED(s + t, c) == (SERVED(s, c) or SERVED(t, c))'], trig=['SERVED(s + t, c)'])
        c.fn('STARTS', [('s', RECS), ('b', 'int')], 'bool', some_('s', 's[i][1] == b'))
        c.lemma('starts', [('s', RECS), ('x', REC), ('b', 'int')], [], ['STARTS(s + [x], b) == (STARTS(s, b) or x[1] == b)'], trig=['STARTS(s + [x], b)'])
        c.lemma('startss', [('s', RECS), ('t', RECS), ('b', 'int')], [all_('s', 's[i] in t'), 'STARTS(s, b)'], ['STARTS(t, b)'], trig=['STARTS(t, b), len(s)'])
        c.lemma('startscat', [('s', RECS), ('t', RECS), ('b', 'int')], [], ['STARTS(s + t, b) == (STARTS(s, b) or STARTS(t, b))'], trig=['STARTS(s + t, b)'])
        c.fn('APART', [('r', RECS)], 'bool', 'forall(lambda i, j: implies(0 <= i < len(r) and 0 <= j < len(r) and i != j, r[i][2] <= r[j][1] or r[j][2] <= r[i][1]))')
        c.fn('CROSS', [('s', RECS), ('t', RECS)], 'bool', 'forall(lambda i, j: implies(0 <= i < len(s) and 0 <= j < len(t), s[i][2] <= t[j][1] or t[j][2] <= s[i][1]))')
        c.lemma('crosscat', [('a', RECS), ('s', RECS), ('t', RECS)], [], ['CROSS(a, s + t) == (CROSS(a, s) and CROSS(a, t))'], trig=['CROSS(a, s + t)'])
        c.lemma('crosscat2', [('a', RECS), ('s', RECS), ('t', RECS)], [], ['CROSS(s + t, a) == (CROSS(s, a) and CROSS(t, a))'], trig=['CROSS(s + t, a)'])
        c.lemma('apartcat', [('s', RECS), ('t', RECS)], [], ['APART(s + t) == (APART(s) and APART(t) and CROSS(s, t))'], trig=['s + t'])
        c.fn('NEXT', [('r', RECS), ('n', 'int')], 'bool', all_('r', '0 <= r[i][1] and r[i][1] < r[i][2] and r[i][2] <= n and implies(r[i][2] < n, STARTS(r, r[i][2]))'))
        c.fn('SORTED', [('r', RECS)], 'bool', pairs('r', 'r[i][1] <= r[j][1]'))
        c.lemma('tiling', [('r', RECS), ('n', 'int')], ['len(r) > 0', 'APART(r)', 'NEXT(r, n)', 'SORTED(r)', 'STARTS(r, 0)'],
                ['TILES(r, n)'], trig=['TILES(r, n)'])
        c.fn('FIT', [('s', RECS), ('k', 'int')], 'bool', 's[k][2] >= 2 * k + 2')
        c.lemma('fit', [('s', RECS), ('k', 'int')], ['0 <= k < len(s)', all_('s', '0 <= s[i][1] and s[i][1] + 2 <= s[i][2]'), inorder('s')], ['FIT(s, k)'], measure='k', hints=['implies(k > 0, FIT(s, k - 1))', 'implies(k > 0, s[k - 1][2] <= s[k][1])'], trig=['FIT(s, k)'])
        served = lambda n: 'SERVED(result, %s[%s])' % (o, n)
        c.add(Contract(M + '._find', [('self', 'obj ' + M), ('scores', RECS)], returns=RECS, requires=[pairs('scores', rank('scores[i]', 'scores[j]')), all_('scores', '0 <= scores[i][1] and scores[i][1] + 2 <= scores[i][2] and scores[i][4] >= 2')], modifies=['scores'], paths=True, ensures=[
            'implies(len(old(scores)) > 0, len(result) > 0)', 'implies(len(result) > 0, FIT(result, len(result) - 1))', mem('result'), inorder('result'),
            'implies(len(result) <= 100, %s)' % all_(o, served('c'), 'c')]))
        p = '(word, b, e, score, r)'
        x = 'b < {0}[2] and {0}[1] < e'
        S0 = 'pre(scores)'
        P = '(removals[len(removals) - _i] if _i > 0 else len(%s))' % S0
        c.loops[M + '._find'] = [
            Loop(['num_iter == len(result)', 'implies(len(result) == 0, len(scores) == len(%s))' % o, mem('scores'), mem('result'), disj('result'), pairs('scores', rank('scores[i]', 'scores[j]')),
                  'forall(lambda i, j: implies(0 <= i < len(result) and 0 <= j < len(scores), not %s))' % over('result[i]', 'scores[j]'),
                  all_(o, '(%s or %s)' % ('%s[c] in scores' % o, served('c')), 'c')], types={'result': RECS, 'scores': RECS}),
            Loop([all_('removals', '0 <= removals[q] and removals[q] < _i and ' + x.format('scores[removals[q]]'), 'q'), pairs('removals', 'removals[i] < removals[j]'),
                  'forall(lambda i: implies(0 <= i < _i and %s, %s))' % (x.format('scores[i]'), some_('removals', 'removals[q] == i', 'q'))], types={'removals': 'list[int]'}),
            Loop([pairs('scores', rank('scores[i]', 'scores[j]')), P + ' <= len(scores)',
                  'forall(lambda x: implies(0 <= x and x < %s, scores[x] == %s[x]))' % (P, S0),
                  'forall(lambda x: implies(%s <= x and x < len(scores), not (%s) and %s))' % (P, x.format('scores[x]'), 'scores[x] in ' + S0),
                  'forall(lambda y: implies(%s <= y and y < len(%s) and not (%s), %s))' % (P, S0, x.format(S0 + '[y]'), '%s[y] in scores' % S0)])]
        # the stretches between, before and after the chosen pieces
        good = ['len(result) > 0', all_('result', ok('result[i]')), inorder('result')]
        res = ('result', RECS)
        okr = [g.replace('result', 'pieces') for g in good]
        apart = 'forall(lambda i, j: implies(0 <= i < len({1}) and 0 <= j < len({0}), {0}[j][2] <= {1}[i][1] or {1}[i][2] <= {0}[j][1]))'
        ps = ('pieces', RECS)
        next_ = lambda s: 'forall(lambda i: implies(0 <= i < len(pieces) - 1 and pieces[i][2] < pieces[i + 1][1], STARTS(%s, pieces[i][2])))' % s
        gap = lambda s, n: all_(s, 'exists(lambda j: 0 <= j < {1} and {0}[i][1] == pieces[j][2] and {0}[i][2] == pieces[j + 1][1] and pieces[j][2] < pieces[j + 1][1])'.format(s, n))
        c.add(Contract(M + '._add_inter_subtokens', [self, tok, ps], returns=RECS, paths=True, requires=okr, ensures=[all_('result', ok('result[i]')), inorder('result'), gap('result', 'len(pieces) - 1'), next_('result'), apart.format('pieces', 'result')]))
        lim = lambda n: next_('adds').replace('0 <= i < len(pieces) - 1', '0 <= i < ' + n)
        c.loops[M + '._add_inter_subtokens'] = [Loop([x.replace('pieces', 'result') for x in [all_('adds', ok('adds[i]')), inorder('adds'), gap('adds', '_i'), all_('adds', 'adds[i][2] <= pieces[_i][1]'), lim('_i'), apart.format('pieces', 'adds')]], types={'adds': RECS})]
        one = lambda b, e: ['len(result) == 1 and ' + ok('result[0]') + ' and result[0][1] == %s and result[0][2] == %s' % (b, e)]
        c.add(Contract(M + '._add_first_subtoken', [self, tok, ps], returns=RECS, requires=okr + ['pieces[0][1] > 0'], ensures=one('0', 'pieces[0][1]')))
        c.add(Contract(M + '._add_last_subtoken', [self, tok, ps], returns=RECS, requires=okr + ['pieces[len(pieces) - 1][2] < len(token)'], ensures=one('pieces[len(pieces) - 1][2]', 'len(token)')))
    c.add(Contract(M + '._recursive_tokenize', [self, tok, ('range_l', 'int'), ('debug', 'bool')], returns=RECS, paths=True, assumed=a, requires=['len(token) > 0', 'range_l == 0', 'not debug'], ensures=([all_('result', ok('result[i]')), 'len(result) > 0', 'SORTED(result)', 'APART(result)', 'NEXT(result, len(token))', 'STARTS(result, 0)'] if proved else []) + tiles('result', 'token') + [greedy('result', 'token')], chain=True))
    c.fn('WORDS', [('r', RECS), ('n', 'int')], 'list[str]', 'ite(n <= 0, [], WORDS(r, n - 1) + [r[n - 1][0]])')
    c.fn('FLAT', [('rs', 'list[%s]' % RECS), ('n', 'int')], 'list[str]', 'ite(n <= 0, [], FLAT(rs, n - 1) + WORDS(rs[n - 1], len(rs[n - 1])))')
    tk = 'sentence.split()[k]'
    # what is required of the records r of token t
    c.fn('PIECES', [('self_scores', 'dict[str,real]'), ('self_ds', 'real'), ('self_max_length', 'int'), ('t', 'str'), ('r', RECS)], 'bool', ' and '.join(x.replace('self._', 'self_') for x in tiles('r', 't') + [greedy('r', 't')]))
    eachtok = lambda r: 'len({0}) == len(sentence.split()) and forall(lambda k: implies(0 <= k < len({0}), PIECES(self._scores, self._ds, self._max_length, sentence.split()[k], {0}[k])))'.format(r)
    RR = 'list[%s]' % RECS
    if proved:
        c.add(Contract(M + '.__init__', [self, ('scores', 'dict[str,real]'), ('max_length', 'int'), ('default_score', 'real')], requires=['max_length >= 2'], owns=True, paths=True, ensures=[
            'forall(lambda w: (w in self._scores) == (w in old(scores)) and implies(w in old(scores), self._scores[w] == old(scores)[w]), w="str")', 'self._max_length == max_length', 'self._ds == default_score']))
        c.add(Contract(M + '.__call__', [self, ('sentence', 'str'), ('flatten', 'bool')], split=['flatten'], ensures=[
            'implies(not flatten, %s)' % eachtok('result'),
            'implies(flatten, exists(lambda rs: %s and result == FLAT(rs, len(rs)), rs="%s"))' % (eachtok('rs'), RR)]))
    c.add(Contract(M + '.tokenize', [self, ('sentence', 'str'), ('flatten', 'bool')], assumed=a, returns=lambda env: 'list[str]' if env['flatten'] is True else RR if env['flatten'] is False else None, split=['flatten'], ensures=[
        'implies(not flatten, %s)' % eachtok('result'),
        'implies(flatten, exists(lambda rs: %s and result == FLAT(rs, len(rs)), rs="%s"))' % (eachtok('rs'), RR)]))
    c.comps[M + '.tokenize'] = (2, {1: [Loop(['_out == FLAT(tokens, _i)'], types={'_out': 'list[str]'}, name='t'), Loop(['_out == FLAT(tokens, _i_t) + WORDS(token, _i)'], types={'_out': 'list[str]'})]})
    return c
