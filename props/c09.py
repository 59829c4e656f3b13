"""L-R max-score tokenizer: the records tile each eojeol and right parts are dictionary words."""
from .maxscore import *
from pyvc.spec import ALIASES
from pyvc.theory import Ty, OPEN

X = 'soynlp.tokenizer._tokenizer:MaxLRScoreTokenizer'
NOTES = ['candidate rows are lists used as records: their first eight entries (left, right, begin, middle, end and the lengths) are tracked; the scores appended after them are arbitrary non-negative numbers, so their number per row is not proved',
         'no tokenizer builder and no left-right graph is given to the constructor']
BOUNDED = ['the number of scores in a row of MaxLRScoreTokenizer (the rows have ten entries when _score takes them apart)']
DS = 'dict[str,real]'


def build():
    c = context()
    maxscore(c, False)
    ALIASES['ROW'] = Ty('tup', ty('tup[str,str,int,int,int,int,int,int]').a, None, OPEN)
    RS = 'list[ROW]'
    c.cls(X, {'Dl': DS, 'Dr': DS, 'Pl': DS, 'Pr': DS, 'lmax': 'int', 'rmax': 'int', 'base_tokenizer': 'obj ' + M, 'max_lscore_difference': 'real', 'max_lscore_diffratio': 'real', 'ensurable_score_l': 'real', 'ensurable_score_lr_diff': 'real'},
          ['self.base_tokenizer._max_length >= 2'])
    self, t_ = ('self', 'obj ' + X), ('t', 'str')
    word = 'len(t) > 0 and forall(lambda i: implies(0 <= i < len(t), not isws(t[i])))'
    # the row x spells the stretch of t it names (t itself starts at o)
    c.fn('OK', [('d', DS), ('t', 'str'), ('o', 'int'), ('x', 'ROW')], 'bool',
         'o <= x[2] <= x[3] <= x[4] <= o + len(t) and x[2] < x[4] and x[0] == t[x[2] - o:x[3] - o] and x[1] == t[x[3] - o:x[4] - o] and x[5] == x[3] - x[2] and x[6] == x[4] - x[3] and x[7] == x[4] - x[2] and (x[3] == x[4] or x[1] in d)')
    okr = lambda s, t='t', o='0': all_(s, 'OK(self.Dr, %s, %s, %s[i])' % (t, o, s))
    inord = lambda s: pairs(s, '{0}[i][4] <= {0}[j][2]'.format(s))
    c.fn('TILED', [('r', RS), ('b', 'int'), ('e', 'int')], 'bool', 'len(r) > 0 and r[0][2] == b and r[len(r) - 1][4] == e and forall(lambda i: implies(0 <= i < len(r) - 1, r[i][4] == r[i + 1][2]))')
    c.fn('OKS', [('d', DS), ('t', 'str'), ('o', 'int'), ('s', RS)], 'bool', all_('s', 'OK(d, t, o, s[i])'))
    c.lemma('okspush', [('d', DS), ('t', 'str'), ('o', 'int'), ('s', RS), ('x', 'ROW')], [], ['OKS(d, t, o, s + [x]) == (OKS(d, t, o, s) and OK(d, t, o, x))'], trig=['OKS(d, t, o, s + [x])'])
    c.lemma('tiledpush', [('r', RS), ('x', 'ROW'), ('b', 'int'), ('e', 'int')], [], ['TILED(r + [x], b, e) == ((TILED(r, b, x[2]) or len(r) == 0 and x[2] == b) and x[4] == e)'], trig=['TILED(r + [x], b, e)'])
    c.lemma('join', [('t', 'str'), ('r', RECS), ('n', 'int')], ['TILES(r, len(t))', all_('r', '0 <= r[i][1] and r[i][1] < r[i][2] and r[i][2] <= len(t) and r[i][0] == t[r[i][1]:r[i][2]]'), '0 <= n <= len(r)'],
            ['len(WORDS(r, n)) == n', 'joinl(WORDS(r, n), n) == t[:(r[n - 1][2] if n > 0 else 0)]', all_('WORDS(r, n)', 'len(WORDS(r, n)[i]) > 0')], measure='n', trig=['TILES(r, len(t)), WORDS(r, n)'])
    P = 'PIECES(sc, ds, ml, t, rs[0])'
    c.lemma('base', [('sc', DS), ('ds', 'real'), ('ml', 'int'), ('t', 'str'), ('rs', 'list[%s]' % RECS)], ['len(rs) == 1', P],
            ['FLAT(rs, 1) == WORDS(rs[0], len(rs[0]))', 'len(FLAT(rs, 1)) > 0', 'joinl(FLAT(rs, 1), len(FLAT(rs, 1))) == t', all_('FLAT(rs, 1)', 'len(FLAT(rs, 1)[i]) > 0')], trig=[P + ', FLAT(rs, len(rs))'], hints=['FLAT(rs, 0) == []', 'FLAT(rs, 1) == FLAT(rs, 0) + WORDS(rs[0], len(rs[0]))', 'FLAT(rs, 1) == WORDS(rs[0], len(rs[0]))', 'TILES(rs[0], len(t))'])
    c.lemma('prefix', [('ws', 'list[str]'), ('n', 'int'), ('k', 'int')], ['0 <= n <= k <= len(ws)'], ['joinl(ws, n) == joinl(ws, k)[:len(joinl(ws, n))]', 'len(joinl(ws, n)) <= len(joinl(ws, k))'], measure='k', trig=['joinl(ws, n), joinl(ws, k)'], hints=['implies(n < k, joinl(ws, k) == joinl(ws, k - 1) + ws[k - 1])'])
    nx = 'len(joinl(ws, i))'
    c.lemma('next', [('ws', 'list[str]'), ('i', 'int'), ('t', 'str')], ['0 <= i < len(ws)', 'joinl(ws, len(ws)) == t'], ['joinl(ws, i + 1) == joinl(ws, i) + ws[i]', nx + ' + len(ws[i]) <= len(t)', 'joinl(ws, i + 1) == t[:%s + len(ws[i])]' % nx, 'ws[i] == t[%s:%s + len(ws[i])]' % (nx, nx)],
            trig=['joinl(ws, i), ws[i], joinl(ws, len(ws)), len(t)'], hints=['joinl(ws, i + 1) == joinl(ws, len(ws))[:len(joinl(ws, i + 1))]'])
    # -- the stretches without a candidate
    c.add(Contract(X + '._base_tokenizing_subword', [self, t_, ('b', 'int')], returns=RS, requires=[word, '0 <= b'], ensures=['OKS(self.Dr, t, b, result)', 'TILED(result, b, b + len(t))', 'PART(result, b, b + len(t))'], chain=True))
    c.loops[X + '._base_tokenizing_subword'] = [Loop(['joinl(words, len(words)) == t', 'len(words) > 0', all_('words', 'len(words[i]) > 0'), '0 <= b_ <= len(t)', 'b_ == len(joinl(words, _i))', 'joinl(words, _i) == t[:b_]', 'len(words_) == _i', 'OKS(self.Dr, t, b, words_)',
        'implies(_i == 0, b_ == 0)', 'implies(_i > 0, TILED(words_, b, b + b_))'], types={'words_': RS})]
    # -- candidates
    L4 = 'tup[str,int,int,int]'
    row4 = '0 <= {0}[1] < {0}[2] <= len(t) and {0}[0] == t[{0}[1]:{0}[2]] and {0}[3] == {0}[2] - {0}[1]'.format
    c.add(Contract(X + '._initialize_L', [self, t_], returns='list[%s]' % L4, ensures=[all_('result', row4('result[i]'))]))
    T4 = {'candidates': 'list[%s]' % L4}
    c.loops[X + '._initialize_L'] = [Loop([all_('candidates', row4('candidates[i]'))], types=T4), Loop([all_('candidates', row4('candidates[i]'))], types=T4)]
    c.add(Contract(X + '._initialize_LR', [self, t_, ('candidates', 'list[%s]' % L4)], returns=RS, requires=[all_('candidates', row4('candidates[i]'))], ensures=[okr('result')]))
    c.loops[X + '._initialize_LR'] = [Loop([okr('expanded')], types={'expanded': RS}), Loop([okr('expanded')], types={'expanded': RS})]
    c.add(Contract(X + '._initialize', [self, t_], returns=RS, ensures=[okr('result')]))
    sub = lambda s, o='old(candidates)': all_(s, '%s[i] in %s' % (s, o))
    cs = ('candidates', RS)
    c.add(Contract(X + '._remove_l_subset', [self, cs], returns=RS, ensures=[sub('result')]))
    c.loops[X + '._remove_l_subset'] = [Loop([]), Loop([sub('candidates'), sub('candidates_')], types={'candidates_': RS}), Loop([])]
    c.add(Contract(X + '._score', [self, cs], returns=RS, ensures=[sub('result')]))
    c.hints['*'] = (ty('int'), ty(RS))
    c.loops[X + '._score'] = [Loop([]), Loop([sub('candidates'), sub('scored')], types={'scored': RS}), Loop([]), Loop([])]
    c.add(Contract(X + '._find_best', [self, ('scores', RS)], returns=RS, requires=[all_('scores', '0 <= scores[i][2] and scores[i][2] < scores[i][4]')], ensures=[sub('result', 'old(scores)'), inord('result'), 'implies(len(old(scores)) > 0, len(result) > 0)']))
    S0 = 'pre(sorted_)'
    x = 'b < {0}[4] and e > {0}[2]'
    disj = lambda r: pairs(r, '({0}[i][4] <= {0}[j][2] or {0}[j][4] <= {0}[i][2])'.format(r))
    wide = lambda s: all_(s, '0 <= {0}[i][2] and {0}[i][2] < {0}[i][4]'.format(s))
    P = '(removals[len(removals) - _i] if _i > 0 else len(%s))' % S0
    c.loops[X + '._find_best'] = [
        Loop([sub('sorted_', 'old(scores)'), sub('best', 'old(scores)'), wide('sorted_'), wide('best'), disj('best'), 'implies(len(best) == 0, len(sorted_) == len(old(scores)))',
              'forall(lambda i, j: implies(0 <= i < len(best) and 0 <= j < len(sorted_), best[i][4] <= sorted_[j][2] or sorted_[j][4] <= best[i][2]))'], types={'best': RS, 'sorted_': RS}),
        Loop([P + ' <= len(sorted_)', 'forall(lambda x: implies(0 <= x and x < %s, sorted_[x] == %s[x]))' % (P, S0), wide('sorted_'),
              'forall(lambda x: implies(%s <= x and x < len(sorted_), not (%s) and sorted_[x] in %s))' % (P, x.format('sorted_[x]'), S0)])]
    # -- filling the gaps
    c.fn('STARTS2', [('s', RS), ('b', 'int')], 'bool', some_('s', 's[i][2] == b'))
    c.lemma('starts', [('s', RS), ('x', 'ROW'), ('b', 'int')], [], ['STARTS2(s + [x], b) == (STARTS2(s, b) or x[2] == b)'], trig=['STARTS2(s + [x], b)'])
    c.lemma('startss', [('s', RS), ('t', RS), ('b', 'int')], [all_('s', 's[i] in t'), 'STARTS2(s, b)'], ['STARTS2(t, b)'], trig=['STARTS2(t, b), len(s)'])
    c.lemma('startscat', [('s', RS), ('t', RS), ('b', 'int')], [], ['STARTS2(s + t, b) == (STARTS2(s, b) or STARTS2(t, b))'], trig=['STARTS2(s + t, b)'])
    c.lemma('okscat', [('d', DS), ('t', 'str'), ('o', 'int'), ('s', RS), ('r', RS)], [], ['OKS(d, t, o, s + r) == (OKS(d, t, o, s) and OKS(d, t, o, r))'], trig=['OKS(d, t, o, s + r)'])
    # rows of s come before those of t, or the other way round
    c.fn('APART2', [('r', RS)], 'bool', 'forall(lambda i, j: implies(0 <= i < len(r) and 0 <= j < len(r) and i != j, r[i][4] <= r[j][2] or r[j][4] <= r[i][2]))')
    c.fn('CROSS2', [('s', RS), ('t', RS)], 'bool', 'forall(lambda i, j: implies(0 <= i < len(s) and 0 <= j < len(t), s[i][4] <= t[j][2] or t[j][4] <= s[i][2]))')
    c.lemma('crosscat', [('a', RS), ('s', RS), ('t', RS)], [], ['CROSS2(a, s + t) == (CROSS2(a, s) and CROSS2(a, t))'], trig=['CROSS2(a, s + t)'])
    c.lemma('crosscat2', [('a', RS), ('s', RS), ('t', RS)], [], ['CROSS2(s + t, a) == (CROSS2(s, a) and CROSS2(t, a))'], trig=['CROSS2(s + t, a)'])
    c.lemma('apartcat', [('s', RS), ('t', RS)], [], ['APART2(s + t) == (APART2(s) and APART2(t) and CROSS2(s, t))'], trig=['APART2(s + t)'])
    c.fn('NEXT2', [('r', RS), ('n', 'int')], 'bool', all_('r', '0 <= r[i][2] and r[i][2] < r[i][4] and r[i][4] <= n and implies(r[i][4] < n, STARTS2(r, r[i][4]))'))
    c.fn('SORTED2', [('r', RS)], 'bool', pairs('r', 'r[i][2] <= r[j][2]'))
    c.lemma('tiling', [('r', RS), ('n', 'int')], ['len(r) > 0', 'APART2(r)', 'NEXT2(r, n)', 'SORTED2(r)', 'STARTS2(r, 0)'], ['TILED(r, 0, n)'], trig=['TILED(r, 0, n)'])
    # rows that tile the stretch from b to e
    c.fn('ORD', [('r', RS), ('i', 'int'), ('j', 'int')], 'bool', 'r[i][4] <= r[j][2]')
    wf = all_('r', 'r[i][2] < r[i][4]')
    c.lemma('ord', [('r', RS), ('b', 'int'), ('e', 'int'), ('i', 'int'), ('j', 'int')], ['TILED(r, b, e)', wf, '0 <= i < j < len(r)'], ['ORD(r, i, j)'], measure='j', trig=['TILED(r, b, e), ORD(r, i, j)'], hints=['r[j - 1][4] == r[j][2]', 'implies(i < j - 1, ORD(r, i, j - 1))', 'r[j - 1][2] < r[j - 1][4]', 'r[i][4] <= r[j - 1][4]'])
    c.fn('PART', [('r', RS), ('b', 'int'), ('e', 'int')], 'bool', 'STARTS2(r, b) and APART2(r) and forall(lambda i: implies(0 <= i < len(r), b <= r[i][2] < r[i][4] <= e and (r[i][4] == e or STARTS2(r, r[i][4]))))')
    c.lemma('part', [('r', RS), ('b', 'int'), ('e', 'int')], ['TILED(r, b, e)', wf], ['PART(r, b, e)'], trig=['TILED(r, b, e), PART(r, b, e)'],
            hints=['forall(lambda i, j: implies(0 <= i < j < len(r), ORD(r, i, j) and r[i][4] <= r[j][2]), trig=(r[i], r[j]))', 'forall(lambda i, j: implies(0 <= i < len(r) and 0 <= j < len(r) and i != j, r[i][4] <= r[j][2] or r[j][4] <= r[i][2]), trig=(r[i], r[j]))', 'APART2(r)', 'STARTS2(r, b)', all_('r', 'r[i][4] == e or STARTS2(r, r[i][4])'), 'r[0][2] == b and r[0][2] < r[0][4]', 'r[len(r) - 1][4] == e and r[len(r) - 1][2] < r[len(r) - 1][4]', 'forall(lambda i: implies(0 <= i and i < len(r), b <= r[i][2]), trig=r[i])', 'forall(lambda i: implies(0 <= i and i < len(r), r[i][4] <= e), trig=r[i])'])
    c.lemma('lift', [('d', DS), ('t', 'str'), ('r', RS), ('b', 'int'), ('e', 'int')], ['0 <= b < e <= len(t)', 'OKS(d, t[b:e], b, r)'], ['OKS(d, t, 0, r)'], trig=['OKS(d, t[b:e], b, r)'])
    best = ('words', RS)
    okw = [word, 'len(words) > 0', 'OKS(self.Dr, t, 0, words)', inord('words')]
    okres = lambda b, e: ['OKS(self.Dr, t, 0, result)', 'PART(result, %s, %s)' % (b, e)]
    c.add(Contract(X + '._add_first_subword', [self, t_, best], returns=RS, requires=okw + ['words[0][2] > 0'], ensures=okres('0', 'words[0][2]')))
    c.add(Contract(X + '._add_last_subword', [self, t_, best, ('n', 'int')], returns=RS, requires=okw + ['n == len(t)', 'words[len(words) - 1][4] < n'], ensures=okres('words[len(words) - 1][4]', 'len(t)')))
    # every row of s ends at n or where a row of u or v starts
    c.fn('ENDS2', [('s', RS), ('u', RS), ('v', RS), ('n', 'int')], 'bool', all_('s', 's[i][4] == n or STARTS2(u, s[i][4]) or STARTS2(v, s[i][4])'))
    c.fn('WITHIN', [('s', RS), ('b', 'int'), ('e', 'int')], 'bool', all_('s', 'b <= s[i][2] and s[i][2] < s[i][4] and s[i][4] <= e'))
    c.lemma('withincat', [('s', RS), ('r', RS), ('b', 'int'), ('e', 'int')], [], ['WITHIN(s + r, b, e) == (WITHIN(s, b, e) and WITHIN(r, b, e))'], trig=['WITHIN(s + r, b, e)'])
    filled = lambda a, n: 'forall(lambda i: implies(0 <= i < %s, words[i][4] == words[i + 1][2] or STARTS2(%s, words[i][4])))' % (n, a)
    gaps = lambda a, n: ['OKS(self.Dr, t, 0, %s)' % a, 'APART2(%s)' % a, 'CROSS2(words, %s)' % a, filled(a, n)]
    c.add(Contract(X + '._add_inter_subwords', [self, t_, best], returns=RS, requires=okw, ensures=gaps('result', 'len(words) - 1') + ['WITHIN(result, words[0][4], words[len(words) - 1][2])', 'ENDS2(result, words, result, len(t))']))
    c.loops[X + '._add_inter_subwords'] = [Loop(gaps('adds', '_i') + ['WITHIN(adds, words[0][4], words[_i][2])', 'ENDS2(adds, words, adds, len(t))'], types={'adds': RS})]
    c.add(Contract(X + '._postprocessing', [self, t_, best], returns=RS, paths=True, requires=okw, chain=True, ensures=['len(result) > 0', 'OKS(self.Dr, t, 0, result)', 'APART2(result)', 'NEXT2(result, len(t))', 'SORTED2(result)', 'STARTS2(result, 0)', 'TILED(result, 0, len(t))']))
    # the pieces
    PS = 'list[tup[str,str]]'
    PP = 'list[%s]' % PS
    c.fn('CATP', [('s', PS), ('n', 'int')], 'str', "ite(n <= 0, '', CATP(s, n - 1) + s[n - 1][0])")
    c.lemma('catpush', [('s', PS), ('x', 'tup[str,str]'), ('n', 'int')], ['0 <= n <= len(s)'], ['CATP(s + [x], n) == CATP(s, n)'], measure='n', trig=['CATP(s + [x], n)'])
    c.fn('PCAT', [('ps', PP), ('n', 'int')], 'str', "ite(n <= 0, '', PCAT(ps, n - 1) + ps[n - 1][0][0] + ps[n - 1][1][0])")
    c.fn('OF', [('ps', PP), ('r', RS)], 'bool', 'len(ps) == len(r) and ' + all_('r', "len(ps[i]) == 2 and ps[i][0] == (r[i][0], 'L') and ps[i][1] == (r[i][1], 'R')"))
    c.lemma('pcat', [('d', DS), ('t', 'str'), ('r', RS), ('ps', PP), ('n', 'int')], ['TILED(r, 0, len(t))', 'OKS(d, t, 0, r)', 'OF(ps, r)', '0 <= n <= len(r)'], ['PCAT(ps, n) == t[:(r[n - 1][4] if n > 0 else 0)]'], measure='n', trig=['OKS(d, t, 0, r), PCAT(ps, n)'], pull=True)
    c.fn('PIECE', [('d', DS), ('w', 'tup[str,str]')], 'bool', "len(w[0]) > 0 and (w[1] == 'L' or w[1] == 'R' and w[0] in d)")
    c.fn('PIECE0', [('d', DS), ('p', PS)], 'bool', "len(p) == 2 and p[0][1] == 'L' and p[1][1] == 'R' and (len(p[1][0]) == 0 or p[1][0] in d)")
    c.fn('PIECED', [('d', DS), ('t', 'str'), ('s', PS)], 'bool', 'CATP(s, len(s)) == t and ' + all_('s', 'PIECE(d, s[i])'))
    c.add(Contract(X + '._tokenize', [self, t_, ('debug', 'bool')], split=['debug'], paths=True, requires=[word], returns=lambda env: RS if env['debug'] is True else PS if env['debug'] is False else None, ensures=[
        'implies(debug, TILED(result, 0, len(t)) and OKS(self.Dr, t, 0, result))', 'implies(not debug, CATP(result, len(result)) == t)', 'implies(not debug, PIECED(self.Dr, t, result))'], chain=True))
    pc = all_('_out', 'PIECE(self.Dr, _out[i])')
    c.comps[X + '._tokenize'] = (2, {1: [Loop(['PCAT(post, len(post)) == t', all_('post', "len(post[i]) == 2 and PIECE0(self.Dr, post[i])"), 'CATP(_out, len(_out)) == PCAT(post, _i)', pc], types={'_out': PS}, name='p'), Loop([pc, 'len(p) == 2', 'PIECE0(self.Dr, p)', 'implies(_i == 0, CATP(_out, len(_out)) == PCAT(post, _i_p))', "CATP(_out, len(_out)) == PCAT(post, _i_p) + (p[0][0] if _i > 0 else '') + (p[1][0] if _i > 1 else '')"], types={'_out': PS})]})
    # sentences
    PR = 'list[%s]' % RS
    c.fn('FLATP', [('ss', PP), ('n', 'int')], PS, 'ite(n <= 0, [], FLATP(ss, n - 1) + ss[n - 1])')
    c.fn('FLATR', [('ss', PR), ('n', 'int')], RS, 'ite(n <= 0, [], FLATR(ss, n - 1) + ss[n - 1])')
    c.fn('ROWED', [('d', DS), ('t', 'str'), ('r', RS)], 'bool', 'TILED(r, 0, len(t)) and OKS(d, t, 0, r)')
    each = lambda f, r, n='len({1})': ('len({1}) == ' + ('len(sent.split())' if n == 'len({1})' else '_i') + ' and forall(lambda k: implies(0 <= k < len({1}), {0}(self.Dr, sent.split()[k], {1}[k])))').format(f, r)
    def result(env):
        p = env['debug'] is True and RS or env['debug'] is False and PS
        return p and (p if env['flatten'] is True else 'list[%s]' % p if env['flatten'] is False else None) or None
    say = [('not debug and not flatten', each('PIECED', 'result')), ('not debug and flatten', 'exists(lambda ss: %s and result == FLATP(ss, len(ss)), ss="%s")' % (each('PIECED', 'ss'), PP)),
           ('debug and not flatten', each('ROWED', 'result')), ('debug and flatten', 'exists(lambda ss: %s and result == FLATR(ss, len(ss)), ss="%s")' % (each('ROWED', 'ss'), PR))]
    sf = [self, ('sent', 'str'), ('debug', 'bool'), ('flatten', 'bool')]
    for f in ('.tokenize', '.__call__'):
        c.add(Contract(X + f, sf, split=['debug', 'flatten'], returns=result, ensures=['implies(%s, %s)' % q for q in say]))
    def flat(fixed):
        g, t = ('FLATR', RS) if fixed['debug'] is True else ('FLATP', PS)
        return [Loop(['_out == %s(sent_, _i)' % g], types={'_out': t}, name='words'), Loop(['_out == %s(sent_, _i_words) + words[:_i]' % g], types={'_out': t})]
    c.comps[X + '.tokenize'] = (2, {1: flat})
    # the dictionaries: the words given and the preferred words
    w_ = lambda q: 'forall(lambda w: %s, w="str")' % q
    has = lambda d: '({0} is not None and w in {0})'.format(d)
    ini = [self, ('Dl', DS), ('Dr', DS), ('preference_l', DS), ('preference_r', DS), ('lrgraph', 'none'), ('tokenizer_builder', 'none'), ('max_lscore_difference', 'real'), ('max_lscore_diffratio', 'real'), ('ensurable_score_l', 'real'), ('ensurable_score_lr_diff', 'real')]
    al = ['none', DS, 'set[str]']
    c.add(Contract(X + '.__init__', ini, alts={'Dl': al, 'Dr': al, 'preference_l': ['none', DS], 'preference_r': ['none', DS]}, paths=True, shares=True,
                   ensures=[w_('iff(w in self.D%s, %s or %s)' % (k, has('old(D%s)' % k), has('old(preference_%s)' % k))) for k in 'lr'] + [
                       'self.%s == %s' % (n, n) for n, _ in ini[7:]]))
    c.loops[X + '.__init__'] = [Loop([w_('iff(w in self.D{0}, w in pre(self.D{0}) or exists(lambda i: 0 <= i < _i and _it(i) == w))'.format(k))], types={'self.D' + k: DS}) for k in 'lr']
    return c
